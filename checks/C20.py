"""state integral blocks of the square-root diffusion"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 200, 80
SUBJECTS = ['ito.moment_IEII', 'ito.moment_v']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
