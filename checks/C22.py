"""state integral blocks of two superposed square-root diffusions"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 100, 40
SUBJECTS = ['itos.moment_IEI_IEII']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
