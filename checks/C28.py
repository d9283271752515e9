"""joint blocks of diffusion and jump integrals under contemporaneous jumps"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 150, 80
SUBJECTS = ['svcj.ieziziz', 'svcj.ieii_ieziziz']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
