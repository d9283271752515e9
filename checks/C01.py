"""1-factor SV: unconditional moments and central moments"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 100, 30
SUBJECTS = ['1fsv.mom', '1fsv.cmom']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
