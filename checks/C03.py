"""2-factor SV: unconditional moments and central moments"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 80, 25
SUBJECTS = ['2fsv.mom', '2fsv.cmom']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
