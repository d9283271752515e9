"""1-factor SV with price jumps: unconditional moments and central moments"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 100, 30
SUBJECTS = ['1fsvj.mom', '1fsvj.cmom']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
