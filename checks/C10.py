"""SRJD: conditional moments given the jump path"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 100, 30
SUBJECTS = ['srjd.cond2_mom', 'srjd.cond2_mom.IE', 'srjd.cond2_cmom']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
