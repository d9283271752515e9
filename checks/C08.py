"""SRJD: conditional moments given the initial value"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 100, 30
SUBJECTS = ['srjd.cond_mom', 'srjd.cond_mom.x', 'srjd.cond_cmom', 'srjd.cond_cmom.x']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
