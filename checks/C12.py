"""SVCJ: conditional moments given the initial variance"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 50, 15
SUBJECTS = ['svcj.cond_mom', 'svcj.cond_cmom']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
