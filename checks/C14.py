"""SVCJ: moments given initial variance and jumps"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 80, 25
SUBJECTS = ['svcj.cond2_mom', 'svcj.cond2_cmom']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
