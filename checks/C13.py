"""SVCJ: unconditional moments"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 80, 25
SUBJECTS = ['svcj.mom', 'svcj.mom.v_theta', 'svcj.cmom', 'svcj.cmom.nomu']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
