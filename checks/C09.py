"""SRJD: stationary moments and central moments"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 80, 25
SUBJECTS = ['srjd.mom', 'srjd.mom.unsimplified', 'srjd.cmom']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier, npts=(10, 16))


run = exact.run
