"""SRJD: moments of the state integrals IE and IEZ, single and joint"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 150, 60
SUBJECTS = ['srjd.iez_mom', 'srjd.iez_cmom', 'srjd.ie_mom', 'srjd.ie_iez_mom', 'srjd.ie_cmom', 'srjd.ie_iez_cmom']


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
