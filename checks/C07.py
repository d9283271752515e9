"""1-factor SV: conditional central moments given the initial variance, all documented forms"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 100, 30
SUBJECTS = ['1fsv.cond_cmom'] + [f'1fsv.cond_cmom.simplify{i}' for i in (1, 2, 3)]


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
