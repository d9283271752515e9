"""2-factor models: cross moments and covariances of consecutive returns"""
import exact
RULE = exact.RULE
MIN_EVALS, MIN_KEYS = 80, 25
SUBJECTS = [m + f for m in ('2fsv', '2fsvj') for f in ('.moment_yy', '.cov')]


def tasks(tier, rng):
    return exact.build_tasks(SUBJECTS, tier)


run = exact.run
