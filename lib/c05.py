from crosscheck import crossing_check


def check(b, r, tier):
    crossing_check(b, r, tier, 'C05')
