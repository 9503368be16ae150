import rows


def check(b, r, tier):
    r.rules = ['compile-fail witnesses: every program of the table must be refused by rustc (with the named error) or by both code generators, and its '
               'twin without the offence must be accepted by all of them']
    rows.check(b, r, 'C11', tier, 200)
