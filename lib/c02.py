import re

import rows
import sigs
from crosscheck import crossing_check

BRIDGED = re.compile(r'(^|\$)(cxxbridge1)\$')


def check(b, r, tier):
    r.rules = ['every witness shim delivers every argument, receiver and return value byte for byte to the matching position '
               'of the matching function on the other side, once, on every path',
               'every bridge symbol one half declares is defined exactly once in the other with the same machine-level signature']
    prog, fns = crossing_check(b, r, tier, 'C02')
    for name, problem, detail in sigs.link_check(prog, lambda n: BRIDGED.search(n)):
        if problem:
            r.violation('symbol/%s/%s' % (name, problem), detail)
        else:
            r.count('symbols_matched')
    r.floor('symbols_matched', 1250)
    r.rules.append('a definition that differs from its declaration in the bridge in any argument, qualifier or result is refused by the compiler of '
                   'the language that defines it (compile-fail witnesses)')
    rows.check(b, r, 'C02', tier, 50)
