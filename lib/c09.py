"""Which signatures are supported: every type term in every position, against both generators and both compilers."""
import matrix
import rows
import tygrid as g


POS = [p for p in g.POSITIONS if p != 'cout']


def grid(tier):
    atoms = [g.at(a) for a in g.ATOMS]
    two = [g.wr(w, t) for w in g.W1 + g.WR for t in atoms]
    for pos in POS:
        for t in atoms + two:
            yield pos, t
    few = [g.at(a) for a in ('u8', 'String', 'CxxString', 'C', 'R', 'S', 'P', 'E', 'T', 'str', '()')]
    w = [x for x in g.W1 + g.WR if x != 'Option']
    three = [g.wr(x, g.wr(y, t)) for x in w for y in w for t in few]
    for pos in POS if tier == 'thorough' else ('carg', 'rret', 'field'):
        for t in three:
            yield pos, t
    if tier == 'thorough':
        four = [g.wr(v, g.wr(x, g.wr(y, g.at(a)))) for v in w for x in w for y in w for a in ('u8', 'C', 'R', 'P')]
        for t in four:
            yield 'carg', t
            yield 'rret', t


def expect(pos, t):
    if g.lost_lifetime(pos, t):
        return 'rust'
    return 'ok' if g.pos_valid(pos, t) else 'reject'


def verdict(c):
    if c.want == 'ok':
        if (c.cli_got, c.rust_got, c.cxx_got) != ('ok', 'ok', 'ok'):
            return 'is supported, but is refused or does not compile'
    elif c.rust_got == 'ok':
        return 'is not supported, but the macro accepts it'
    elif c.want == 'reject' and c.cli_got != 'error':
        return 'is not supported, but the C++ generator accepts it'
    if c.cli_got not in ('ok', 'error') or 'panic' in c.rust_got.split():
        return 'is not handled'


def check(b, r, tier):
    r.rules = ['every type term built from the bindings, in every position of a bridge, is accepted by both code generators and compiles on both '
               'sides if the documented bindings give it a meaning, and is otherwise refused by both',
               'compile-fail witnesses for everything else that can be misshapen in a bridge']
    cases = []
    for pos, t in grid(tier):
        c = g.case('k%d' % len(cases), pos, t)
        c.pos, c.term, c.want = pos, t, expect(pos, t)
        cases.append(c)
    full = tier == 'thorough'
    for i in range(0, len(cases), 30000):
        matrix.run(b, cases[i:i + 30000], 'grid%d' % i)
    for c in cases:
        r.count('bridges')
        r.count('supported' if c.want == 'ok' else 'unsupported')
        v = verdict(c)
        if v:
            r.violation('%s/%s' % (c.pos, g.show(c.term)), '%s as %s %s\nC++ generator: %s; macro and rustc: %s; C++ compiler: %s\n%s\n%s\n%s\n%s' % (
                g.show(c.term), c.pos, v, c.cli_got, c.rust_got, c.cxx_got, c.bridge, c.cli_msg, c.rust_msg, c.cxx_msg))
    if full:
        # the accepted ones once more, by gcc and under the oldest and newest standard
        again = [c for c in cases if c.want == 'ok' and c.cxx_got == 'ok' and len(str(c.term)) < 60]
        import os
        for n in range(0, len(again), 8000):
            part = again[n:n + 8000]
            d = os.path.dirname(b.path('again%d.d' % n, 'rust', 'x'))
            os.symlink(b.src + '/include/cxx.h', d + '/cxx.h')
            d = os.path.dirname(d)
            with open(d + '/common.h', 'w') as f:
                f.write(matrix.COMMON_H)
            matrix.run_cli(b, part, d)
            for comp, std in ('g++', 'c++17'), ('g++', 'c++11'), ('clang++', 'c++20'):
                for c in part:
                    c.cxx_got = None
                matrix.run_cxx(b, part, d, comp, std)
                for c in part:
                    r.count('again_with_other_compilers')
                    if c.cxx_got != 'ok':
                        r.violation('%s/%s/%s' % (c.pos, g.show(c.term), comp + std), '%s\n%s' % (c.bridge, c.cxx_msg))
    r.floor('supported', 3000)
    r.floor('unsupported', 3000)
    r.sample({'terms': ['%s: %s' % (c.pos, g.show(c.term)) for c in cases[::max(1, len(cases) // 30)]]})
    rows.check(b, r, 'C09', tier, 180)
