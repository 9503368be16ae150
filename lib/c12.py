"""Shared enums: the value of every variant and the underlying type, on both sides, against Rust's own rule."""
import itertools
import re

import matrix
import rows
from matrix import Case

REPRS = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize']
BITS = {'8': 8, '16': 16, '32': 32, '64': 64, 'size': 64}


def limits(repr):
    n = BITS[repr[1:]]
    return (0, 2 ** n - 1) if repr[0] == 'u' else (-2 ** (n - 1), 2 ** (n - 1) - 1)


def cxx_type(repr):
    return {'usize': 'std::size_t', 'isize': 'rust::isize'}.get(repr) or 'std::%sint%s_t' % ('u' if repr[0] == 'u' else '', repr[1:])


class Lit:
    """An explicit discriminant as written."""

    def __init__(self, value, suffix='', text=None):
        self.value, self.suffix = value, suffix
        self.text = text or '%d%s' % (value, suffix)


def meaning(repr, ds):
    """What the declaration means: (repr, values), or None if it has to be refused. ds: Lit or None per variant."""
    values, prev = [], None
    for d in ds:
        if d is None:
            v = 0 if prev is None else prev + 1
        else:
            v = d.value
            if d.suffix:
                if repr not in (None, d.suffix):
                    return None
                repr = d.suffix
        values.append(v)
        prev = v
    if repr is None:
        for r in REPRS[:8]:
            lo, hi = limits(r)
            if all(lo <= v <= hi for v in values):
                repr = r
                break
        else:
            return None
    lo, hi = limits(repr)
    if not all(lo <= v <= hi for v in values):
        return None
    return repr, values


def lit_cxx(v):
    if v < 0:
        return '(%dLL - 1)' % (v + 1)
    return '%dULL' % v if v > 2 ** 63 - 1 else '%dLL' % v


def case(id, repr, ds):
    body = ', '.join('V%d' % i + ('' if d is None else ' = ' + d.text) for i, d in enumerate(ds))
    c = Case(id, '%senum E { %s }\nextern "Rust" { fn f(e: E) -> E; }' % ('#[repr(%s)] ' % repr if repr else '', body))
    c.spec = '%senum { %s }' % ('#[repr(%s)] ' % repr if repr else '', body)
    c.rust = 'pub fn f(e: ffi::E) -> ffi::E { e }'
    m = meaning(repr, ds)
    c.want = 'ok' if m else 'reject'
    if m:
        r, vs = m
        ct = cxx_type(r)
        if ct.startswith('rust::'):
            ct = 'std::int64_t'
        c.user = '#include <cstddef>\n#include <cstdint>\n#include <type_traits>\nstatic_assert(std::is_same<std::underlying_type<%s::E>::type, %s>::value, "underlying type");\n' % (id, ct)
        c.rust += '\nconst _: fn(ffi::E) -> %s = |e| e.repr; const _: () = assert!(core::mem::size_of::<ffi::E>() == core::mem::size_of::<%s>());' % (r, r)
        for i, v in enumerate(vs):
            c.user += 'static_assert(static_cast<%s>(%s::E::V%d) == static_cast<%s>(%s), "V%d");\n' % (ct, id, i, ct, lit_cxx(v), i)
            if v < 0:
                c.user += 'static_assert(static_cast<%s>(%s::E::V%d) < 0, "V%d");\n' % (ct, id, i, i)
            c.rust += '\nconst _: () = assert!(ffi::E::V%d.repr as i128 == %di128);' % (i, v)
        c.rust += '\nconst _: () = { let e = ffi::E { repr: %s::MAX }; assert!(e.repr == %s::MAX); };' % (r, r)
    return c


EDGE = sorted({s * v + d for n in (7, 8, 15, 16, 31, 32, 63, 64) for s, v in ((1, 2 ** n), (-1, 2 ** n)) for d in (-1, 0, 1)} | {0, 1, -1, 2, -2})
EDGE = [v for v in EDGE if -2 ** 63 - 2 <= v <= 2 ** 64 + 1]


def table(tier):
    full = tier == 'thorough'
    out = []
    L = [Lit(v) for v in EDGE]
    for d in L:
        out.append((None, [d]))
        out.append((None, [d, None]))
        out.append((None, [d, None, None]))
        out.append((None, [None, d]))
    for r in REPRS:
        for d in L:
            out.append((r, [d]))
            out.append((r, [d, None]))
    pairs = list(itertools.product(L, L)) if full else list(itertools.product(L[::3], L)) + list(itertools.product(L, L[::4]))
    for a, b in pairs:
        out.append((None, [a, b, None]))
    if full:
        for r in REPRS:
            for a, b in itertools.product(L[::2], L):
                out.append((r, [a, b]))
    small = [None, Lit(0), Lit(-1), Lit(254), Lit(255), Lit(256), Lit(-128), Lit(-129), Lit(3)]
    for ds in itertools.product(small, repeat=3):
        out.append((None, list(ds)))
        if full:
            for r in 'u8', 'i8', 'u16', 'i16':
                out.append((r, list(ds)))
    if full:
        for ds in itertools.product(small[:6], repeat=4):
            out.append((None, list(ds)))
    # suffixes, other ways to write a number
    for s in REPRS:
        for v in (0, 1, -1, 127, 128, 255, 256, -128, 65535, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 64 - 1):
            out.append((None, [Lit(v, s)]))
            out.append((None, [Lit(v, s), None]))
            out.append((None, [Lit(7), Lit(v, s)]))
            out.append((None, [Lit(-7), Lit(v, s)]))
            for r in ('u8', 'i32') if not full else REPRS:
                out.append((r, [Lit(v, s)]))
        for z in REPRS:
            out.append((None, [Lit(1, s), Lit(2, z)]))
    for text, v in ('0x1F', 31), ('0o17', 15), ('0b101', 5), ('1_000', 1000), ('-0', 0), ('-0x80', -128), ('--5', 5), ('-1_2', -12), ('0xFFFF_FFFF_FFFF_FFFF', 2 ** 64 - 1):
        out.append((None, [Lit(v, text=text), None]))
        out.append((None, [None, Lit(v, text=text), None]))
    for n in 255, 256, 257:
        out.append((None, [None] * n))
    out.append((None, [Lit(-100)] + [None] * 300))
    out.append(('u8', [None] * 256))
    out.append(('u8', [None] * 257))
    out.append(('i8', [None] * 129))
    return out


def check(b, r, tier):
    r.rules = ['each variant has, in Rust and in C++, the value Rust assigns to it, and the enum has the declared or the smallest sufficient '
               'underlying type (compile-time assertions evaluated by both compilers); what does not fit is refused by both generators']
    cases = [case('e%d' % i, *x) for i, x in enumerate(table(tier))]
    matrix.run(b, cases, 'enums')
    for c in cases:
        r.count('enums')
        got = (c.cli_got, c.rust_got, c.cxx_got)
        bad = None
        if c.want == 'ok':
            r.count('values_asserted', c.spec.count('V'))
            if got != ('ok', 'ok', 'ok'):
                bad = 'has a meaning, but is refused or has another value or type'
        else:
            r.count('must_be_refused')
            if c.rust_got == 'ok' and c.cxx_got != 'error' or c.cli_got not in ('ok', 'error') or 'panic' in c.rust_got.split():
                bad = 'does not fit, but is accepted'
        if bad:
            r.violation(c.spec[:200], '%s %s\nC++ generator: %s; macro and rustc: %s; C++ compiler: %s\n%s\n%s\n%s' % (
                c.spec[:600], bad, *got, c.cli_msg[:800], c.rust_msg[:800], c.cxx_msg[:800]))
    r.floor('must_be_refused', 400)
    r.floor('values_asserted', 3000)
    rows.check(b, r, 'C12', tier, 20)
