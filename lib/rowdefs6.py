"""Witness programs: which operators and traits a shared type gets (C23)."""
import itertools

from drobs import CMP
from rows import pair, row

PRE = r'''
template <class... T> struct vo { typedef void type; };
#define HAS(NAME, OP) template <class T, class = void> struct NAME : std::false_type {}; \
  template <class T> struct NAME<T, typename vo<decltype(std::declval<const T &>() OP std::declval<const T &>())>::type> : std::true_type {};
HAS(has_eq, ==) HAS(has_ne, !=) HAS(has_lt, <) HAS(has_le, <=) HAS(has_gt, >) HAS(has_ge, >=)
template <class T> struct has_hash : std::is_default_constructible<std::hash<T>> {};
'''
NOT = '''const _: fn() = || { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + %s> A<I> for T {} let _ = <%s as A<_>>::f; };'''
TRAITS = {'PartialEq': 'PartialEq', 'Eq': 'Eq', 'PartialOrd': 'PartialOrd', 'Ord': 'Ord', 'Hash': 'core::hash::Hash', 'Clone': 'Clone', 'Copy': 'Copy', 'Debug': 'core::fmt::Debug', 'Default': 'Default'}
OPS = {'eq': 'PartialEq', 'ne': 'PartialEq', 'lt': 'PartialOrd', 'le': 'PartialOrd', 'gt': 'PartialOrd', 'ge': 'PartialOrd', 'hash': 'Hash'}


def tests(n, have, enum=False):
    rs = ''
    for t, path in TRAITS.items():
        rs += ('const _: fn() = || { fn has<T: %s>() {} has::<ffi::%s>(); };' % (path, n) if t in have else NOT % (path, 'ffi::' + n)) + '\n'
    cc = ''
    for o, t in OPS.items():
        if enum:
            if o == 'hash' and 'Hash' not in have:
                continue
            want = True
        else:
            want = t in have
        cc += 'static_assert(%shas_%s<%s>::value, "%s: %s operator %s");\n' % ('' if want else '!', o, n, n, 'missing' if want else 'unrequested', o)
    return rs, cc


def add():
    for ci, c in [(0, '')] + list(CMP.items()):
        bridge = rs = cc = ''
        k = 0
        for h, cl, d, f in itertools.product(('', 'Hash'), ('', 'Clone', 'Copy, Clone'), ('', 'Debug'), ('', 'Default')):
            ds = ', '.join(x for x in (c, h, cl, d, f) if x)
            if k % 3 == 1:
                ds = ', '.join(reversed(ds.split(', ')))
            have = set(ds.split(', '))
            n = 'S%d' % k
            k += 1
            bridge += (' '.join('#[derive(%s)]' % x for x in ds.split(', ')) if k % 3 == 0 else '#[derive(%s)]' % ds) + ' pub struct %s { a: u8, b: %s }\n' % (n, 'u16' if 'Copy' in have or k % 2 else 'String')
            a, b = tests(n, have)
            rs, cc = rs + a, cc + b
        row('C23', 'structs deriving %s and any of the others' % (c or 'no comparison'), 'ok', bridge + 'unsafe extern "C++" { %I }', rs,
            hdr='} // %N\n#include <functional>\n#include <utility>\nnamespace %N {\n' + PRE, user='namespace %N {\n' + cc + '}')
    bridge = rs = cc = ''
    for k, ds in enumerate(['', 'Hash', 'PartialOrd', 'PartialOrd, Ord', 'Debug', 'Debug, PartialOrd, Hash', 'Clone, PartialEq', 'Ord, PartialOrd, Debug, Hash, Copy, Clone, PartialEq, Eq', 'Eq', 'Copy']):
        n = 'E%d' % k
        bridge += ('#[derive(%s)] ' % ds if ds else '') + 'pub enum %s { A, B }\n' % n
        a, b = tests(n, {'PartialEq', 'Eq', 'Clone', 'Copy'} | set(ds.split(', ')), True)
        rs, cc = rs + a, cc + b
    row('C23', 'enums', 'ok', bridge + 'unsafe extern "C++" { %I }', rs, hdr='} // %N\n#include <functional>\n#include <utility>\nnamespace %N {\n' + PRE, user='namespace %N {\n' + cc + '}')


add()
# usable where only the header is included
E23 = 'unsafe extern "C++" { %I }'
for what, d, use in (('hash', 'Hash', 'inline std::size_t g(%N::S const &s) { return std::hash<%N::S>()(s); }'), ('comparison', 'PartialEq', 'inline bool g(%N::S const &s) { return s == s && !(s != s); }'),
                     ('ordering', 'PartialEq, PartialOrd', 'inline bool g(%N::S const &s) { return s < s && s <= s && s > s && s >= s; }'),
                     ('set of', 'Hash, PartialEq', '#include <unordered_set>\ninline std::size_t g(std::unordered_set<%N::S> const &s, %N::S const &x) { return s.count(x); }')):
    row('C23', '%s from the header alone' % what, 'ok', E23 + '#[derive(%s)] pub struct S { a: u8 }' % d, hdr='', user=use, header=True)
