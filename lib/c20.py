"""Conditional items: what the C++ generators select, and what rustc selects, for the same condition and the same configuration."""
import itertools
import os
import random
import re

import build
import llir
import matrix
import rows
import sigs
from matrix import Case

# ---- conditions: ('n', name) | ('v', key, value) | ('all', ...) | ('any', ...) | ('not', x)
A, B = ('n', 'va'), ('n', 'vb')
KX, KY = ('v', 'vk', 'x'), ('v', 'vk', 'y')
F1, F2 = ('v', 'feature', 'f1'), ('v', 'feature', 'f-2_b')
ATOMS = [A, B, KX, KY, F1, F2]


def show(e, comma=False):
    if e[0] == 'n':
        return e[1]
    if e[0] == 'v':
        return '%s = "%s"' % (e[1], e[2])
    return '%s(%s%s)' % (e[0], ', '.join(show(x) for x in e[1:]), ',' if comma and len(e) > 1 else '')


class Setting:
    def __init__(self, names, values):
        self.names = names        # name -> bool
        self.values = values      # key -> set

    def eval(self, e):
        """True, False, or None where the command line tool has not been told."""
        if e[0] == 'n':
            return self.names.get(e[1])
        if e[0] == 'v':
            if e[1] not in self.values:
                return False if e[1] == 'feature' or e[1] in self.names else None
            return e[2] in self.values[e[1]]
        xs = [self.eval(x) for x in e[1:]]
        if e[0] == 'not':
            return None if xs[0] is None else not xs[0]
        stop = e[0] == 'any'
        if stop in xs:
            return stop
        return None if None in xs else not stop

    def cli(self):
        out = []
        for n, v in self.names.items():
            out += ['--cfg', n + ('' if v and n == 'vb' else '=true' if v else '=false')]
        for k, vs in self.values.items():
            for v in sorted(vs):
                out += ['--cfg', '%s="%s"' % (k, v)]
        return out

    def rustc(self):
        out = []
        for n, v in self.names.items():
            if v:
                out += ['--cfg', n]
        for k, vs in self.values.items():
            for v in sorted(vs):
                out += ['--cfg', '%s="%s"' % (k, v)]
        return out

    def cargo(self):
        """The environment Cargo gives a build script for this configuration."""
        e = {}
        up = lambda s: s.upper().replace('-', '_')
        for n, v in self.names.items():
            if v:
                e['CARGO_CFG_' + up(n)] = ''
        for k, vs in self.values.items():
            if k == 'feature':
                for v in vs:
                    e['CARGO_FEATURE_' + up(v)] = '1'
            elif vs:
                e['CARGO_CFG_' + up(k)] = ','.join(sorted(vs))
        return e

    def __str__(self):
        return ' '.join(self.rustc()).replace('--cfg ', '') or '(nothing set)'


def expressions(full):
    out = list(ATOMS) + [('all',), ('any',), ('not', ('all',)), ('not', ('any',))]
    for x in ATOMS:
        out += [('not', x), ('all', x), ('any', x), ('not', ('not', x)), ('not', ('all', x)), ('all', ('not', x)), ('any', ('not', x))]
    for x, y in itertools.permutations(ATOMS[:5], 2):
        out += [('all', x, y), ('any', x, y), ('all', x, ('not', y)), ('any', ('not', x), y), ('not', ('all', x, y)), ('not', ('any', x, y))]
    rnd = random.Random(20)

    def term(d):
        k = rnd.random()
        if d == 0 or k < 0.2:
            return rnd.choice(ATOMS)
        if k < 0.4:
            return ('not', term(d - 1))
        return (rnd.choice(['all', 'any']),) + tuple(term(d - 1) for _ in range(rnd.randrange(0, 4)))
    for _ in range(1200 if full else 200):
        out.append(term(4 if full else 3))
    return out


def settings(full):
    out = []
    for a, b, k, f in itertools.product((True, False), (True, False), ({'z'}, {'x'}, {'x', 'y'}), (set(), {'f1'}, {'f-2_b', 'f1'})):
        out.append(Setting(dict(va=a, vb=b), dict(vk=k, feature=f)))
    return out if full else out[::5] + out[2::7]


WIDTH = 11


def mask_cases(exprs, s):
    """Structs whose size is the set of conditions that hold."""
    out = []
    for n in range(0, len(exprs), WIDTH):
        part = exprs[n:n + WIDTH]
        id = 'm%d' % n
        fields, mask = [], 1 << WIDTH
        for i, e in enumerate(part):
            attrs = '#[cfg(%s)]' % show(e, comma=i % 3 == 1)
            if e[0] == 'all' and len(e) > 2 and i % 2:
                # conjunction written as several attributes
                attrs = ' '.join('#[cfg(%s)]' % show(x) for x in e[1:])
            fields.append('%s f%d: [u8; %d]' % (attrs, i, 1 << i))
            mask |= (1 << i) if s.eval(e) else 0
        c = Case(id, 'struct S { z: [u8; %d], %s }\nextern "Rust" { fn f(s: S) -> S; }' % (1 << WIDTH, ', '.join(fields)))
        c.exprs = part
        c.rust = 'pub fn f(s: ffi::S) -> ffi::S { s } const _: () = assert!(core::mem::size_of::<ffi::S>() == %d);' % mask
        c.user = 'static_assert(sizeof(%s::S) == %d, "selected fields");' % (id, mask)
        c.cli_args = s.cli()
        c.want = 'ok'
        out.append(c)
    return out


# ---- every kind of item, present and absent
KINDS = []


def kind(name, bridge, rust_use='', cxx_use='', rust='', hdr='', attr=None):
    KINDS.append((name, bridge, rust_use, cxx_use, rust, hdr, attr))


IC = 'include!("%I.h");'
kind('struct', '%C struct X { x: u8 }', 'pub fn u(x: ffi::X) {}', 'inline void u(X) {}')
kind('struct with derives', '%C #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)] struct X { x: u8 }', 'pub fn u(x: ffi::X) {}',
     'inline bool u(const X &x) { return x == x; }')
kind('struct behind what uses it', '%C struct X { x: u8 } struct Y { %C x: X, y: u8 } extern "Rust" { %C fn f(x: X, r: &X) -> X; %C fn g(self: &X); }',
     'pub fn u(y: ffi::Y) -> ffi::X { y.x }', 'inline X u(const Y &y) { return y.x; }',
     '%C pub fn f(x: ffi::X, _: &ffi::X) -> ffi::X { x } %C impl ffi::X { fn g(&self) {} }')
kind('struct in containers', '%C struct X { x: u8 } extern "Rust" { %C fn f(a: Vec<X>, b: Box<X>, c: UniquePtr<X>, d: SharedPtr<X>, e: &CxxVector<X>); }',
     'pub fn u(x: ffi::X) {}', 'inline void u(X) {}',
     '%C pub fn f(_: Vec<ffi::X>, _: Box<ffi::X>, _: UniquePtr<ffi::X>, _: SharedPtr<ffi::X>, _: &CxxVector<ffi::X>) {}')
kind('opaque types in containers', 'unsafe extern "C++" { ' + IC + ' %C type X; %C fn f(a: UniquePtr<X>, b: SharedPtr<X>, c: WeakPtr<X>, d: &CxxVector<X>); }'
     ' extern "Rust" { %C type R; %C fn g(a: Box<R>, b: Vec<R>); }',
     'pub fn u(x: &ffi::X) {}', 'inline void u(R &) {}', '%C pub struct R; %C pub fn g(_: Box<R>, _: Vec<R>) {}',
     'struct X {}; inline void f(std::unique_ptr<X>, std::shared_ptr<X>, std::weak_ptr<X>, const std::vector<X> &) {}')
kind('enum', '%C enum X { P, Q }', 'pub fn u(x: ffi::X) {}', 'inline void u(X) {}')
kind('enum with derives', '%C #[derive(Debug, Hash, PartialOrd, Ord)] #[repr(u16)] enum X { P, Q }', 'pub fn u(x: ffi::X) {}', 'inline void u(X) {}')
kind('extern enum', '%C #[repr(u8)] enum X { P } unsafe extern "C++" { ' + IC + ' %C type X; }', 'pub fn u(x: ffi::X) {}', '', '', 'enum class X : std::uint8_t { P };')
kind('field', 'struct S { %C x: u8, y: u8 }', 'pub fn u(s: ffi::S) -> u8 { s.x }', 'inline std::uint8_t u(S s) { return s.x; }')
kind('field of a struct with derives', '#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)] struct S { %C x: String, y: u8 }',
     'pub fn u(s: ffi::S) -> String { s.x }', 'inline void u(S s) { s.x = "a"; }')
kind('variant', 'enum E { P, %C X, Q }', 'pub const U: ffi::E = ffi::E::X;', 'static const E u = E::X;')
kind('variant of an enum with derives', '#[derive(Debug, Hash, PartialOrd, Ord)] enum E { P, %C X, Q }', 'pub const U: ffi::E = ffi::E::X;', 'static const E u = E::X;')
kind('only variant', '#[repr(u8)] enum E { %C X }', 'pub const U: ffi::E = ffi::E::X;', 'static const E u = E::X;')
kind('opaque C++ type', 'unsafe extern "C++" { ' + IC + ' %C type X; type Y; }', 'pub fn u(x: &ffi::X) {}', '', '', 'struct X {}; struct Y {};')
kind('opaque C++ type with lifetime', 'unsafe extern "C++" { ' + IC + " %C type X<'a>; }", "pub fn u<'a>(x: &ffi::X<'a>) {}", '', '', 'struct X {};')
kind('alias of a C++ type', 'unsafe extern "C++" { ' + IC + ' %C type X = super::X; %C fn f(x: X) -> X; %C fn g(x: UniquePtr<X>); } %C impl UniquePtr<X> {}', 'pub fn u(x: ffi::X) {}', '',
     '#[repr(C)] pub struct X { x: u32 } unsafe impl ExternType for X { type Id = type_id!("%I::X"); type Kind = cxx::kind::Trivial; }',
     'struct X { std::uint32_t x; }; inline X f(X x) { return x; } inline void g(std::unique_ptr<X>) {}')
kind('opaque Rust type', 'extern "Rust" { %C type X; type Y; }', 'pub fn u(x: &X) -> bool { <X as cxx::RustType2>::Q }' if 0 else '', 'inline void u(X &) {}', 'pub struct X; pub struct Y;')
kind('C++ function', 'unsafe extern "C++" { ' + IC + ' %C fn x(a: u8); fn y(); }', 'pub fn u() { ffi::x(1) }', '', '', 'inline void x(std::uint8_t) {} inline void y() {}')
kind('fallible C++ function', 'unsafe extern "C++" { ' + IC + ' %C fn x(a: u8) -> Result<u32>; }', 'pub fn u() { ffi::x(1).unwrap(); }', '', '', 'inline std::uint32_t x(std::uint8_t a) { return a; }')
kind('C++ method', 'unsafe extern "C++" { ' + IC + ' type T; %C fn x(self: &T); }', 'pub fn u(t: &ffi::T) { t.x() }', '', '', 'struct T { void x() const; };')
kind('Rust function', 'extern "Rust" { %C fn x(a: u8) -> u8; }', '', 'inline std::uint8_t u() { return x(1); }', '%C pub fn x(a: u8) -> u8 { a }')
kind('fallible Rust function', 'extern "Rust" { %C fn x(a: String) -> Result<Vec<u8>>; }', '', 'inline void u() { x("").size(); }',
     '%C pub fn x(a: String) -> Result<Vec<u8>, String> { Err(a) }')
kind('Rust method', 'extern "Rust" { type R; %C fn x(self: &R); fn y(self: &R); }', '', 'inline void u(const R &r) { r.x(); }', 'pub struct R; impl R { %C fn x(&self) {} fn y(&self) {} }')
kind('method of a shared struct', 'struct S { s: u8 } extern "Rust" { %C fn x(self: &S); fn y(self: &S); }', '', 'inline void u(const S &r) { r.x(); }',
     'impl ffi::S { %C fn x(&self) {} fn y(&self) {} }')
kind('C++ block', '%C unsafe extern "C++" { ' + IC + ' type X; fn x(x: &X); }', 'pub fn u(x: &ffi::X) { ffi::x(x) }', '', '', 'struct X {}; inline void x(const X &) {}')
kind('Rust block', '%C extern "Rust" { type X; fn x(x: &X); }', '', 'inline void u(const X &a) { x(a); }', 'pub struct X; pub fn x(x: &X) {}')
kind('opaque Rust type that is an extern type', 'extern "Rust" { #[derive(ExternType)] %C type X; type Y; }', '', 'inline void u(X &) {}', 'pub struct X; pub struct Y;')
kind('opaque Rust type of another bridge', 'extern "Rust" { %C #[derive(ExternType)] type X; %C fn f(x: &X); %C fn g(self: &X) -> Result<()>; }', 'pub fn u() -> <X as cxx::ExternType>::Kind { todo!() }', '', '%C pub struct X; %C pub fn f(_: &X) {} %C impl X { fn g(&self) -> Result<(), String> { Ok(()) } }')
kind('Rust block with an extern type', '%C extern "Rust" { #[derive(ExternType)] type X; fn f(x: &X); }', 'pub fn u() -> <X as cxx::ExternType>::Kind { todo!() }', 'inline void u(const X &a) { f(a); }', '%C pub struct X; %C pub fn f(_: &X) {}')
kind('Rust block with nothing but an extern type', '%C extern "Rust" { #[derive(ExternType)] type X; }', '', 'inline void u(X &) {}', '%C pub struct X;')
kind('C++ block with an alias', '%C unsafe extern "C++" { ' + IC + ' type X = super::X; fn f(x: X) -> X; }', 'pub fn u(x: ffi::X) {}', '',
     '%C #[repr(C)] pub struct X { x: u32 } %C unsafe impl ExternType for X { type Id = type_id!("%I::X"); type Kind = cxx::kind::Trivial; }',
     'struct X { std::uint32_t x; }; inline X f(X x) { return x; }')
kind('C++ block with methods', '%C unsafe extern "C++" { ' + IC + ' type X; fn m(&self) -> Result<u8>; fn n(self: Pin<&mut X>); }', 'pub fn u(x: &ffi::X) { x.m().unwrap(); }', '', '', 'struct X { std::uint8_t m() const; void n(); };')
kind('include in a block', '%C extern "C++" { include!("%I.x"); }', '', 'static const int u = FROM_X;')
kind('include', 'extern "C++" { %C include!("%I.x"); }', '', 'static const int u = FROM_X;')
kind('includes, one of them', 'extern "C++" { %C include!("%I.x"); include!("%I.h"); } unsafe extern "C++" { type Y; }', '', 'static const int u = FROM_X; inline void v(Y &) {}', '', 'struct Y {};')
kind('use by a condition', 'struct S { s: String } struct Q { q: u8 } extern "Rust" { %C fn f(a: UniquePtr<S>, b: Vec<S>); %C fn g(b: &UniquePtr<CxxVector<Q>>); }', 'pub fn u() -> UniquePtr<ffi::S> { UniquePtr::null() }', 'inline void u(rust::Vec<S> v) { v.size(); }' if 0 else '', '%C pub fn f(_: UniquePtr<ffi::S>, _: Vec<ffi::S>) {} %C pub fn g(_: &UniquePtr<CxxVector<ffi::Q>>) {}')
kind('use by a field', 'struct S { s: String } struct Q { %C a: UniquePtr<S>, %C b: SharedPtr<S>, q: u8 }', 'pub fn u() -> UniquePtr<ffi::S> { UniquePtr::null() }')
kind('use by a condition and by another', 'struct S { s: String } extern "Rust" { %C fn f(a: UniquePtr<S>); fn g(a: UniquePtr<S>); #[cfg(any())] fn h(b: UniquePtr<S>); }', '', '', 'pub fn u() -> UniquePtr<ffi::S> { UniquePtr::null() } pub fn f(_: UniquePtr<ffi::S>) {} pub fn g(_: UniquePtr<ffi::S>) {}')
kind('impl', 'struct S { s: String } %C impl UniquePtr<S> {}', 'pub fn u() -> UniquePtr<ffi::S> { UniquePtr::null() }')
kind('impl of a vector', 'struct S { s: String } %C impl CxxVector<S> {}', 'pub fn u() -> UniquePtr<CxxVector<ffi::S>> { CxxVector::new() }')
kind('impl of a conditional type', '%C struct X { x: u8 } %C impl SharedPtr<X> {} %C impl Vec<X> {} %C impl Box<X> {} %C impl WeakPtr<X> {}',
     'pub fn u() -> SharedPtr<ffi::X> { SharedPtr::null() }', 'inline void u(X) {}')
kind('bridge', 'struct X { x: u8 }', 'pub fn u(x: ffi::X) {}', 'inline void u(X) {}', attr='%C #[cxx::bridge(namespace = "%I")]')
kind('bridge, attribute below', 'struct X { x: u8 }', 'pub fn u(x: ffi::X) {}', 'inline void u(X) {}', attr='#[cxx::bridge(namespace = "%I")] %C')


def kind_cases():
    """Cases with the condition %C still to be filled in; role: plain, or with a use on one side."""
    out = []
    for n, (name, bridge, ru, cu, rust, hdr, attr) in enumerate(KINDS):
        roles = [('plain', '', '')]
        if ru:
            roles.append(('used in Rust', ru, ''))
        if cu:
            roles.append(('used in C++', '', cu))
        for role, r, c in roles:
            out.append((n, name, role, bridge, rust + '\n' + r, hdr, c, attr))
    return out


def kinds(cond, holds, s, tag):
    cs = []
    for n, name, role, bridge, rust, hdr, use, attr in kind_cases():
        id = '%s%d%s' % (tag, n, {'plain': 'p', 'used in Rust': 'r', 'used in C++': 'c'}[role])
        # alternate how the condition is written
        f = lambda t: t.replace('%C', '#[cfg(%s)]' % cond).replace('%I', id)
        c = Case(id, f(bridge), f(rust), f(hdr), user='namespace %s { %s }' % (id, use) if use else '', attr=f(attr) if attr else None)
        c.name = '%s, %s' % (name, role)
        c.want = 'ok' if role == 'plain' or holds else 'rust:*' if role == 'used in Rust' else 'cxx'
        c.cli_args = s.cli()
        if c.want == 'cxx' or '%I.x' in bridge:
            c.cxx_want = 'error' if c.want == 'cxx' else 'ok'
            c.alone = True
        c.x = '%I.x' in bridge and holds
        cs.append(c)
    return cs


NEST = '''
%A struct X { x: u8 }
%A extern "Rust" { %B type R; %B fn f(a: u8); fn g(); }
struct S { %A #[cfg(%b)] x: u8, z: u8 }
'''


def nested(s, tag):
    """Conditions on a block and on an item in it, on the bridge and on an item."""
    out = []
    for n, (x, y) in enumerate(itertools.product([A, ('not', B), ('any', A, KX), ('all', A, B)], [B, ('not', A), ('all', KX, F1), ('any', B, ('not', KY))])):
        hx, hy = s.eval(x), s.eval(y)
        for m, (name, bridge, rust, use, attr, here) in enumerate([
                ('item in a block', '#[cfg(%X)] extern "Rust" { #[cfg(%Y)] fn x(); fn y(); }', 'pub fn x() {} pub fn y() {}', 'inline void u() { x(); }', None, hx and hy),
                ('neighbour in a block', '#[cfg(%X)] extern "Rust" { #[cfg(%Y)] fn x(); fn y(); }', 'pub fn x() {} pub fn y() {}', 'inline void u() { y(); }', None, hx),
                ('two attributes', '#[cfg(%X)] #[cfg(%Y)] struct X { x: u8 }', '', 'inline void u(X) {}', None, hx and hy),
                ('type in a block', '#[cfg(%X)] extern "Rust" { #[cfg(%Y)] type R; type Q; }', 'pub struct R; pub struct Q;', 'inline void u(R &) {}', None, hx and hy),
                ('include in a block', '#[cfg(%X)] extern "C++" { #[cfg(%Y)] include!("%I.x"); include!("%I.h"); }', '', 'static const int u = FROM_X;', None, hx and hy),
                ('item in a bridge', '#[cfg(%Y)] struct X { x: u8 } struct Y { y: u8 }', '', 'inline void u(X) {}', '#[cfg(%X)] #[cxx::bridge(namespace = "%I")]', hx and hy),
                ('field in a struct', '#[cfg(%X)] struct Z { #[cfg(%Y)] x: u8, y: u8 }', '', 'inline void u(Z z) { z.x = 1; }', None, hx and hy),
                ('two attributes and all', '#[cfg(all(%X, %Y))] #[cfg(%X)] #[cfg(%Y)] struct X { x: u8 }', '', 'inline void u(X) {}', None, hx and hy)]):
            id = '%s%d_%d' % (tag, n, m)
            f = lambda t: t.replace('%X', show(x)).replace('%Y', show(y)).replace('%I', id)
            c = Case(id, f(bridge), f(rust), '', user='namespace %s { %s }' % (id, use), attr=f(attr) if attr else None)
            c.name = '%s, cfg(%s) and cfg(%s)' % (name, show(x), show(y))
            c.want = 'ok' if here else 'cxx'
            c.cli_args = s.cli()
            c.alone = True
            c.x = '%I.x' in bridge and here
            out.append(c)
    return out


UNKNOWN = ('n', 'vq')
UNKNOWNV = ('v', 'vw', 'x')


def undetermined():
    """Conditions of which the tool has not been told enough."""
    s = Setting(dict(va=True, vb=False), dict(vk={'x'}))
    out = []
    es = []
    for u in UNKNOWN, UNKNOWNV:
        es += [u, ('not', u), ('all', u), ('any', u), ('all', A, u), ('all', u, A), ('any', B, u), ('any', u, B), ('not', ('all', u, A)), ('all', ('any', u, B), A),
               ('any', A, u), ('any', u, A), ('all', B, u), ('all', u, B), ('not', ('any', u, A)), ('any', ('not', ('all', B, u)), u), ('all', u, u), ('not', ('not', u))]
    es += [('n', 'vk'), ('n', 'feature'), F1, ('v', 'va', 'x')]
    for e in es:
        v = s.eval(e)
        for kindn, bridge in ('field', 'struct S { %C x: u8, y: u8 }'), ('struct', '%C struct S { x: u8 }'), ('function', 'extern "Rust" { %C fn f(); }'), ('block', '%C extern "Rust" { fn f(); }'), \
                ('variant', 'enum E { A, %C B }'), ('include', 'extern "C++" { %C include!("a.h"); }'):
            c = Case('u%d' % len(out), bridge.replace('%C', '#[cfg(%s)]' % show(e)))
            c.name = 'undetermined: %s, cfg(%s) with %s' % (kindn, show(e), s)
            c.want = 'cli' if v is None else 'cliok'
            c.cli_args = s.cli()
            out.append(c)
    for args, ok in (['--cfg', 'va=true', '--cfg', 'va=false'], False), (['--cfg', 'va=true', '--cfg', 'va=true'], True), (['--cfg', 'va', '--cfg', 'va="x"'], True), ([], False), \
            (['--cfg', 'va="x"'], False), (['--cfg', 'va=1'], False), (['--cfg', 'vaa=true'], False), (['--cfg', 'va=false'], True):
        c = Case('u%d' % len(out), 'struct S { #[cfg(va)] x: u8, y: u8 }')
        c.name = 'flags: ' + ' '.join(args)
        c.want = 'cliok' if ok else 'cli'
        c.cli_args = args
        out.append(c)
    return out


BUILD_DRIVER = '''
fn main() {
    let files: Vec<String> = std::env::args().skip(1).collect();
    let _ = cxx_build::bridges(&files);
}
'''


def driver(b):
    """A program that is nothing but a build script."""
    if 'driver' in b.done:
        return b.done['driver']
    b.run(['cargo', 'build', '--offline', '--manifest-path', b.src + '/Cargo.toml', '-p', 'cxx-build'])
    src = b.write('driver/main.rs', BUILD_DRIVER)
    out = b.path('driver/driver')
    b.run(['rustc', src, '--edition', '2021', '--extern', 'cxx_build=' + b.newest('libcxx_build-*.rlib'), '-L', b.dir + '/target/debug/deps', '-o', out, '--cap-lints', 'allow'])
    b.done['driver'] = out
    return out


def build_helper(b, r, groups):
    """The same bridges through the build helper, told the configuration the way Cargo does."""
    exe = driver(b)

    def one(n, s, cs, d):
        def go():
            w = os.path.dirname(b.path('bh%d/manifest/x' % n))
            out = os.path.dirname(b.path('bh%d/out/x' % n))
            for c in cs:
                with open(os.path.join(w, c.id + '.rs'), 'w') as f:
                    f.write(c.cli_text())
            env = dict(s.cargo(), OUT_DIR=out, CARGO_MANIFEST_DIR=w, CARGO_PKG_NAME='wit', TARGET='x86_64-unknown-linux-gnu', HOST='x86_64-unknown-linux-gnu',
                       OPT_LEVEL='0', DEBUG='false', CARGO=b.env.get('CARGO', 'cargo'))
            p = b.run([exe] + [c.id + '.rs' for c in cs], ok=False, env=env, cwd=w)
            for c in cs:
                path = os.path.join(out, 'cxxbridge', 'sources', 'wit', c.id + '.rs.cc')
                if p.returncode or not os.path.exists(path):
                    c.bh = 'error'
                    c.bh_msg = p.err[-1500:]
                    continue
                with open(path) as f:
                    text = f.read() + '\n' + c.user
                cc = os.path.join(w, c.id + '.cc')
                with open(cc, 'w') as f:
                    f.write(text)
                c.bh = None
            todo = [c for c in cs if c.bh is None]
            for c in todo:
                c.cxx_got = None
            with open(os.path.join(w, 'common.h'), 'w') as f:
                f.write(matrix.COMMON_H)
            for c in cs:
                with open(os.path.join(w, c.id + '.h'), 'w') as f:
                    f.write('#pragma once\n#include "common.h"\nnamespace %s {\n%s\n}\n' % (c.id, c.hdr))
                x = os.path.join(d, c.id + '.x')
                if os.path.exists(x):
                    os.symlink(x, os.path.join(w, c.id + '.x'))
            return w, todo
        return go
    done = b.parallel([one(n, *g) for n, g in enumerate(groups)])
    for w, todo in done:
        matrix.run_cxx(b, todo, w)
        for c in todo:
            c.bh = c.cxx_got
            c.bh_msg = c.cxx_msg


# ---- how a struct is passed does not depend on whose side evaluates the condition
def abi(b, r, s):
    """Structs whose fields are partly conditional, passed by value both ways: both halves agree at machine level."""
    always = ['e: E', 'e: E, g: E', 'x: u32', 'e: I', 'a: [E; 3]', "r: &'a u8", "s: &'a str"]
    maybe = ['t: String', 'x: u32', 'v: Vec<u8>', 'g: E', 'b: Box<R>', 'i: I', 'p: P', 'q: [E; 2]', 'k: [String; 1]', 'u: SharedPtr<I>', 'n: Q']
    text = ['#[repr(u16)] enum E { A }', 'struct I { %s e: E, %s t: String }' % ('', '#[cfg(va)]'), 'struct Q { e: E, %s z: E }' % '#[cfg(not(vb))]',
            'struct P { e: E, %s x: u8 }' % '#[cfg(vk = "x")]']
    rf, cf, rust, hdr = ['type R;'], [], ['pub struct R;'], []
    n = 0
    for a in always:
        for m in maybe:
            for c in 'va', 'not(vb)', 'vk = "y"':
                if m.split(':')[0] in a.replace(',', ' ').replace(':', ' ').split():
                    continue
                lt = "<'a>" if "'a" in a else ''
                n += 1
                text.append('struct S%d%s { %s, #[cfg(%s)] %s }' % (n, lt, a, c, m))
                g = "<'a>" if lt else ''
                un = 'unsafe ' if lt else ''
                rf.append('%sfn f%d%s(a: S%d%s, b: u8) -> S%d%s;' % (un, n, g, n, lt, n, lt))
                cf.append('%sfn g%d%s(a: S%d%s, b: u8) -> S%d%s;' % (un, n, g, n, lt, n, lt))
                rust.append('pub %sfn f%d%s(a: ffi::S%d%s, _: u8) -> ffi::S%d%s { a }' % (un, n, g, n, lt, n, lt))
                hdr.append('struct S%d; S%d g%d(S%d, std::uint8_t);' % (n, n, n, n))
    r.count('conditionally_shaped_structs', n)
    bridge = '\n'.join(text) + '\nextern "Rust" { %s }\nunsafe extern "C++" { include!("%%s.h"); %s }' % ('\n'.join(rf), '\n'.join(cf))
    c = Case('abi', bridge % 'abi', '\n'.join(rust), '\n'.join(hdr))
    c.cli_args = s.cli()
    b.tools()
    d = os.path.dirname(b.path('abi.d', 'rust', 'x'))
    if not os.path.exists(d + '/cxx.h'):
        os.symlink(b.src + '/include/cxx.h', d + '/cxx.h')
    d = os.path.dirname(d)
    b.write('abi.d/common.h', matrix.COMMON_H)
    rlib = b.cxxlib()[1]
    matrix.run_cli(b, [c], d)
    if c.cli_got != 'ok':
        r.violation('structs of conditional shape with %s' % s, 'the C++ generator: %s' % c.cli_msg[:800])
        return
    src = b.write('abi.d/wit.rs', matrix.COMMON_RS + c.rust_text())
    b.rustc(src, 'wit', rlib, s.rustc() + ['--emit=llvm-ir=' + d + '/wit.ll', '--out-dir', d] + build.CODEGEN)
    b.clang(d + '/abi.cc', d + '/abi.ll', 'c++17', ['-I', d])

    class Prog:
        modules = [llir.Module(d + '/wit.ll', 'Rust'), llir.Module(d + '/abi.ll', 'C++')]
    for name, problem, detail in sigs.link_check(Prog, lambda n: re.search(r'cxxbridge1\$[fg]\d+$', n), sigs.alike):
        if problem:
            i = re.search(r'[fg](\d+)$', name).group(1)
            r.violation('%s of a struct of conditional shape with %s' % (problem, s), '%s: %s\n%s' % (name, detail, [t for t in text if t.startswith(('struct S%s ' % i, 'struct S%s<' % i))]))
        else:
            r.count('conditionally_shaped_signatures')


def judge(c):
    if c.want == 'cliok':
        return None if c.cli_got == 'ok' else 'the condition is decided by what the tool was told, but it is refused'
    v = rows.verdict(c)
    return v


def check(b, r, tier):
    full = tier == 'thorough'
    r.rules = ['the size of a struct all of whose fields are conditional is, in Rust (rustc --cfg) and in the C++ written by either generator (--cfg; Cargo\'s environment), '
               'the one computed from the configuration by the definition of all, any and not',
               'every kind of conditional item is usable on either side exactly if its condition (and that of its block and bridge) holds, and leaves code that compiles if not',
               'a struct passed by value has the same machine-level signature in both halves whichever of its fields are conditional',
               'a condition over what the tool was not told is an error unless it is decided without it']
    exprs = expressions(full)
    groups = []
    ss = settings(full)
    for i, s in enumerate(ss):
        cs = mask_cases(exprs, s)
        matrix.run(b, cs, 'cfg%d' % i, extra=s.rustc())
        r.count('settings')
        r.count('conditions_evaluated', len(exprs))
        for c in cs:
            if (c.cli_got, c.rust_got, c.cxx_got) != ('ok', 'ok', 'ok'):
                r.violation('fields of %s with %s' % (c.id, s), 'the selected fields differ from the conditions that hold\n%s\nC++ generator: %s; macro and rustc: %s; C++ compiler: %s\n%s\n%s\n%s' % (
                    '\n'.join('cfg(%s): %s' % (show(e), s.eval(e)) for e in c.exprs), c.cli_got, c.rust_got, c.cxx_got, c.cli_msg[:600], c.rust_msg[:600], c.cxx_msg[:600]))
        if full or i % 3 != 1:
            groups.append((s, cs, b.dir))
    # kinds of items, and conjunction
    for i, (cond, s) in enumerate([('va', ss[0]), ('va', Setting(dict(va=False), {})), ('not(any(vb, vk = "x"))', Setting(dict(vb=False), dict(vk={'y'}))),
                                   ('not(any(vb, vk = "x"))', Setting(dict(vb=False), dict(vk={'x'}))), ('feature = "f1"', Setting({}, dict(feature={'f1'}))), ('feature = "f1"', Setting({}, {}))]):
        if i > 1 and not full:
            continue
        e = {'va': A, 'feature = "f1"': F1}.get(cond) or ('not', ('any', B, KX))
        holds = s.eval(e)
        cs = kinds(cond, holds, s, 'k')
        name = 'kinds%d' % i
        d = os.path.dirname(b.path(name + '.d', 'x'))
        for c in cs:
            if c.x:
                b.write('%s.d/%s.x' % (name, c.id), '#define FROM_X 1\n')
        matrix.run(b, cs, name, extra=s.rustc())
        for c in cs:
            r.count('items')
            v = judge(c)
            if v:
                r.violation('%s, %s' % (c.name, 'present' if holds else 'absent'), 'with %s\n%s' % (s, v))
        groups.append((s, [c for c in cs if c.want in ('ok', 'cxx')], d))
    for i, s in enumerate([ss[0], ss[-1], ss[len(ss) // 2]] if not full else ss[::2]):
        cs = nested(s, 'n')
        name = 'nested%d' % i
        d = os.path.dirname(b.path(name + '.d', 'x'))
        for c in cs:
            if c.x:
                b.write('%s.d/%s.x' % (name, c.id), '#define FROM_X 1\n')
        matrix.run(b, cs, name, extra=s.rustc())
        for c in cs:
            r.count('nested_items')
            v = judge(c)
            if v:
                r.violation(c.name, 'with %s\n%s' % (s, v))
        groups.append((s, cs, d))
    us = undetermined()
    d = os.path.dirname(b.path('und.d', 'x'))
    matrix.run_cli(b, us, d)
    for c in us:
        r.count('undetermined')
        c.rust_got = c.cxx_got = None
        v = judge(c)
        if v:
            r.violation(c.name, v)
    for s in (ss if full else [ss[0], Setting(dict(va=False, vb=True), dict(vk={'x'})), Setting(dict(va=False, vb=False), dict(vk={'x', 'y'}))]):
        abi(b, r, s)
    build_helper(b, r, groups)
    for s, cs, _ in groups:
        for c in cs:
            r.count('through_build_helper')
            want = 'error' if c.want == 'cxx' else 'ok'
            if c.bh != want:
                r.violation('build helper: %s with %s' % (getattr(c, 'name', c.id), s), 'is %s, should be %s\n%s\n%s' % (c.bh, want, c.bridge[:1500], c.bh_msg))
    r.floor('settings', 12)
    r.floor('conditions_evaluated', 4000)
    r.floor('items', 120)
    r.floor('conditionally_shaped_signatures', 1000)
    r.floor('through_build_helper', 300)
