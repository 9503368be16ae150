"""Names: linker symbols of everything bridges declare, renames and namespaces as the user sees them, duplicates."""
import os
import re

import build
import llir
import matrix
import rows
import sigs
from matrix import Case

RULES = ['linker symbols: in bridges whose names differ only by namespace, receiver, separator or rename, every function, method, operator, callback and container '
         'instantiation is defined exactly once over all object modules (both generated halves, cxx.cc and the cxx crate), and every symbol one half refers to is defined with the same signature',
         'witness programs: C++ and Rust code that uses an item by its declared name, namespace and renames compiles, code that uses the name it would have without them does not',
         'a name declared twice in one scope is refused by both generators']

NAMESPACES = ['', 'a', 'a::b', 'a_b', 'b', 'T', 'a::T', 'b::a', 'S', 'cxx', 'f']


def bridge_for(i, ns):
    q = ns + '::' if ns else ''
    # names that differ from namespace to namespace only where they have to (the global one cannot hold both a namespace and a type T)
    T = {'': 'T0'}.get(ns, 'T')
    S = {'': 'S0'}.get(ns, 'S')
    f = {'': 'f0'}.get(ns, 'f')
    bridge = '''
#[derive(PartialEq, Eq, PartialOrd, Hash, Clone)] struct %(S)s { x: u8 }
#[derive(PartialEq, PartialOrd)] struct S_b { x: u8 }
#[derive(Hash)] struct S_operator_eq { x: u8 }
enum E { A }
extern "Rust" {
    type R; type R_b; #[cxx_name = "b_R"] type Renamed;
    fn rf(); fn rf_b(); fn b_rf(); fn R_rm(); #[cxx_name = "rf"] fn rf2(x: u8);
    fn rm(self: &R); fn rm_b(self: &R); fn rm(self: &R_b); fn rm(self: &Renamed); fn rm(self: &%(S)s); fn rm(self: &S_b);
    fn rcb(self: &R) -> Result<()>;
}
unsafe extern "C++" {
    include!("n%(i)d.h");
    type %(T)s; type T_b; #[cxx_name = "b_T"] type TRenamed;
    fn %(f)s(); fn f_b(); fn b_f(); fn T_m(); #[cxx_name = "over"] fn o1(x: u8); #[cxx_name = "over"] fn o2(x: u16); #[cxx_name = "over"] fn o3(x: &%(T)s);
    fn m(self: &%(T)s); fn m_b(self: &%(T)s); fn m(self: &T_b); fn m(self: &TRenamed); fn mut_m(self: Pin<&mut %(T)s>); fn m(self: &%(S)s);
    fn cb(g: fn(u8)); fn cb_g(g: fn(u8), h: fn(u8)); fn cb2(g: fn(u8)); fn cb(self: &%(T)s, g: fn(u8)); fn cb_g(self: &T_b, g: fn(u8));
    fn use_all(a: UniquePtr<%(T)s>, b: SharedPtr<%(T)s>, c: WeakPtr<%(T)s>, d: &CxxVector<%(T)s>, e: UniquePtr<T_b>, f: SharedPtr<TRenamed>, g: &CxxVector<T_b>,
        h: Vec<%(S)s>, i: Box<%(S)s>, j: Vec<R>, k: Box<R>, l: Vec<R_b>, m: Box<Renamed>, n: Vec<E>, o: &CxxVector<%(S)s>, p: UniquePtr<%(S)s>, q: SharedPtr<S_b>, r: UniquePtr<CxxVector<%(T)s>>);
}
''' % dict(S=S, T=T, f=f, i=i)
    rust = '''pub struct R; pub struct R_b; pub struct Renamed; pub fn rf() {} pub fn rf_b() {} pub fn b_rf() {} pub fn R_rm() {} pub fn rf2(_: u8) {}
impl R { pub fn rm(&self) {} pub fn rm_b(&self) {} pub fn rcb(&self) -> Result<(), String> { Ok(()) } } impl R_b { pub fn rm(&self) {} } impl Renamed { pub fn rm(&self) {} } impl ffi::%s { pub fn rm(&self) {} } impl ffi::S_b { pub fn rm(&self) {} }
''' % S
    hdr = '#pragma once\n#include "common.h"\n#include "rust/cxx.h"\n%s\nstruct %s; struct S_b; struct R; struct R_b; struct b_R; enum class E : std::uint8_t;\n' % (''.join('namespace %s { ' % n for n in ns.split('::') if n), S)
    for t in T, 'T_b', 'b_T':
        hdr += 'struct %s { %s(const %s &); ~%s(); void m() const; void m_b() const; void mut_m(); void cb(rust::Fn<void(std::uint8_t)>) const; void cb_g(rust::Fn<void(std::uint8_t)>) const; };\n' % (t, t, t, t)
    hdr += 'void %s(); void f_b(); void b_f(); void T_m(); void over(std::uint8_t); void over(std::uint16_t); void over(const %s &);\n' % (f, T)
    hdr += 'void cb(rust::Fn<void(std::uint8_t)>); void cb_g(rust::Fn<void(std::uint8_t)>, rust::Fn<void(std::uint8_t)>); void cb2(rust::Fn<void(std::uint8_t)>);\n'
    hdr += 'template <class... A> void use_all(A...);\n' if 0 else 'struct any { template <class X> any(X &&); };\ntemplate <class R, class... A> R use_all(A...);\n'
    hdr += '}' * len([n for n in ns.split('::') if n])
    c = Case('n%d' % i, bridge, rust, '', attr='#[cxx::bridge%s]' % ('(namespace = "%s")' % ns if ns else ''))
    c.own_h = hdr
    c.ns = ns
    return c


def modules(b, cases, name, r):
    """The object modules of these bridges, as LLVM IR."""
    b.tools()
    d = os.path.dirname(b.path(name + '.d', 'rust', 'x'))
    if not os.path.exists(d + '/cxx.h'):
        os.symlink(b.src + '/include/cxx.h', d + '/cxx.h')
    d = os.path.dirname(d)
    b.write(name + '.d/common.h', matrix.COMMON_H)
    rlib = b.cxxlib()[1]
    matrix.run_cli(b, cases, d)
    for c in cases:
        if c.cli_got != 'ok':
            r.violation('symbols: bridge in namespace %s' % c.ns, 'the C++ generator refuses it: %s\n%s' % (c.cli_msg[:800], c.bridge))
            return None
        with open(os.path.join(d, c.id + '.h'), 'w') as f:
            f.write(c.own_h)
    src = b.write(name + '.d/wit.rs', matrix.COMMON_RS + ''.join(c.rust_text() for c in cases))
    res = {}

    def rs():
        res['rust'] = b.rustc(src, 'wit', rlib, ['--emit=llvm-ir=' + d + '/wit.ll', '--out-dir', d] + build.CODEGEN, ok=False)

    def cc(c):
        return lambda: res.__setitem__(c.id, b.clang(os.path.join(d, c.id + '.cc'), os.path.join(d, c.id + '.ll'), 'c++17', ['-I', d], ok=False))
    b.parallel([rs, lambda: b.cxxcc()] + [cc(c) for c in cases])
    bad = False
    if res['rust'].returncode:
        e = re.findall(r'^error.*(?:\n.*){0,6}', res['rust'].err, re.M)
        r.violation('symbols: Rust half', 'bridges whose names differ do not compile together in Rust:\n%s' % '\n'.join(e)[:2500])
        bad = True
    for c in cases:
        if res[c.id].returncode:
            r.violation('symbols: C++ half in namespace %s' % c.ns, 'the generated C++ does not compile:\n%s\n%s' % ('\n'.join(re.findall(r'.*error:.*', res[c.id].err))[:2500], c.bridge))
            bad = True
    if bad:
        return None
    return [llir.Module(d + '/wit.ll', 'Rust half')] + [llir.Module(os.path.join(d, c.id + '.ll'), 'C++ half of the bridge in namespace "%s"' % c.ns) for c in cases] + [
        llir.Module(b.cxxcc(), 'cxx.cc'), llir.Module(b.cxxlib()[0], 'the cxx crate')]


def symbols(b, r):
    cases = [bridge_for(i, ns) for i, ns in enumerate(NAMESPACES)]
    mods = modules(b, cases, 'symbols', r)
    if mods is None:
        return

    class Prog:
        modules = mods
    for name, problem, detail in sigs.link_check(Prog, lambda n: 'cxxbridge1$' in n, sigs.alike):
        if problem:
            r.violation('symbol %s' % name, '%s: %s' % (problem, detail))
        else:
            r.count('symbol_references')
    n = set()
    for m in mods:
        n |= {f.name for f in m.fns.values() if f.defined and 'cxxbridge1$' in f.name}
    r.count('symbols', len(n))
    r.floor('symbols', 1500)
    r.sample({'symbols': sorted(n)[::200]}, 20)


def library(b, r):
    """Items of the global namespace that are called like parts of the library."""
    c = Case('lib0', """
extern "Rust" { type string; fn len(self: &string) -> usize; fn error(x: u8) -> u8; fn exception(x: u8) -> u8; fn throw1(x: u8) -> u8; type vec; fn len(self: &vec) -> u8; type slice; fn len(self: &slice) -> u8; }
unsafe extern "C++" { include!("lib0.h"); type cxx_string; fn data(self: &cxx_string) -> u8; fn length(self: &cxx_string) -> u8; type unique_ptr; fn null(self: &unique_ptr) -> u8; type shared_ptr; fn get(self: &shared_ptr) -> u8;
    fn init(x: u8); fn string_new(x: u8); }
""", """pub struct string; impl string { pub fn len(&self) -> usize { 1 } } pub fn error(x: u8) -> u8 { x } pub fn exception(x: u8) -> u8 { x } pub fn throw1(x: u8) -> u8 { x }
pub struct vec; impl vec { pub fn len(&self) -> u8 { 1 } } pub struct slice; impl slice { pub fn len(&self) -> u8 { 1 } }
""", '', attr='#[cxx::bridge]')
    c.own_h = '#pragma once\n#include "common.h"\n#include "rust/cxx.h"\n'
    for t, m in ('cxx_string', 'data'), ('unique_ptr', 'null'), ('shared_ptr', 'get'):
        c.own_h += 'struct %s { std::uint8_t %s() const; std::uint8_t length() const; };\n' % (t, m)
    c.own_h += 'void init(std::uint8_t); void string_new(std::uint8_t);\n'
    c.ns = ''
    mods = modules(b, [c], 'library', r)
    if mods is None:
        return

    class Prog:
        modules = mods
    for name, problem, detail in sigs.link_check(Prog, lambda n: 'cxxbridge1$' in n, sigs.alike):
        if problem:
            r.violation('library name: symbol %s' % name, '%s: %s' % (problem, detail))
        else:
            r.count('symbol_references')


def check(b, r, tier):
    r.rules = RULES
    symbols(b, r)
    library(b, r)
    rows.check(b, r, 'C22', tier, 100)
