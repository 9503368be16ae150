"""Derived traits, operators and hashes of shared types, each against what Rust's own derives give for the same fields."""
import rtobs
from rtobs import TYPES, ob

P = 'C23'
CMP = {  # derives: in the order the language requires nothing of
    1: 'PartialEq', 2: 'PartialEq, Eq', 3: 'PartialEq, PartialOrd', 4: 'PartialEq, Eq, PartialOrd', 5: 'PartialEq, Eq, PartialOrd, Ord',
    6: 'Ord, Eq, PartialOrd, PartialEq',
}
RS, BR, MR = '', '', ''
BOOLS = {}


def struct(name, size, derives, fields, attrs='', cxx=None, life='', mirror=None, bools=()):
    """A shared struct and a plain Rust struct with the same fields and derives."""
    global BR, MR
    BR += '    %s %s pub struct %s%s { %s }\n' % (attrs, ' '.join('#[derive(%s)]' % d for d in derives.split(' / ')), name, life, fields)
    f = mirror or fields
    MR += '#[repr(C)] #[derive(%s)] pub struct M%s%s { %s }\n' % (', '.join(d for d in derives.replace(' / ', ', ').split(', ')), name.replace('r#', ''), life, f)
    TYPES['ffi::' + name] = (cxx or 'dr::' + name, size)
    BOOLS['ffi::' + name] = list(bools)


def enum(name, size, repr_, derives, variants):
    global BR, MR
    BR += '    #[repr(%s)] #[derive(%s)] pub enum %s { %s }\n' % (repr_, derives, name, variants) if derives else '    #[repr(%s)] pub enum %s { %s }\n' % (repr_, name, variants)
    MR += '#[repr(transparent)] #[derive(Clone, Copy, PartialEq, Eq%s)] pub struct M%s { repr: %s }\n' % (
        ''.join(', ' + d for d in ('PartialOrd', 'Ord', 'Hash') if d in derives.split(', ')), name, repr_)
    TYPES['ffi::' + name] = ('dr::' + name, size)


def mirror(n):
    return 'M' + n.replace('r#', '')


def compare_obs(n, derives, cxx=True, deref='*', hashed=True):
    K, M = 'obj<ffi::%s>' % n, mirror(n)
    D = derives.replace(' / ', ', ').split(', ')
    ref = lambda op: 'r: %s(a as *const %s) %s %s(b as *const %s)' % (deref, M, op, deref, M)
    for op, t in ('==', 'PartialEq'), ('!=', 'PartialEq'), ('<', 'PartialOrd'), ('<=', 'PartialOrd'), ('>', 'PartialOrd'), ('>=', 'PartialOrd'):
        if t in D:
            ob(P, '%s: Rust %s' % (n, op), 'a:%s b:%s' % (K, K), 'bool', 'r: *a %s *b' % op, ref(op))
            if cxx:
                ob(P, '%s: C++ %s' % (n, op), 'a:%s b:%s' % (K, K), 'bool', 'c: return *a %s *b;' % op, ref(op))
                ob(P, '%s: C++ %s itself' % (n, op), 'a:%s b:=a' % K, 'bool', 'c: return *a %s *b;' % op, ref(op))
    if 'PartialOrd' in D:
        o = ' { Some(core::cmp::Ordering::Less) => -1, Some(core::cmp::Ordering::Equal) => 0, Some(core::cmp::Ordering::Greater) => 1, None => 2 }'
        ob(P, '%s: partial_cmp' % n, 'a:%s b:%s' % (K, K), 'i8', 'r: match PartialOrd::partial_cmp(&*a, &*b)' + o, 'r: match PartialOrd::partial_cmp(&*(a as *const %s), &*(b as *const %s))%s' % (M, M, o))
    if 'Ord' in D:
        o = ' { core::cmp::Ordering::Less => -1, core::cmp::Ordering::Equal => 0, core::cmp::Ordering::Greater => 1 }'
        ob(P, '%s: cmp' % n, 'a:%s b:%s' % (K, K), 'i8', 'r: match Ord::cmp(&*a, &*b)' + o, 'r: match Ord::cmp(&*(a as *const %s), &*(b as *const %s))%s' % (M, M, o))
    if 'Hash' in D:
        ob(P, '%s: Rust hash' % n, 'a:' + K, 'usize', 'r: hash_of(&*a)', 'r: hash_of(&*(a as *const %s))' % M)
        if hashed:
            ob(P, '%s: std::hash' % n, 'a:' + K, 'usize', 'c: return std::hash<%s>()(*a);' % TYPES['ffi::' + n][0], 'r: cxx::private::hash(&*(a as *const %s))' % M)


def make_obs(n, derives, raw, fields, shown=None):
    K, M = 'obj<ffi::%s>' % n, mirror(n)
    D = derives.replace(' / ', ', ').split(', ')
    T = 'ffi::' + n
    if 'Clone' in D:
        ob(P, '%s: clone' % n, 'o:%s a:%s' % (raw, K), 'void', 'r: (o as *mut %s).write((*a).clone())' % T, 'r: (o as *mut %s).write((*(a as *const %s)).clone())' % (M, M))
        ob(P, '%s: clone_from' % n, 'a:%s b:%s' % (K, K), 'void', 'r: (*a).clone_from(&*b)', 'r: let c = (*(b as *const %s)).clone(); *(a as *mut %s) = c' % (M, M))
    if 'Copy' in D:
        ob(P, '%s: copy' % n, 'o:%s a:%s' % (raw, K), 'void', 'r: let x = *a; (o as *mut %s).write(x); (o as *mut %s).write(x)' % (T, T), 'r: (o as *mut %s).write((a as *const %s).read())' % (M, M))
    if 'Default' in D:
        ob(P, '%s: default' % n, 'o:' + raw, 'void', 'r: (o as *mut %s).write(Default::default())' % T, 'r: (o as *mut %s).write(Default::default())' % M)
    if 'Debug' in D:
        ob(P, '%s: Debug' % n, 'a:%s f:ptr' % K, 'bool', 'r: core::fmt::Debug::fmt(&*a, &mut *(f as *mut core::fmt::Formatter)).is_ok()',
           'r: (*(f as *mut core::fmt::Formatter)).debug_struct("%s")%s.finish().is_ok()' % (shown or n, ''.join('.field("%s", &(*a).%s)' % (x.replace('r#', ''), x) for x in fields)))


rtobs.CUR = 'dr'
ABC = 'a: K, b: K, c: K'
for i, d in CMP.items():
    for k, f in ('K', ABC), ('Q', ABC.replace('K', 'Q')):
        if k == 'Q' and 'Ord' in d.split(', '):
            continue
        h = ', Hash' if i in (2, 4, 5, 6) and k == 'K' else ''
        n = 'S%s%d' % (k, i)
        dd = 'Hash, ' + d if i == 6 else d + h
        struct(n, 24, dd, f)
        compare_obs(n, dd)
        if i not in (1, 3):
            continue
# formatting, cloning, defaults
for n, d in ('Cl', 'Clone'), ('Cd', 'Debug, Default, Clone'), ('Df', 'Default'), ('Dg', 'Debug'), ('All', 'Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash'), ('Two', 'Clone, Debug / PartialEq / Hash, Eq'):
    struct(n, 24, d, ABC)
    make_obs(n, d, 'raw24', 'abc')
    compare_obs(n, d)
struct('Cp', 24, 'Clone, Copy, PartialEq, Debug', ABC.replace('K', 'J'))
make_obs('Cp', 'Clone, Copy, PartialEq, Debug', 'raw24', 'abc')
compare_obs('Cp', 'Clone, Copy, PartialEq, Debug')
# the library's own and Rust's types as fields
d = 'Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash'
struct('B', 56, d, 'a: u8, b: i8, c: u32, s: String, d: i64, e: bool, f: u16', bools=[48])
compare_obs('B', d, hashed=False)
make_obs('B', d, 'raw56', ['a', 'b', 'c', 's', 'd', 'e', 'f'])
d = 'Clone, Copy, Debug, Default, PartialEq, PartialOrd'
struct('F', 16, d, 'x: f32, y: f64')
compare_obs('F', d)
make_obs('F', d, 'raw16', 'xy')
d = 'Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash'
enum('E8', 1, 'u8', 'PartialEq, Eq, PartialOrd, Ord, Hash, Debug', 'A = 3, B = 0, C = 200')
enum('Ei', 1, 'i8', 'PartialOrd, PartialEq, Ord, Eq, Hash, Debug, Clone, Copy', 'A = -3, B = 0, C = 100')
enum('E32', 4, 'i32', 'Debug, PartialOrd', 'A = -3, B')
enum('E64', 8, 'u64', 'Hash, Debug, Ord, PartialOrd', 'A, B = 0xffffffffffffffff')
enum('E0', 1, 'u8', '', 'A, B')
d = 'PartialEq, Eq, PartialOrd, Ord, Hash'
struct('N', 32, d, 'p: SK5, e: E8')
compare_obs('N', d)
struct('Ns', 24, 'PartialEq, Eq, PartialOrd, Ord, Hash, Debug', ABC, attrs='#[namespace = "other::ns"] #[cxx_name = "Renamed"]', cxx='other::ns::Renamed')
compare_obs('Ns', 'PartialEq, Eq, PartialOrd, Ord, Hash')
make_obs('Ns', 'Debug', 'raw24', 'abc')
struct('One', 8, 'PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Debug', 'a: K')
compare_obs('One', 'PartialEq, Eq, PartialOrd, Ord, Hash')
make_obs('One', 'Clone, Debug', 'raw8', 'a')
struct('r#type', 16, 'PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Debug', 'r#fn: K, r#where: K', cxx='dr::type')
compare_obs('r#type', 'PartialEq, Eq, PartialOrd, Ord, Hash')
make_obs('r#type', 'Clone, Debug', 'raw16', ['r#fn', 'r#where'], shown='type')
struct('L', 24, 'PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Debug', "a: &'a K, b: &'a K, c: K", life="<'a>")
compare_obs('L', 'PartialEq, Eq, PartialOrd, Ord, Hash')
make_obs('L', 'Clone, Debug', 'raw24', 'abc')
struct('Ar', 16, 'PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Debug', 'x: [K; 2]')
compare_obs('Ar', 'PartialEq, Eq, PartialOrd, Ord, Hash')
make_obs('Ar', 'Clone, Debug', 'raw16', 'x')

# enums
for n, repr_, derives in ('E8', 'u8', 'PartialOrd Ord Hash Debug'), ('Ei', 'i8', 'PartialOrd Ord Hash Debug'), ('E32', 'i32', 'PartialOrd Debug'), ('E64', 'u64', 'PartialOrd Ord Hash Debug'), ('E0', 'u8', ''):
    compare_obs(n, 'PartialEq, ' + ', '.join(derives.split()), hashed=False)
    ob(P, n + ': copy and clone', 'o:raw%d a:obj<ffi::%s>' % (TYPES['ffi::' + n][1] * 2, n), 'void', 'r: let o = o as *mut ffi::%s; o.write(*a); o.add(1).write((*a).clone())' % n,
       'r: let o = o as *mut M%s; let a = a as *const M%s; o.write(a.read()); o.add(1).write(a.read())' % (n, n))
    if 'Debug' in derives:
        vs = {'E8': 'A B C', 'Ei': 'A B C', 'E32': 'A B', 'E64': 'A B'}[n].split()
        ob(P, n + ': Debug', 'a:obj<ffi::%s> f:ptr' % n, 'bool', 'r: core::fmt::Debug::fmt(&*a, &mut *(f as *mut core::fmt::Formatter)).is_ok()',
           'r: let f = &mut *(f as *mut core::fmt::Formatter); match *a { %s _ => write!(f, "%s({})", (*a).repr) }.is_ok()' % (' '.join('ffi::%s::%s => f.write_str("%s"),' % (n, v, v) for v in vs), n))

# what a hash is taken of, and only that
ob(P, 'hash: what is fed to the hasher decides', 'a:obj<ffi::All>', 'usize', 'r: cxx::private::hash(&*a)', 'r: cxx::private::hash(&Feed((*a).a.id(), (*a).b.id(), (*a).c.id()))')
ob(P, 'hash: not the address', 'a:obj<ffi::All>', 'usize', 'r: cxx::private::hash(&*a)', 'r: let x = core::mem::ManuallyDrop::new(a.read()); cxx::private::hash(&*x)')
rtobs.CUR = 'rt'
rtobs.TYPE_BOOLS.update(BOOLS)

RSRC = r'''
#![allow(warnings)]
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
#[cxx::bridge(namespace = "dr")]
pub mod ffi {
''' + BR + r'''
    unsafe extern "C++" {
        include!("rt.h");
        type K = crate::K;
        type Q = crate::Q;
        type J = crate::J;
    }
}
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
extern "C" {
    fn k_rel(a: *const K, b: *const K) -> i8; fn q_rel(a: *const Q, b: *const Q) -> i8; fn k_id(a: *const u64) -> u64; fn k_mix(s: u64, x: u64) -> u64; fn k_mixb(s: u64, p: *const u8, n: usize) -> u64;
    fn k_clone(a: *const u64) -> u64; fn k_default() -> u64; fn k_fmt(a: *const u64, f: *mut core::fmt::Formatter) -> bool;
}
#[repr(C)] pub struct K(u64);
#[repr(C)] pub struct Q(u64);
#[repr(C)] #[derive(Clone, Copy)] pub struct J(u64);
unsafe impl cxx::ExternType for K { type Id = cxx::type_id!("dr::K"); type Kind = cxx::kind::Trivial; }
unsafe impl cxx::ExternType for Q { type Id = cxx::type_id!("dr::Q"); type Kind = cxx::kind::Trivial; }
unsafe impl cxx::ExternType for J { type Id = cxx::type_id!("dr::J"); type Kind = cxx::kind::Trivial; }
impl K { pub fn id(&self) -> u64 { unsafe { k_id(&self.0) } } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { unsafe { k_rel(self, o) == 0 } } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { match unsafe { k_rel(self, o) } { 0 => Ordering::Equal, 1 => Ordering::Greater, _ => Ordering::Less } } }
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.id()) } }
impl Clone for K { fn clone(&self) -> K { unsafe { K(k_clone(&self.0)) } } }
impl Default for K { fn default() -> K { unsafe { K(k_default()) } } }
impl core::fmt::Debug for K { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { if unsafe { k_fmt(&self.0, f) } { Ok(()) } else { Err(core::fmt::Error) } } }
impl PartialEq for Q { fn eq(&self, o: &Q) -> bool { unsafe { q_rel(self, o) == 0 } } }
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<Ordering> { match unsafe { q_rel(self, o) } { 0 => Some(Ordering::Equal), 1 => Some(Ordering::Greater), -1 => Some(Ordering::Less), _ => None } } }
impl Eq for Q {}
impl PartialEq for J { fn eq(&self, o: &J) -> bool { unsafe { k_rel(self as *const J as *const K, o as *const J as *const K) == 0 } } }
impl core::fmt::Debug for J { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { if unsafe { k_fmt(&self.0, f) } { Ok(()) } else { Err(core::fmt::Error) } } }
pub struct Feed(u64, u64, u64);
impl Hash for Feed { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.0); h.write_u64(self.1); h.write_u64(self.2) } }
pub struct Hs(u64);
impl Hasher for Hs {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { self.0 = unsafe { k_mixb(self.0, b.as_ptr(), b.len()) } }
    fn write_u64(&mut self, x: u64) { self.0 = unsafe { k_mix(self.0, x) } }
    fn write_u32(&mut self, x: u32) { self.0 = unsafe { k_mix(k_mix(self.0, 32), x as u64) } }
    fn write_u16(&mut self, x: u16) { self.0 = unsafe { k_mix(k_mix(self.0, 16), x as u64) } }
    fn write_u8(&mut self, x: u8) { self.0 = unsafe { k_mix(k_mix(self.0, 8), x as u64) } }
    fn write_usize(&mut self, x: usize) { self.0 = unsafe { k_mix(k_mix(self.0, 65), x as u64) } }
}
pub fn hash_of<T: Hash>(x: &T) -> usize { let mut h = Hs(0); x.hash(&mut h); h.finish() as usize }
pub use ffi::{E8, SK5};
mod mirrors { use super::{K, Q, J};
''' + MR.replace('p: SK5, e: E8', 'p: MSK5, e: ME8') .replace('{ ', '{ pub ', 1) + '''
}
pub use mirrors::*;
'''
HDR = rtobs.H.replace('namespace rt', 'namespace dr').split('namespace dr')[0] + r'''
namespace dr {
struct K { K(const K &); K(K &&) noexcept; ~K(); using IsRelocatable = std::true_type; std::uint64_t x; };
struct Q { Q(const Q &); Q(Q &&) noexcept; ~Q(); using IsRelocatable = std::true_type; std::uint64_t x; };
struct J { std::uint64_t x; };
}
'''
SRC = rtobs.CC
rtobs.WITNESS['dr'] = (RSRC, HDR, SRC)
