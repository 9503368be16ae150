"""Traits that pointers to C++ values pass on to their targets."""
import rtobs
from rtobs import ob

P = 'C30'
rtobs.CUR = 'pt'
RELS = ('==', '!=', '<', '<=', '>', '>=')
NULLS = {'==': ('true', 'false', 'false'), '!=': ('false', 'true', 'true'), '<': ('false', 'true', 'false'), '<=': ('true', 'true', 'false'), '>': ('false', 'false', 'true'), '>=': ('true', 'false', 'true')}
ORD = '{ core::cmp::Ordering::Less => -1, core::cmp::Ordering::Equal => 0, core::cmp::Ordering::Greater => 1 }'
PORD = '{ Some(core::cmp::Ordering::Less) => -1, Some(core::cmp::Ordering::Equal) => 0, Some(core::cmp::Ordering::Greater) => 1, None => 2 }'


def by_null(t, both, vals):
    """Null is equal to null and less than everything else."""
    return ('r: let (x, y) = (*(a as *const *const %s), *(b as *const *const %s)); ' % (t, t)
            + 'match (x.is_null(), y.is_null()) { (true, true) => %s, (true, false) => %s, (false, true) => %s, _ => { let (x, y) = (&*x, &*y); %s } }' % (vals + (both,)))


for cls, k in ('UniquePtr', 'UP'), ('SharedPtr', 'SP'):
    for t in ('ffi::C', 'ffi::Q', 'ffi::T') + (('i32', 'f64') if k == 'SP' else ()):
        N, K = '%s<%s>' % (cls, t), '%s<%s>' % (k, t)
        for op in RELS:
            ob(P, '%s %s' % (N, op), 'a:%s b:%s' % (K, K), 'bool', 'r: *a %s *b' % op, by_null(t, 'x %s y' % op, NULLS[op]))
            ob(P, '%s %s itself' % (N, op), 'a:%s b:=a' % K, 'bool', 'r: *a %s *b' % op, by_null(t, 'x %s y' % op, NULLS[op]))
        ob(P, N + ': partial_cmp', 'a:%s b:%s' % (K, K), 'i8', 'r: match (*a).partial_cmp(&*b) ' + PORD, by_null(t, 'match x.partial_cmp(y) ' + PORD, ('0', '-1', '1')))
        if t in ('ffi::C', 'ffi::T', 'i32'):
            ob(P, N + ': cmp', 'a:%s b:%s' % (K, K), 'i8', 'r: match (*a).cmp(&*b) ' + ORD, by_null(t, 'match x.cmp(y) ' + ORD, ('0', '-1', '1')))
            ob(P, N + ': hash', 'a:' + K, 'void', 'r: use std::hash::Hash; (*a).hash(&mut Hsh)', 'r: use std::hash::Hash; let x = *(a as *const *const %s); let o: Option<&%s> = if x.is_null() { None } else { Some(&*x) }; o.hash(&mut Hsh)' % (t, t))
    # as a target of its own
NULL = 'let q = *(p as *const *mut ffi::C); if q.is_null() { panic!() } let mut x = core::pin::Pin::new_unchecked(&mut *q); '


def forward(what, params, ty, call, cfg=None):
    ob(P, 'UniquePtr: ' + what, 'o:raw24 p:UP<ffi::C>' + params, 'void', 'r: use std::io::{Read, Seek, Write}; let x = &mut *p; (o as *mut std::io::Result<%s>).write(x.%s)' % (ty, call),
       'r: use std::io::{Read, Seek, Write}; %s(o as *mut std::io::Result<%s>).write(x.%s)' % (NULL, ty, call))


B = '&mut *core::ptr::slice_from_raw_parts_mut(b as *mut u8, n)'
forward('read', ' b:ptr n:usize', 'usize', 'read(%s)' % B)
forward('read_to_end', ' b:ptr', 'usize', 'read_to_end(&mut *(b as *mut Vec<u8>))')
forward('read_to_string', ' b:ptr', 'usize', 'read_to_string(&mut *(b as *mut String))')
forward('read_exact', ' b:ptr n:usize', '()', 'read_exact(%s)' % B)
for v, ty in ('Start', 'u64'), ('End', 'i64'), ('Current', 'i64'):
    forward('seek from ' + v, ' n:usize', 'u64', 'seek(std::io::SeekFrom::%s(n as %s))' % (v, ty))
forward('rewind', '', '()', 'rewind()')
forward('stream_position', '', 'u64', 'stream_position()')
forward('seek_relative', ' n:isize', '()', 'seek_relative(n as i64)')
C = '&*core::ptr::slice_from_raw_parts(b as *const u8, n)'
forward('write', ' b:ptr n:usize', 'usize', 'write(%s)' % C)
forward('write_vectored', ' b:ptr n:usize', 'usize', 'write_vectored(&*core::ptr::slice_from_raw_parts(b as *const std::io::IoSlice, n))')
forward('flush', '', '()', 'flush()')
forward('write_all', ' b:ptr n:usize', '()', 'write_all(%s)' % C)
forward('write_fmt', ' b:ptr', '()', 'write_fmt((b as *const core::fmt::Arguments).read())')

# a C++ string as a target of writing
S = 'c: s->append((const char *)r_str_data(t), r_str_len(t)); return true;'
ob(P, 'CxxString: fmt::Write::write_str', 's:std t:Str', 'bool', 'r: use std::fmt::Write; let mut p = core::pin::Pin::new_unchecked(&mut *s); p.write_str(*t).is_ok()', S)
ob(P, 'CxxString: io::Write::write', 's:std t:Slice<u8>', 'usize', 'r: use std::io::Write; let mut p = core::pin::Pin::new_unchecked(&mut *s); p.write(*t).unwrap_or(usize::MAX)', 'c: s->append(r_slice_data(t), r_slice_len(t)); return r_slice_len(t);')
ob(P, 'CxxString: io::Write::flush', 's:std', 'bool', 'r: use std::io::Write; let mut p = core::pin::Pin::new_unchecked(&mut *s); p.flush().is_ok()', 'c: return true;')
rtobs.CUR = 'rt'
rtobs.TYPES['ffi::Q'] = ('pt::Q', 8)
rtobs.TYPES['ffi::T'] = ('pt::T', 8)

IMPLS = '''
impl PartialEq for ffi::C { fn eq(&self, o: &Self) -> bool { unsafe { k_rel(at(self), at(o)) == 0 } } }
impl Eq for ffi::C {}
impl PartialOrd for ffi::C { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for ffi::C { fn cmp(&self, o: &Self) -> Ordering { match unsafe { k_rel(at(self), at(o)) } { 0 => Ordering::Equal, 1 => Ordering::Greater, _ => Ordering::Less } } }
impl Hash for ffi::C { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(unsafe { k_id(at(self)) }) } }
'''
RSRC = r'''
#![allow(warnings)]
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
#[cxx::bridge(namespace = "pt")]
pub mod ffi {
    unsafe extern "C++" {
        include!("rt.h");
        type C;
        type Q;
        type T = crate::T;
        fn inst2(a: UniquePtr<C>, b: SharedPtr<C>, c: UniquePtr<Q>, d: SharedPtr<Q>, e: UniquePtr<T>, f: SharedPtr<T>);
    }
    impl UniquePtr<T> {}
    impl SharedPtr<T> {}
}
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use core::pin::Pin;
use std::io;
extern "C" {
    fn k_rel(a: *const u64, b: *const u64) -> i8; fn q_rel(a: *const u64, b: *const u64) -> i8; fn k_id(a: *const u64) -> u64;
    fn visit(p: *const u8); fn look(p: *const u8); fn look_n(n: usize); fn user() -> bool; fn more() -> usize;
}
#[repr(C)] pub struct T(u64);
unsafe impl cxx::ExternType for T { type Id = cxx::type_id!("pt::T"); type Kind = cxx::kind::Trivial; }
fn at<X>(x: &X) -> *const u64 { x as *const X as *const u64 }
''' + IMPLS + IMPLS.replace('ffi::C', 'T') + r'''
impl PartialEq for ffi::Q { fn eq(&self, o: &Self) -> bool { unsafe { q_rel(at(self), at(o)) == 0 } } }
impl PartialOrd for ffi::Q { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { match unsafe { q_rel(at(self), at(o)) } { 0 => Some(Ordering::Equal), 1 => Some(Ordering::Greater), -1 => Some(Ordering::Less), _ => None } } }
pub struct Hsh;
impl Hasher for Hsh { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { unsafe { look(b.as_ptr()); look_n(b.len()) } } fn write_u64(&mut self, x: u64) { unsafe { look_n(64); look_n(x as usize) } } fn write_isize(&mut self, x: isize) { unsafe { look_n(65); look_n(x as usize) } } fn write_i32(&mut self, x: i32) { unsafe { look_n(32); look_n(x as usize) } } }
impl<'a> Pin<&'a mut ffi::C> where Self: Sized {}
unsafe fn done<X>(k: usize, c: *const u8, a: *const u8, n: usize, f: fn(usize) -> X) -> io::Result<X> { look_n(k); look(c); look(a); look_n(n); if user() { Ok(f(more())) } else { Err(io::Error::from_raw_os_error(3)) } }
macro_rules! op { ($k:expr, $s:expr, $a:expr, $n:expr, $f:expr) => { unsafe { done($k, &**$s as *const ffi::C as *const u8, $a as *const u8, $n as usize, $f) } } }
fn one(n: usize) -> usize { n }
fn long(n: usize) -> u64 { n as u64 }
fn unit(_: usize) {}
impl<'a> io::Read for Pin<&'a mut ffi::C> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { op!(1, self, b.as_ptr(), b.len(), one) }
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> io::Result<usize> { op!(2, self, b as *mut Vec<u8>, 0, one) }
    fn read_to_string(&mut self, b: &mut String) -> io::Result<usize> { op!(3, self, b as *mut String, 0, one) }
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> { op!(4, self, b.as_ptr(), b.len(), unit) }
}
impl<'a> io::Seek for Pin<&'a mut ffi::C> {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> { let (k, n) = match p { io::SeekFrom::Start(n) => (5, n as usize), io::SeekFrom::End(n) => (6, n as usize), io::SeekFrom::Current(n) => (7, n as usize) }; op!(k, self, 0 as *const u8, n, long) }
    fn rewind(&mut self) -> io::Result<()> { op!(8, self, 0 as *const u8, 0, unit) }
    fn stream_position(&mut self) -> io::Result<u64> { op!(9, self, 0 as *const u8, 0, long) }
    fn seek_relative(&mut self, n: i64) -> io::Result<()> { op!(10, self, 0 as *const u8, n, unit) }
}
impl<'a> io::Write for Pin<&'a mut ffi::C> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { op!(11, self, b.as_ptr(), b.len(), one) }
    fn write_vectored(&mut self, b: &[io::IoSlice]) -> io::Result<usize> { op!(12, self, b.as_ptr(), b.len(), one) }
    fn flush(&mut self) -> io::Result<()> { op!(13, self, 0 as *const u8, 0, unit) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { op!(14, self, b.as_ptr(), b.len(), unit) }
    fn write_fmt(&mut self, a: std::fmt::Arguments) -> io::Result<()> { let w: [*const u8; 3] = unsafe { (&a as *const _ as *const [*const u8; 3]).read() }; unsafe { look(w[0]); look(w[1]); look(w[2]) } op!(15, self, 0 as *const u8, 0, unit) }
}
#[no_mangle] pub unsafe extern "C" fn r_str_len(s: *const &str) -> usize { (*s).len() }
#[no_mangle] pub unsafe extern "C" fn r_str_data(s: *const &str) -> *const u8 { (*s).as_ptr() }
#[no_mangle] pub unsafe extern "C" fn r_slice_len(s: *const &[u8]) -> usize { (*s).len() }
#[no_mangle] pub unsafe extern "C" fn r_slice_data(s: *const &[u8]) -> *const u8 { (*s).as_ptr() }
'''.replace("impl<'a> Pin<&'a mut ffi::C> where Self: Sized {}\n", '')
H = r'''
#pragma once
#include "rust/cxx.h"
#include <memory>
#include <string>
namespace pt {
struct C { C(const C &); ~C(); std::uint64_t x; };
struct Q { Q(const Q &); ~Q(); std::uint64_t x; };
struct T { T(const T &); T(T &&) noexcept; ~T(); using IsRelocatable = std::true_type; std::uint64_t x; };
void inst2(std::unique_ptr<C> a, std::shared_ptr<C> b, std::unique_ptr<Q> c, std::shared_ptr<Q> d, std::unique_ptr<T> e, std::shared_ptr<T> f);
}
'''
CC = r'''
#include "rt.h"
#include "rtb.rs.h"
extern "C" { std::size_t r_str_len(const void *); const char *r_str_data(const void *); std::size_t r_slice_len(const void *); const char *r_slice_data(const void *); }
'''
rtobs.WITNESS['pt'] = (RSRC, H, CC)
