"""Witness programs: marker traits (C24)."""
import re

from rows import pair, row, user

# ------------------------------------------------------------------ C24
# Types by what may be done with them: (how it is written, Send, Sync, Unpin, UnwindSafe, RefUnwindSafe)
B24 = '''
struct SS { a: u8 }
struct Sn { r: Box<Rn> }
struct Sy { r: Box<Ry> }
struct So { r: Box<Ro> }
struct Sl<'a> { r: &'a mut u8 }
struct Sc { r: Box<Rn> }
struct Su { r: UniquePtr<C> }
struct Sh { r: SharedPtr<CxxString> }
enum E { A }
extern "Rust" { type Rn; type Ry; type Ro; }
unsafe extern "C++" { %I type C; type Cs; type Cy; type Cb; type L<'a>; }
'''
R24 = '''
pub struct Rn(core::cell::Cell<u8>);
pub struct Ry(core::marker::PhantomData<std::sync::MutexGuard<'static, u8>>);
pub struct Ro(std::rc::Rc<u8>);
unsafe impl Send for ffi::Cs {}
unsafe impl Sync for ffi::Cy {}
unsafe impl Send for ffi::Cb {} unsafe impl Sync for ffi::Cb {}
pub fn ck<T: %B + ?Sized>() {}
pub fn x() { %C }
'''
H24 = 'struct C { C(const C &); ~C(); }; struct Cs : C {}; struct Cy : C {}; struct Cb : C {}; struct L {};'
TARGETS = {  # Send, Sync
    'ffi::SS': (1, 1), 'ffi::Sn': (1, 0), 'ffi::Sy': (0, 1), 'ffi::So': (0, 0), 'ffi::C': (0, 0), 'ffi::Cs': (1, 0), 'ffi::Cy': (0, 1), 'ffi::Cb': (1, 1),
    'u8': (1, 1), 'f64': (1, 1), 'CxxString': (1, 1),
}
FACTS = []      # (type, trait, holds)


def fact(ty, **kw):
    for tr, v in kw.items():
        FACTS.append((ty, tr, bool(v)))


for t, (sd, sy) in TARGETS.items():
    fact(t, Send=sd, Sync=sy)
    if t not in ('f64', 'u8'):
        fact('UniquePtr<%s>' % t, Send=sd, Sync=sy, Unpin=1)
        fact('UniquePtr<CxxVector<%s>>' % t, Send=sd, Sync=sy, Unpin=1)
    if t not in ('f64', 'u8') or 1:
        fact('CxxVector<%s>' % t, Send=sd, Sync=sy, Unpin=0)
        fact('cxx::vector::Iter<\'static, %s>' % t, Send=sy, Sync=sy, Unpin=1)
        fact('cxx::vector::IterMut<\'static, %s>' % t, Send=sd, Sync=sy, Unpin=1)
        fact('&\'static CxxVector<%s>' % t, Send=sy, Sync=sy)
        fact('SharedPtr<%s>' % t, Send=sd and sy, Sync=sd and sy, Unpin=1)
        fact('WeakPtr<%s>' % t, Send=sd and sy, Sync=sd and sy, **({} if t.startswith('ffi::C') or t == 'CxxString' else {'Unpin': 1}))
    fact('&\'static %s' % t, Send=sy, Sync=sy)
    fact('Pin<&\'static mut %s>' % t, Send=sd, Sync=sy, Unpin=1)
for t in 'ffi::C', 'ffi::Cs', 'ffi::Cy', 'ffi::Cb', 'ffi::L<\'static>', 'CxxString':
    fact(t, Unpin=0)
for t in 'ffi::C', 'ffi::Cs', 'CxxString', 'CxxVector<u8>', 'CxxVector<CxxString>', 'UniquePtr<ffi::C>', 'UniquePtr<CxxString>', 'CxxVector<ffi::C>', 'cxx::Exception', 'ffi::SS', 'ffi::E':
    FACTS.append((t, 'core::panic::UnwindSafe', True))
    FACTS.append((t, 'core::panic::RefUnwindSafe', True))
for t, u, ru in ('ffi::Sl<\'static>', 0, 1), ('ffi::Sc', 1, 0):
    for w in t, 'CxxVector<%s>' % t:
        FACTS.append((w, 'core::panic::UnwindSafe', bool(u)))
        FACTS.append((w, 'core::panic::RefUnwindSafe', bool(ru)))
fact('ffi::L<\'static>', Send=0, Sync=0)
fact('cxx::Exception', Send=1, Sync=1, Unpin=1)
fact('ffi::E', Send=1, Sync=1, Unpin=1)
fact('ffi::SS', Unpin=1)
fact('ffi::Su', Send=0, Sync=0, Unpin=1)
fact('ffi::Sh', Send=1, Sync=1, Unpin=1)
for t, sd, sy in ('Box<Rn>', 1, 0), ('Vec<Ry>', 0, 1), ('Vec<ffi::Sn>', 1, 0):
    pass
for nv in 'cxx::kind::Opaque', 'cxx::kind::Trivial':
    fact(nv, Send=1, Sync=1)
for t in 'cxx::private::RustString', 'cxx::private::RustStr', 'cxx::private::RustSlice':
    pass
seen = set()
for t, tr, v in FACTS:
    if (t, tr) in seen:
        continue
    seen.add((t, tr))
    sh = tr.split('::')[-1]
    imp = ''.join('impl %s<%s> {} ' % m for m in sorted(set(re.findall(r'(UniquePtr|SharedPtr|WeakPtr|CxxVector)<ffi::(\w+)>', t))))
    if 'Weak' in imp:
        imp += imp.replace('WeakPtr', 'SharedPtr')
    if 'vector' in t and 'ffi::' in t:
        imp += 'impl CxxVector<%s> {}' % re.search(r'ffi::(\w+)', t).group(1)
    row('C24', '%s is %s%s' % (t, '' if v else 'not ', sh), 'ok' if v else 'rust:E0277', B24 + imp, R24.replace('%B', tr).replace('%C', 'ck::<%s>();' % t), hdr=H24)

# what the user may not change, and what the bridge itself demands
pair('C24', 'opaque type made Unpin by hand', 'rust:*', ('unsafe extern "C++" { %I type C; }', 'impl Unpin for ffi::C {}'), ('unsafe extern "C++" { %I type C; }', 'unsafe impl Send for ffi::C {}'), hdr=H24)
pair('C24', 'opaque type with lifetime made Unpin by hand', 'rust:*', ('unsafe extern "C++" { %I type L<\'a>; }', 'impl<\'a> Unpin for ffi::L<\'a> {}'), ('unsafe extern "C++" { %I type L<\'a>; }', 'unsafe impl<\'a> Send for ffi::L<\'a> {}'), hdr=H24)
pair('C24', 'opaque Rust type that is not Unpin', 'rust:E0277', ('extern "Rust" { type R; }', 'pub struct R(core::marker::PhantomPinned);'), ('extern "Rust" { type R; }', 'pub struct R(core::marker::PhantomData<u8>);'))
pair('C24', 'opaque Rust type with a lifetime that is not Unpin', 'rust:E0277', ('extern "Rust" { type R<\'a>; }', 'pub struct R<\'a>(core::marker::PhantomPinned, &\'a u8);'), ('extern "Rust" { type R<\'a>; }', 'pub struct R<\'a>(&\'a u8);'))
pair('C24', 'opaque Rust type that is not Sized', 'rust:E0277', ('extern "Rust" { type R; }', 'pub struct R([u8]);'), ('extern "Rust" { type R; }', 'pub struct R([u8; 1]);'))
pair('C24', 'UniquePtr::DerefMut only if Unpin', 'rust:E0596|E0594|E0277', ('unsafe extern "C++" { %I type C; } impl UniquePtr<C> {}', 'pub fn x(p: &mut UniquePtr<ffi::C>) { let _: &mut ffi::C = &mut **p; }'),
     ('struct C { a: u8 } impl UniquePtr<C> {}', 'pub fn x(p: &mut UniquePtr<ffi::C>) { let _: &mut ffi::C = &mut **p; }'), hdr=H24)
row('C24', 'a reference to opaque object may cross an await', 'ok', 'unsafe extern "C++" { %I type C; fn f(c: &C); }', 'pub async fn g(_: &CxxString) {} pub fn x() { let f = async { cxx::let_cxx_string!(s = "x"); g(&s).await; }; fn a(_: impl Send) {} a(f); }',
    hdr='struct C {}; void f(const C &);')
