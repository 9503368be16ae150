"""The witness programs of C08-C11 and others (see rows.py)."""
from rows import pair, row, user

S = 'struct S { a: u8 }'
FT = '#[namespace = "found"] type T = crate::found::T;'
FO = '#[namespace = "found"] type O = crate::found::O;'

# ------------------------------------------------------------------ C08
B8 = 'unsafe extern "C++" { %I type C; fn f() -> UniquePtr<C>; fn g(c: Pin<&mut C>); fn r(c: &C); fn v(x: Pin<&mut CxxVector<C>>); fn t(x: Pin<&mut CxxString>); }'
H8 = '''struct C { C(); C(const C &); ~C(); int v; };
std::unique_ptr<C> f(); void g(C &); void r(const C &); void v(std::vector<C> &); void t(std::string &);'''


def u8(name, code, bad, good):
    user('C08', name, code, bad, good, B8, hdr='\n}\n#include <memory>\n#include <string>\n#include <vector>\nnamespace %N {\n' + H8)


for ty, nm in ('ffi::C', 'opaque'), ('CxxString', 'CxxString'), ('CxxVector<u8>', 'CxxVector'), ('CxxVector<ffi::C>', 'CxxVector of opaque'):
    u8(nm + ': swap through pins', 'E0277|E0596|E0594|E0599', 'pub fn x(a: Pin<&mut %s>, b: Pin<&mut %s>) { core::mem::swap(a.get_mut(), b.get_mut()) }' % (ty, ty),
       'pub fn x(a: Pin<&mut u8>, b: Pin<&mut u8>) { core::mem::swap(a.get_mut(), b.get_mut()) }')
    u8(nm + ': &mut out of a pin by DerefMut', 'E0594|E0596|E0277', 'pub fn x(mut a: Pin<&mut %s>) { let _: &mut %s = &mut *a; }' % (ty, ty),
       'pub fn x(mut a: Pin<&mut %s>) { let _: &%s = &*a; }' % (ty, ty))
    u8(nm + ': Pin::new of &mut', 'E0277', 'pub fn x(a: &mut %s) { let _ = Pin::new(a); }' % ty, 'pub fn x(a: &mut u8) { let _ = Pin::new(a); }')
    u8(nm + ': Pin::into_inner', 'E0277', 'pub fn x(a: Pin<&mut %s>) { let _ = Pin::into_inner(a); }' % ty, 'pub fn x(a: Pin<&mut u8>) { let _ = Pin::into_inner(a); }')
    u8(nm + ': Pin::set', 'E0277|E0308|E0507|E0599', 'pub fn x(mut a: Pin<&mut %s>, b: &%s) { a.set(*b); }' % (ty, ty), 'pub fn x(mut a: Pin<&mut u8>, b: &u8) { a.set(*b); }')
    u8(nm + ': moved out of a reference', 'E0507', 'pub fn x(a: &%s) { let _b = *a; }' % ty, 'pub fn x(a: &%s) { let _b = &*a; }' % ty)
    u8(nm + ': cloned', 'E0507|E0599|E0308', 'pub fn x(a: &%s) { fn y<T: Clone>(t: &T) -> T { t.clone() } let _ = y::<%s>(a); }' % (ty, ty) if 0 else 'pub fn x(a: &%s) -> %s { a.clone() }' % (ty, ty),
       'pub fn x(a: &%s) -> &%s { a.clone() }' % (ty, ty))
    u8(nm + ': has no Default', 'E0277|E0599', 'pub fn x() { let _: %s = Default::default(); }' % ty, 'pub fn x() { let _: UniquePtr<CxxString> = UniquePtr::null(); }')
    u8(nm + ': not Unpin', 'E0277', 'fn n<T: Unpin>() {} pub fn x() { n::<%s>() }' % ty, 'fn n<T>() {} pub fn x() { n::<%s>() }' % ty)
    u8(nm + ': in a Box by move', 'E0507', 'pub fn x(a: &%s) { let _ = Box::new(*a); }' % ty, 'pub fn x(a: &%s) { let _ = Box::new(a); }' % ty)
    u8(nm + ': read with ptr::read needs unsafe', 'E0133', 'pub fn x(a: &%s) { let _ = core::ptr::read(a); }' % ty, 'pub fn x(a: &%s) { let _ = unsafe { core::ptr::read(a) }; }' % ty)
    u8(nm + ': get_unchecked_mut needs unsafe', 'E0133', 'pub fn x(a: Pin<&mut %s>) { let _ = a.get_unchecked_mut(); }' % ty, 'pub fn x(a: Pin<&mut %s>) { let _ = unsafe { a.get_unchecked_mut() }; }' % ty)
for ty, nm in ('ffi::C', 'opaque'), ('CxxString', 'CxxString'), ('CxxVector<ffi::C>', 'CxxVector of opaque'):
    for tr in 'Send', 'Sync':
        # CxxString: documented Send? decided below by the library's own statement
        if ty == 'CxxString':
            continue
        u8('%s: not %s' % (nm, tr), 'E0277', 'fn n<T: %s>() {} pub fn x() { n::<%s>() }' % (tr, ty), 'fn n<T>() {} pub fn x() { n::<%s>() }' % ty)
for w in 'UniquePtr<ffi::C>', '&ffi::C', 'Pin<&mut ffi::C>', 'SharedPtr<ffi::C>', 'UniquePtr<CxxVector<ffi::C>>', 'Vec<UniquePtr<ffi::C>>', 'Option<&ffi::C>':
    for tr in 'Send', 'Sync':
        z = {'SharedPtr<ffi::C>': 'SharedPtr<u8>'}.get(w, w)
        imp = 'unsafe extern "C++" { type D; } impl SharedPtr<C> {}'
        user('C08', '%s: not %s' % (w, tr), 'E0277', 'fn n<T: %s>() {} pub fn x() { n::<%s>() }' % (tr, w), 'fn n<T>() {} pub fn x() { n::<%s>() }' % w,
             'unsafe extern "C++" { %I type C; } impl SharedPtr<C> {} impl UniquePtr<C> {} impl CxxVector<C> {}')
for bad, code in (('ffi::C {}', 'E0063|E0451|macro'), ('ffi::C { _private: Default::default() }', 'E0451|E0560|E0616|E0277'), ('ffi::C(0)', 'E0423|E0618|E0425'), ('ffi::C', 'E0423'),
                  ('ffi::C::new()', 'E0599')):
    u8('opaque constructed as %s' % bad, code, 'pub fn x() { let _ = %s; }' % bad, 'pub fn x() { let _ = ffi::f(); }')
u8('CxxString constructed', 'E0451|E0063|macro', 'pub fn x() { let _ = CxxString {}; }', 'pub fn x() { cxx::let_cxx_string!(s = "x"); }')
u8('CxxString::new', 'E0283|E0277|E0433', 'pub fn x() { let _ = CxxString::new(); }', 'pub fn x() { cxx::let_cxx_string!(s = "x"); }')
u8('CxxVector::new is behind a pointer', 'E0308', 'pub fn x() { let _: CxxVector<u8> = CxxVector::new(); }', 'pub fn x() { let _: UniquePtr<CxxVector<u8>> = CxxVector::new(); }')
u8('let_cxx_string gives a pin', 'E0308', 'pub fn x() { cxx::let_cxx_string!(s = "x"); let _: &mut CxxString = s; }', 'pub fn x() { cxx::let_cxx_string!(s = "x"); let _: Pin<&mut CxxString> = s; }')
u8('let_cxx_string does not outlive its scope', 'E0597|E0515|E0716', 'pub fn x<\'a>() -> Pin<&\'a mut CxxString> { cxx::let_cxx_string!(s = "x"); s }', 'pub fn x() { cxx::let_cxx_string!(s = "x"); let _ = s; }')
u8('destructured', 'E0026|E0451|E0027|E0638', 'pub fn x(c: &ffi::C) { let ffi::C { a } = c; }', 'pub fn x(c: &ffi::C) { let ffi::C { .. } = c; }')
u8('UniquePtr::new of an opaque type', 'E0271|E0277', 'pub fn x(c: &ffi::C) { let _ = UniquePtr::<ffi::C>::new(unsafe { core::ptr::read(c) }); }', 'pub fn x() { let _ = UniquePtr::<ffi::C>::null(); }')
u8('UniquePtr of opaque has no DerefMut', 'E0277|E0596|E0594', 'pub fn x(mut p: UniquePtr<ffi::C>) { let _: &mut ffi::C = &mut *p; }', 'pub fn x(mut p: UniquePtr<ffi::C>) { let _: Pin<&mut ffi::C> = p.pin_mut(); }')
u8('UniquePtr::as_mut of opaque is pinned', 'E0308', 'pub fn x(mut p: UniquePtr<ffi::C>) { let _: Option<&mut ffi::C> = p.as_mut(); }', 'pub fn x(mut p: UniquePtr<ffi::C>) { let _: Option<Pin<&mut ffi::C>> = p.as_mut(); }')
u8('UniquePtr::into_raw then deref needs unsafe', 'E0133', 'pub fn x(p: UniquePtr<ffi::C>) { let _ = &*p.into_raw(); }', 'pub fn x(p: UniquePtr<ffi::C>) { let _ = unsafe { &*p.into_raw() }; }')
u8('UniquePtr::from_raw needs unsafe', 'E0133', 'pub fn x(p: *mut ffi::C) { let _ = UniquePtr::from_raw(p); }', 'pub fn x(p: *mut ffi::C) { let _ = unsafe { UniquePtr::from_raw(p) }; }')
u8('UniquePtr is not Clone', 'E0599', 'pub fn x(p: UniquePtr<ffi::C>) { let _ = p.clone(); }', 'pub fn x(p: UniquePtr<ffi::C>) { let _ = p; }')
u8('CxxVector element of opaque mutable only pinned', 'E0308', 'pub fn x(p: Pin<&mut CxxVector<ffi::C>>) { let _: Option<&mut ffi::C> = p.index_mut(0); }',
   'pub fn x(p: Pin<&mut CxxVector<ffi::C>>) { let _: Option<Pin<&mut ffi::C>> = p.index_mut(0); }')
u8('CxxVector iter_mut yields pins', 'E0308', 'pub fn x(p: Pin<&mut CxxVector<ffi::C>>) { for e in p { let _: &mut ffi::C = e; } }', 'pub fn x(p: Pin<&mut CxxVector<ffi::C>>) { for e in p { let _: Pin<&mut ffi::C> = e; } }')
u8('CxxVector push of opaque', 'E0271|E0277', 'pub fn x(p: Pin<&mut CxxVector<ffi::C>>, c: &ffi::C) { p.push(unsafe { core::ptr::read(c) }) }', 'pub fn x(p: Pin<&mut CxxVector<u8>>) { p.push(1) }')
u8('CxxVector pop of opaque', 'E0271|E0277', 'pub fn x(p: Pin<&mut CxxVector<ffi::C>>) { let _ = p.pop(); }', 'pub fn x(p: Pin<&mut CxxVector<u8>>) { let _ = p.pop(); }')
u8('CxxVector as_slice of opaque', 'E0271|E0277', 'pub fn x(p: &CxxVector<ffi::C>) { let _ = p.as_slice(); }', 'pub fn x(p: &CxxVector<u8>) { let _ = p.as_slice(); }')
u8('CxxVector as_mut_slice of opaque', 'E0271|E0277', 'pub fn x(p: Pin<&mut CxxVector<ffi::C>>) { let _ = p.as_mut_slice(); }', 'pub fn x(p: Pin<&mut CxxVector<u8>>) { let _ = p.as_mut_slice(); }')
u8('CxxVector get_unchecked needs unsafe', 'E0133', 'pub fn x(p: &CxxVector<u8>) { let _ = p.get_unchecked(0); }', 'pub fn x(p: &CxxVector<u8>) { let _ = unsafe { p.get_unchecked(0) }; }')
u8('CxxVector index_unchecked_mut needs unsafe', 'E0133', 'pub fn x(p: Pin<&mut CxxVector<u8>>) { let _ = p.index_unchecked_mut(0); }', 'pub fn x(p: Pin<&mut CxxVector<u8>>) { let _ = unsafe { p.index_unchecked_mut(0) }; }')
u8('CxxString push needs a pin', 'E0599|E0308|E0596', 'pub fn x(s: &CxxString) { s.push_str("x") }', 'pub fn x(s: Pin<&mut CxxString>) { s.push_str("x") }')
u8('CxxVector push needs a pin', 'E0599|E0308', 'pub fn x(s: &CxxVector<u8>) { s.push(1) }', 'pub fn x(s: Pin<&mut CxxVector<u8>>) { s.push(1) }')
u8('elements do not outlive the vector', 'E0515|E0597|E0505', 'pub fn x(p: UniquePtr<CxxVector<ffi::C>>) { let c = p.get(0); drop(p); let _ = c.is_some(); }', 'pub fn x(p: UniquePtr<CxxVector<ffi::C>>) { let c = p.get(0); let _ = c.is_some(); drop(p); }')
u8('target does not outlive the pointer', 'E0505', 'pub fn x(p: UniquePtr<ffi::C>) { let c = p.as_ref(); drop(p); let _ = c.is_some(); }', 'pub fn x(p: UniquePtr<ffi::C>) { let c = p.as_ref(); let _ = c.is_some(); drop(p); }')
u8('two pins to one target', 'E0499', 'pub fn x(mut p: UniquePtr<ffi::C>) { let a = p.pin_mut(); let b = p.pin_mut(); ffi::g(a); ffi::g(b); }', 'pub fn x(mut p: UniquePtr<ffi::C>) { let a = p.pin_mut(); ffi::g(a); let b = p.pin_mut(); ffi::g(b); }')
u8('two pins to vector elements', 'E0499|E0382', 'pub fn x(mut v: Pin<&mut CxxVector<ffi::C>>) { let a = v.as_mut().index_mut(0); let b = v.as_mut().index_mut(0); drop(a); drop(b); }', 'pub fn x(mut v: Pin<&mut CxxVector<ffi::C>>) { let a = v.as_mut().index_mut(0); drop(a); let b = v.as_mut().index_mut(0); drop(b); }')
u8('shared view while mutated', 'E0502', 'pub fn x(mut v: Pin<&mut CxxVector<u8>>) { let a = v.as_slice(); v.as_mut().push(1); let _ = a.len(); }', 'pub fn x(mut v: Pin<&mut CxxVector<u8>>) { let a = v.as_slice(); let _ = a.len(); v.as_mut().push(1); }')
u8('string view while mutated', 'E0502', 'pub fn x(mut v: Pin<&mut CxxString>) { let a = v.as_bytes(); v.as_mut().push_str("x"); let _ = a.len(); }', 'pub fn x(mut v: Pin<&mut CxxString>) { let a = v.as_bytes(); let _ = a.len(); v.as_mut().push_str("x"); }')
u8('a shared pin cannot become exclusive', 'E0308', 'pub fn x(a: &ffi::C) { ffi::g(a) }', 'pub fn x(a: Pin<&mut ffi::C>) { ffi::g(a) }')
u8('SharedPtr gives no exclusive access', 'E0599', 'pub fn x(mut a: SharedPtr<CxxString>) { let _ = a.pin_mut(); }', 'pub fn x(mut a: SharedPtr<CxxString>) { let _ = a.as_ref(); }')
u8('the opaque type cannot be transmuted to bytes it does not have', 'E0512', 'pub fn x(c: ffi::C) -> u32 { unsafe { core::mem::transmute::<ffi::C, u32>(c) } }', 'pub fn x(c: u32) -> i32 { unsafe { core::mem::transmute::<u32, i32>(c) } }')
for w in ('fn h(c: &mut C);', 'fn h(self: &mut C);', 'fn h() -> &mut C;', 'fn h(c: &mut CxxString);', 'fn h(c: &mut CxxVector<C>);', 'fn h(c: &mut CxxVector<u8>);', 'fn h(cb: fn(&mut C));', 'fn h(c: &mut [C]);', 'fn h(c: &[C]);'):
    good = w.replace('&mut CxxVector<C>', 'Pin<&mut CxxVector<C>>').replace('&mut CxxVector<u8>', 'Pin<&mut CxxVector<u8>>').replace('&mut CxxString', 'Pin<&mut CxxString>').replace('&mut C)', 'Pin<&mut C>)').replace(
        '-> &mut C;', '-> Pin<&mut C>;').replace('&mut [C]', '&mut [u8]').replace('&[C]', '&[u8]')
    if '->' in w:
        w, good = w.replace('h()', 'h(x: Pin<&mut C>)'), good.replace('h()', 'h(x: Pin<&mut C>)')
    hd = '''struct C { template <class R, class... A> R h(A...); }; template <class R, class... A> R h(A...);'''
    pair('C08', 'unpinned exclusive reference: ' + w, 'reject', 'unsafe extern "C++" { %I type C; ' + w + ' }', 'unsafe extern "C++" { %I type C; ' + good + ' }', hdr=hd)
for w in ('fn h(c: &mut C);', 'fn h(c: &mut CxxString);', 'fn h(c: &mut CxxVector<u8>);', 'fn h(x: Pin<&mut C>) -> &mut C;', 'fn h(self: &R, c: &mut C);'):
    good = w.replace('&mut CxxVector<u8>', 'Pin<&mut CxxVector<u8>>').replace('&mut CxxString', 'Pin<&mut CxxString>').replace('c: &mut C)', 'c: Pin<&mut C>)').replace('-> &mut C;', '-> Pin<&mut C>;')
    q = good.replace('C>', 'ffi::C>').replace('self: &R', '&self')
    body = 'pub ' + q.replace(';', ' { unimplemented!() }')
    if '&self' in q:
        body = 'impl R { %s }' % body
    pair('C08', 'unpinned exclusive reference in Rust function: ' + w, 'reject', ('extern "Rust" { type R; %s } unsafe extern "C++" { %%I type C; }' % w, 'pub struct R(u8); ' + body),
         ('extern "Rust" { type R; %s } unsafe extern "C++" { %%I type C; }' % good, 'pub struct R(u8); ' + body))
for w in ('&mut C', '&mut CxxString', '&mut CxxVector<C>'):
    pair('C08', 'unpinned exclusive reference in a field: ' + w, 'reject', "struct F<'a> { x: %s } unsafe extern \"C++\" { %%I type C; }" % w.replace('&', "&'a "),
         "struct F<'a> { x: %s } unsafe extern \"C++\" { %%I type C; }" % ('Pin<' + w.replace('&', "&'a ") + '>'))

# ------------------------------------------------------------------ C10
for nm, bad in (('argument', 'fn f(a: *const u8);'), ('mutable argument', 'fn f(a: *mut C);'), ('method argument', 'fn m(self: &C, a: *const u8);'),
                ('second argument', 'fn f(b: u8, a: *mut S);'), ('fallible', 'fn f(a: *const S) -> Result<()>;'), ('function pointer argument', 'fn f(a: fn(*const u8));'),
                ('function pointer argument in unsafe fn', 'unsafe fn f(a: fn(*const u8));'), ('function pointer second', 'fn f(a: fn(u8, *mut C));')):
    if 'fn(' in bad[3:].replace('fn f(', ''):
        good = bad.replace(': fn(', ': unsafe fn(')
    else:
        good = 'unsafe ' + bad
    pair('C10', 'raw pointer: ' + nm, 'reject', 'unsafe extern "C++" { %I type C; ' + bad + ' }' + S, 'unsafe extern "C++" { %I type C; ' + good + ' }' + S)
for nm, bad in (('argument', 'fn f(a: *const u8);'), ('method argument', 'fn m(self: &R, a: *mut R);'), ('second argument', 'fn f(b: u8, a: *mut u8);')):
    im = 'pub unsafe fn f(a: *const u8) {}' if nm == 'argument' else 'pub unsafe fn f(b: u8, a: *mut u8) {}' if nm[0] == 's' else 'impl R { pub unsafe fn m(&self, a: *mut R) {} }'
    pair('C10', 'raw pointer in a Rust function: ' + nm, 'reject', ('extern "Rust" { type R; %s }' % bad, 'pub struct R(u8); ' + im), ('extern "Rust" { type R; unsafe %s }' % bad, 'pub struct R(u8); ' + im))
    pair('C10', 'raw pointer in a safely defined Rust function: ' + nm, 'reject', ('extern "Rust" { type R; %s }' % bad, 'pub struct R(u8); ' + im.replace('unsafe ', '')),
         ('extern "Rust" { type R; unsafe %s }' % bad, 'pub struct R(u8); ' + im.replace('unsafe ', '')))
H10 = None
for lang, blk in (('untrusted', 'extern "C++"'),):
    pair('C10', 'function in an extern block without unsafe is unsafe to call', 'rust:E0133|macro', ('extern "C++" { %I fn f(a: u8) -> u8; }', 'pub fn x() { ffi::f(1); }'),
         ('extern "C++" { %I unsafe fn f(a: u8) -> u8; }', 'pub fn x() { unsafe { ffi::f(1); } }'))
row('C10', 'safe fn in an extern block without unsafe is refused', 'rust:macro|E0133', 'extern "C++" { %I fn f(a: u8) -> u8; }', 'pub fn x() { unsafe { ffi::f(1); } }') if 0 else None
for nm, sig, call in (('function', 'fn f(a: u8) -> u8;', 'ffi::f(1)'), ('function with a string', 'fn f(a: &str) -> String;', 'ffi::f("")'), ('fallible function', 'fn f(a: u8) -> Result<u8>;', 'ffi::f(1)'),
                      ('function without arguments', 'fn f();', 'ffi::f()'), ('function returning a reference', 'fn f(a: &u8) -> &u8;', 'ffi::f(&1)'), ('function with rust name', '#[rust_name = "k"] fn f();', 'ffi::k()')):
    user('C10', 'unsafe %s called safely' % nm, 'E0133', 'pub fn x() { let _ = %s; }' % call, 'pub fn x() { let _ = unsafe { %s }; }' % call, 'unsafe extern "C++" { %I ' + sig.replace('fn f', 'unsafe fn f') + ' }')
    user('C10', 'safe %s needs no unsafe' % nm, 'E0308', 'pub fn x() { let _: Vec<i8> = %s; }' % call, 'pub fn x() { let _ = %s; }' % call, 'unsafe extern "C++" { %I ' + sig + ' }')
    user('C10', '%s in a block without unsafe' % nm, 'E0133', 'pub fn x() { let _ = %s; }' % call, 'pub fn x() { let _ = unsafe { %s }; }' % call, 'extern "C++" { %I ' + sig.replace('fn f', 'unsafe fn f') + ' }')
for nm, sig in (('method', 'fn m(self: &C, a: u8) -> u8;'), ('method of one argument', 'fn m(self: &C);'), ('fallible method', 'fn m(self: &C) -> Result<String>;')):
    arg = '1' if 'a: u8' in sig else ''
    user('C10', 'unsafe %s called safely' % nm, 'E0133', 'pub fn x(c: &ffi::C) { let _ = c.m(%s); }' % arg, 'pub fn x(c: &ffi::C) { let _ = unsafe { c.m(%s) }; }' % arg, 'unsafe extern "C++" { %I type C; ' + sig.replace('fn m', 'unsafe fn m') + ' }')
for nm, sig, rs in (('function', 'fn f(a: u8) -> u8;', 'pub unsafe fn f(a: u8) -> u8 { a }'), ('function without arguments', 'fn f();', 'pub unsafe fn f() {}'),
                    ('fallible function', 'fn f(a: u8) -> Result<u8>;', 'pub unsafe fn f(a: u8) -> Result<u8, String> { Ok(a) }'),
                    ('function with strings', 'fn f(a: &str, b: Vec<String>) -> String;', 'pub unsafe fn f(a: &str, b: Vec<String>) -> String { String::new() }'),
                    ('method', 'fn m(self: &R, a: u8);', 'impl R { pub unsafe fn m(&self, a: u8) {} }'),
                    ('method without arguments', 'fn m(self: &mut R) -> String;', 'impl R { pub unsafe fn m(&mut self) -> String { String::new() } }')):
    pair('C10', 'unsafe Rust %s declared safe' % nm, 'rust:E0133', ('extern "Rust" { type R; %s }' % sig, 'pub struct R(u8); ' + rs), ('extern "Rust" { type R; unsafe %s }' % sig.lstrip(), 'pub struct R(u8); ' + rs))
    row('C10', 'safe Rust %s declared unsafe' % nm, 'ok', 'extern "Rust" { type R; unsafe %s }' % sig, 'pub struct R(u8); ' + rs.replace('unsafe ', ''))
    row('C10', 'safe Rust %s declared safe' % nm, 'ok', 'extern "Rust" { type R; %s }' % sig, 'pub struct R(u8); ' + rs.replace('unsafe ', ''))
# explicit lifetimes
pair('C10', 'lifetimes of an untrusted C++ function', 'reject', "extern \"C++\" { %I fn f<'a>(a: &'a u8, b: &u8) -> &'a u8; }", "unsafe extern \"C++\" { %I fn f<'a>(a: &'a u8, b: &u8) -> &'a u8; }")
pair('C10', 'lifetimes of an untrusted C++ method', 'reject', "extern \"C++\" { %I type C; fn m<'a>(self: &C, b: &'a u8) -> &'a u8; }", "unsafe extern \"C++\" { %I type C; fn m<'a>(self: &C, b: &'a u8) -> &'a u8; }")
pair('C10', 'lifetimes of an unsafe but untrusted C++ function', 'reject', "extern \"C++\" { %I unsafe fn f<'a>(a: &'a u8, b: &u8) -> &'a u8; }", "unsafe extern \"C++\" { %I unsafe fn f<'a>(a: &'a u8, b: &u8) -> &'a u8; }")
pair('C10', 'lifetimes in the bridge module marked unsafe', 'reject', "extern \"C++\" { %I fn f<'a>(a: &'a u8, b: &u8) -> &'a u8; }", "unsafe extern \"C++\" { %I fn f<'a>(a: &'a u8, b: &u8) -> &'a u8; }")
pair('C10', 'lifetimes of a Rust function', 'reject', ("extern \"Rust\" { fn f<'a>(a: &'a u8, b: &u8) -> &'a u8; }", "pub fn f<'a>(a: &'a u8, b: &u8) -> &'a u8 { a }"), ("extern \"Rust\" { unsafe fn f<'a>(a: &'a u8, b: &u8) -> &'a u8; }", "pub fn f<'a>(a: &'a u8, b: &u8) -> &'a u8 { a }"))
pair('C10', 'lifetimes of a Rust method', 'reject', ("extern \"Rust\" { type R; fn m<'a>(self: &R, b: &'a u8) -> &'a u8; }", "pub struct R(u8); impl R { pub fn m<'a>(&self, b: &'a u8) -> &'a u8 { b } }"),
     ("extern \"Rust\" { type R; unsafe fn m<'a>(self: &R, b: &'a u8) -> &'a u8; }", "pub struct R(u8); impl R { pub fn m<'a>(&self, b: &'a u8) -> &'a u8 { b } }"))
user('C10', 'C++ result borrows from its argument', 'E0597|E0505|E0515|E0716', 'pub fn x() { let r; { let a = 1u8; r = ffi::f(&a, &2); } let _ = *r; }', 'pub fn x() { let a = 1u8; let r; { r = ffi::f(&a, &2); } let _ = *r; }',
     "unsafe extern \"C++\" { %I fn f<'a>(a: &'a u8, b: &u8) -> &'a u8; }")
user('C10', 'C++ method result borrows from its receiver', 'E0505', 'pub fn x(c: UniquePtr<ffi::C>) { let r = c.m(); drop(c); let _ = *r; }', 'pub fn x(c: UniquePtr<ffi::C>) { let r = c.m(); let _ = *r; drop(c); }',
     'unsafe extern "C++" { %I type C; fn m(self: &C) -> &u8; } impl UniquePtr<C> {}')
user('C10', 'str result borrows from its argument', 'E0505', 'pub fn x(c: String) { let r = ffi::f(&c); drop(c); let _ = r.len(); }', 'pub fn x(c: String) { let r = ffi::f(&c); let _ = r.len(); drop(c); }',
     'unsafe extern "C++" { %I fn f(s: &String) -> &str; }')
user('C10', 'slice result borrows exclusively', 'E0499|E0502|E0503|E0506', 'pub fn x(c: &mut [u8]) { let r = ffi::f(c); c[0] = 1; r[0] = 2; }', 'pub fn x(c: &mut [u8]) { let r = ffi::f(c); r[0] = 2; c[0] = 1; }',
     'unsafe extern "C++" { %I fn f(s: &mut [u8]) -> &mut [u8]; }')
user('C10', 'pinned result borrows exclusively', 'E0499|E0502', 'pub fn x(mut c: UniquePtr<ffi::C>) { let r = ffi::f(c.pin_mut()); let q = ffi::f(c.pin_mut()); drop(r); drop(q); }', 'pub fn x(mut c: UniquePtr<ffi::C>) { let r = ffi::f(c.pin_mut()); drop(r); let q = ffi::f(c.pin_mut()); drop(q); }',
     'unsafe extern "C++" { %I type C; fn f(s: Pin<&mut C>) -> Pin<&mut C>; } impl UniquePtr<C> {}')
user('C10', 'fallible result borrows from its argument', 'E0505', 'pub fn x(c: String) { let r = ffi::f(&c).unwrap(); drop(c); let _ = r.len(); }', 'pub fn x(c: String) { let r = ffi::f(&c).unwrap(); let _ = r.len(); drop(c); }',
     'unsafe extern "C++" { %I fn f(s: &String) -> Result<&str>; }')
# exclusive references out of nothing
for nm, ret in (('reference', '&mut u8'), ('struct', '&mut S'), ('pin', 'Pin<&mut C>'), ('slice', '&mut [u8]'), ('fallible', 'Result<&mut u8>'), ('fallible pin', 'Result<Pin<&mut C>>'), ('fallible slice', 'Result<&mut [S]>')):
    for an, a, ok in (('shared reference', 'a: &C', 'a: Pin<&mut C>'), ('shared slice', 'a: &[u8]', 'a: &mut [u8]'), ('str', 'a: &str', 'a: &mut String'), ('receiver', 'self: &C', 'self: Pin<&mut C>'),
                      ('shared reference beside a value', 'b: u8, a: &S', 'b: u8, a: &mut S')):
        b = 'unsafe extern "C++" { %%I type C; %sfn m(%s) -> %s; }' + S
        hd = 'struct C { template <class R, class... A> R m(A...) const; template <class R, class... A> R m(A...); }; template <class R, class... A> R m(A...);'
        pair('C10', 'exclusive %s from %s' % (nm, an), 'reject', b % ('', a, ret), b % ('', ok, ret), hdr=hd)
        row('C10', 'exclusive %s from %s/unsafe twin' % (nm, an), 'ok', b % ('unsafe ', a, ret), hdr=hd)
pair('C10', 'exclusive reference from a foreign type', 'reject', "unsafe extern \"C++\" { %I type C; fn f(a: &C) -> &mut u8; }", "unsafe extern \"C++\" { %I type C<'a>; fn f<'a>(a: &C<'a>) -> &'a mut u8; }")
pair('C10', 'exclusive reference from a shared struct', 'reject', "struct L { x: u8 } unsafe extern \"C++\" { %I fn f(a: &L) -> &mut u8; }", "struct L<'a> { x: &'a u8 } unsafe extern \"C++\" { %I fn f<'a>(a: &L<'a>) -> &'a mut u8; }")
pair('C10', 'extern shared struct in an untrusted block', 'reject', 'struct E { x: u8 } extern "C++" { %I type E; }', 'struct E { x: u8 } unsafe extern "C++" { %I type E; }', hdr='struct E { std::uint8_t x; };')
pair('C10', "reserved lifetime 'static", 'reject', "unsafe extern \"C++\" { %I fn f<'static>(a: &'static u8) -> u8; }", "unsafe extern \"C++\" { %I fn f<'a>(a: &'a u8) -> u8; }")
pair('C10', "reserved lifetime 'static on a type", 'reject', "unsafe extern \"C++\" { %I type C<'static>; }", "unsafe extern \"C++\" { %I type C<'a>; }")
pair('C10', "reserved lifetime 'static on a struct", 'reject', "struct L<'static> { x: &'static u8 }", "struct L<'a> { x: &'a u8 }")
pair('C10', 'unsafe extern "Rust" block', 'reject', ('unsafe extern "Rust" { fn f(); }', 'pub fn f() {}'), ('extern "Rust" { fn f(); }', 'pub fn f() {}'))
pair('C10', 'undeclared lifetime', 'rust:E0261', "unsafe extern \"C++\" { %I fn f(a: &'a u8) -> &'a u8; }", "unsafe extern \"C++\" { %I fn f<'a>(a: &'a u8) -> &'a u8; }")
user('C10', 'function pointer is unsafe when declared so', 'E0308', 'pub unsafe fn cb(a: *const u8) {} pub fn x() { ffi::f(1 as u8 as fn(*const u8)) }' if 0 else 'pub fn x() { let g: fn(u8) = ffi::h; }',
     'pub fn x() { let g: unsafe fn(u8) = ffi::h; }', 'unsafe extern "C++" { %I unsafe fn h(a: u8); }', hdr='void h(std::uint8_t);')

# ------------------------------------------------------------------ C11
FX = '''pub mod my {
  use cxx::{type_id, ExternType};
  #[repr(C)] pub struct N { pub x: u32 } // no impl
  #[repr(C)] pub struct W { pub x: u32 } unsafe impl ExternType for W { type Id = type_id!("elsewhere::A"); type Kind = cxx::kind::Trivial; }
  #[repr(C)] pub struct X { pub x: u32 } unsafe impl ExternType for X { type Id = type_id!("A"); type Kind = cxx::kind::Trivial; }
  #[repr(C)] pub struct A { pub x: u32 } unsafe impl ExternType for A { type Id = type_id!("%N::A"); type Kind = cxx::kind::Trivial; }
  #[repr(C)] pub struct B { pub x: u32 } unsafe impl ExternType for B { type Id = type_id!("%N::A"); type Kind = cxx::kind::Opaque; }
  #[repr(C)] pub struct D { pub x: u32 } unsafe impl ExternType for D { type Id = type_id!("%N::inner::A"); type Kind = cxx::kind::Trivial; }
}'''
HT = 'struct A { std::uint32_t x; }; template <class R, class... Z> R f(Z...); template <class R, class... Z> R g(Z...);'
HN = 'struct A { A(const A &); A(A &&); ~A(); std::uint32_t x; }; template <class R, class... Z> R f(Z...); template <class R, class... Z> R g(Z...);'
for nm, ty, code in (('without an identity', 'N', 'E0277'), ('of another C++ type', 'W', 'E0271'), ('of the same name in another namespace', 'X', 'E0271'), ('of a nested namespace', 'D', 'E0271')):
    for use in ('', 'fn f(a: &A);', 'fn f(a: A);', 'fn f() -> UniquePtr<A>; ', 'fn f(self: &A);'):
        if use.startswith('fn f(self'):
            hd = HT.replace('std::uint32_t x;', 'std::uint32_t x; template <class R, class... Z> R f(Z...) const;')
        else:
            hd = HT
        im = ' impl UniquePtr<A> {}' if 'Unique' in use else ''
        pair('C11', 'alias %s %s' % (nm, use), 'rust:' + code, ('unsafe extern "C++" { %I type A = super::my::' + ty + '; ' + use + ' }' + im, FX, hd), ('unsafe extern "C++" { %I type A = super::my::A; ' + use + ' }' + im, FX, hd))
pair('C11', 'alias by namespace attribute', 'rust:E0271', ('unsafe extern "C++" { %I #[namespace = "%N::other"] type A = super::my::A; }', FX, HT), ('unsafe extern "C++" { %I #[namespace = "%N"] type A = super::my::A; }', FX, HT))
pair('C11', 'alias by namespace attribute on the block', 'rust:E0271', ('#[namespace = "other"] unsafe extern "C++" { %I type A = super::my::A; }', FX, HT), ('#[namespace = "%N::inner"] unsafe extern "C++" { %I type A = super::my::D; }', FX, 'namespace inner { ' + HT + '}'))
pair('C11', 'alias by C++ name', 'rust:E0271', ('unsafe extern "C++" { %I #[cxx_name = "Q"] type A = super::my::A; }', FX, HT), ('unsafe extern "C++" { %I #[cxx_name = "A"] type Q = super::my::A; }', FX, HT))
USES = (('argument', 'fn f(a: A);'), ('return', 'fn f() -> A;'), ('fallible return', 'fn f() -> Result<A>;'), ('exclusive reference', 'fn f(a: &mut A);'), ('exclusive reference returned', 'fn f(a: &mut u8) -> &mut A;'),
        ('slice', 'fn f(a: &[A]);'), ('exclusive slice', 'fn f(a: &mut [A]);'), ('vector', 'fn f(a: Vec<A>);'), ('vector by reference', 'fn f(a: &Vec<A>);'), ('box', 'fn f(a: Box<A>);'), ('box returned', 'fn f() -> Box<A>;'),
        ('function pointer argument', 'fn f(a: fn(A));'), ('function pointer return', 'fn f(a: fn() -> A);'), ('second argument', 'fn f(a: u8, b: A);'),
        ('fallible argument', 'fn f(a: A) -> Result<()>;'), ('vector returned', 'fn f() -> Vec<A>;'), ('slice returned', 'fn f(x: &u8) -> &[A];'),
        ('function pointer return beside a return value', 'fn f(a: fn() -> A) -> u8;'), ('function pointer argument among others', 'fn f(a: u8, b: fn(u8, A) -> u8) -> u8;'),
        ("exclusive reference with a lifetime", "fn f<'a>(a: &'a mut u8) -> &'a mut A;"), ("exclusive reference with a lifetime, argument", "fn f<'a>(a: &'a mut A) -> &'a u8;"), 
        ('reference to a vector returned', 'fn f(x: &u8) -> &Vec<A>;'), ('return beside arguments', 'fn f(a: &A, b: u8) -> A;'), ('exclusive slice with a lifetime', "fn f<'a>(x: &'a mut u8) -> &'a mut [A];"))
for nm, use in USES:
    im = (' impl Vec<A> {}' if 'Vec' in use else '') + (' impl Box<A> {}' if 'Box' in use else '')
    pair('C11', 'not movable: %s' % nm, 'rust:E0271', ('unsafe extern "C++" { %I type A = super::my::B; ' + use + ' }' + im, FX, HT), ('unsafe extern "C++" { %I type A = super::my::A; ' + use + ' }' + im, FX, HT))
    row('C11', 'claimed movable but is not in C++: %s' % nm, 'cxx', 'unsafe extern "C++" { %I type A = super::my::A; ' + use + ' }' + im, FX, HN)
    row('C11', 'opaque by value without an alias: %s' % nm, 'reject', 'unsafe extern "C++" { %I type A; ' + use + ' }', '', HN)
    rs = use.replace('A)', 'my::A)').replace('A>', 'my::A>').replace('A]', 'my::A]').replace('-> A;', '-> my::A;').replace('mut A;', 'mut my::A;').replace('&A,', '&my::A,')
    if 'fn(' in use or 'fn() ->' in use or 'self' in use or "'a" in use:
        continue
    rs = 'pub ' + rs.replace('Result<()>;', 'Result<(), String>;').replace('Result<my::A>', 'Result<my::A, String>').replace(';', ' { unimplemented!() }')
    ex = 'unsafe extern "C++" { %I type A = super::my::' + '%s; } extern "Rust" { ' + use + ' }' + im
    pair('C11', 'not movable in a Rust function: %s' % nm, 'rust:E0271', (ex.replace('%s', 'B'), FX + rs.replace('my::A', 'my::B'), HT), (ex.replace('%s', 'A'), FX + rs, HT))
    row('C11', 'claimed movable but is not in C++, Rust function: %s' % nm, 'cxx', ex.replace('%s', 'A'), FX + rs, HN)
pair('C11', 'not movable: field', 'rust:E0271', ('struct F { a: A } unsafe extern "C++" { %I type A = super::my::B; }', FX, HT), ('struct F { a: A } unsafe extern "C++" { %I type A = super::my::A; }', FX, HT))
pair('C11', 'claimed movable but is not in C++: field', 'cxx', ('struct F { a: A } unsafe extern "C++" { %I type A = super::my::A; }', FX, HN), ('struct F { a: A } unsafe extern "C++" { %I type A = super::my::A; }', FX, HT))
pair('C11', 'opaque without an alias: field', 'reject', ('struct F { a: A } unsafe extern "C++" { %I type A; }', FX, HT), ('struct F { a: UniquePtr<A> } unsafe extern "C++" { %I type A; }', FX, HT))
pair('C11', 'not movable: unpinned receiver', 'rust:E0271', ('unsafe extern "C++" { %I type A = super::my::B; fn m(self: &mut A); }', FX, HT.replace('std::uint32_t x;', 'std::uint32_t x; void m();')),
     ('unsafe extern "C++" { %I type A = super::my::A; fn m(self: &mut A); }', FX, HT.replace('std::uint32_t x;', 'std::uint32_t x; void m();')))
row('C11', 'claimed movable but is not in C++: unpinned receiver', 'cxx', 'unsafe extern "C++" { %I type A = super::my::A; fn m(self: &mut A); }', FX, HN.replace('std::uint32_t x;', 'std::uint32_t x; void m();'))
row('C11', 'opaque alias behind references and pointers', 'ok', 'unsafe extern "C++" { %I type A = super::my::B; fn f(a: &A, b: Pin<&mut A>, c: UniquePtr<A>, d: SharedPtr<A>); unsafe fn g(e: *mut A); } impl UniquePtr<A> {} impl SharedPtr<A> {}', FX, HN)
row('C11', 'type with its own relocation trait', 'ok', 'unsafe extern "C++" { %I type A = super::my::A; fn f(a: A) -> A; }', FX, 'struct A { A(const A &); A(A &&); ~A(); std::uint32_t x; using IsRelocatable = std::true_type; }; template <class R, class... Z> R f(Z...);')
row('C11', 'type which declares it is not relocatable', 'cxx', 'unsafe extern "C++" { %I type A = super::my::A; fn f(a: A) -> A; }', FX, 'struct A { std::uint32_t x; using IsRelocatable = std::false_type; }; template <class R, class... Z> R f(Z...);')
row('C11', 'destructor alone makes it not movable', 'cxx', 'unsafe extern "C++" { %I type A = super::my::A; fn f(a: A); }', FX, 'struct A { A(A &&) = default; ~A(); std::uint32_t x; }; template <class R, class... Z> R f(Z...);')
row('C11', 'move constructor alone makes it not movable', 'cxx', 'unsafe extern "C++" { %I type A = super::my::A; fn f() -> A; }', FX, 'struct A { A(A &&); ~A() = default; std::uint32_t x; }; template <class R, class... Z> R f(Z...);')
# aliases between bridges
TWO = '#[cxx::bridge(namespace = "%N")] pub mod one { unsafe extern "C++" { %I type A; } }'
TWO2 = '#[cxx::bridge(namespace = "%N::x")] pub mod one { unsafe extern "C++" { %I type A; } }'
pair('C11', 'alias of a type of another bridge', 'rust:E0271', ('unsafe extern "C++" { %I type A = super::one::A; fn f(a: &A); }', TWO2, HT), ('unsafe extern "C++" { %I type A = super::one::A; fn f(a: &A); }', TWO, HT))
row('C11', 'opaque type of another bridge by value', 'rust:E0271', 'unsafe extern "C++" { %I type A = super::one::A; fn f(a: A); }', TWO, HT)
row('C11', 'opaque type of another bridge in a field', 'rust:E0271', 'struct F { a: A } unsafe extern "C++" { %I type A = super::one::A; }', TWO, HT)
ONE = '#[cxx::bridge(namespace = "%N")] pub mod one { struct A { x: u32 } }'
pair('C11', 'alias of a shared struct of another bridge', 'rust:E0271', ('unsafe extern "C++" { %I type A = super::one::A; fn f(a: A); }', ONE.replace('%N', '%N::z'), HT), ('unsafe extern "C++" { %I type A = super::one::A; fn f(a: A) -> A; }', ONE, HT))
ONE = '#[cxx::bridge(namespace = "%N")] pub mod one { enum A { X } }'
pair('C11', 'alias of a shared enum of another bridge', 'rust:E0271', ('unsafe extern "C++" { %I type A = super::one::A; fn f(a: A); }', ONE.replace('%N', '%N::z'), HT), ('unsafe extern "C++" { %I type A = super::one::A; fn f(a: A) -> A; }', ONE, HT))
ONE = '#[cxx::bridge(namespace = "%N")] pub mod one { extern "Rust" { #[derive(ExternType)] type A; } } pub struct A(u8);'
pair('C11', 'alias of a Rust type of another bridge', 'rust:E0271', ('unsafe extern "C++" { %I type A = super::A; fn f(a: &A); }', ONE.replace('%N', '%N::z'), HT), ('unsafe extern "C++" { %I type A = super::A; fn f(a: &A); }', ONE, HT))
row('C11', 'Rust type of another bridge without derive', 'rust:E0277', 'unsafe extern "C++" { %I type A = super::A; fn f(a: &A); }', ONE.replace('#[derive(ExternType)]', ''), HT)
row('C11', 'Rust type of another bridge by value', 'rust:E0271', 'unsafe extern "C++" { %I type A = super::A; fn f(a: A); }', ONE, HT)
for tr in ('Clone', 'Copy', 'Debug', 'Default', 'Eq', 'ExternType', 'Hash', 'Ord', 'PartialEq', 'PartialOrd'):
    pair('C11', 'derive %s on an alias' % tr, 'reject', 'unsafe extern "C++" { %%I #[derive(%s)] %s }' % (tr, FT), 'unsafe extern "C++" { %I ' + FT + ' }')
    pair('C09', 'derive %s on an opaque C++ type' % tr, 'reject', 'unsafe extern "C++" { %%I #[derive(%s)] type C; }' % tr, 'unsafe extern "C++" { %I type C; }')
