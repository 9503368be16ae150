"""More witness programs (see rows.py): receivers with lifetimes, aliases of opaque types, arrays behind aliases, names in namespaces."""
from rows import pair, row, user

X = 'unsafe extern "C++" { %I '
S = ' struct S { a: u8 }'
HD = 'struct C { template <class R, class... A> R m(A...) const; template <class R, class... A> R m(A...); }; struct D; template <class R, class... A> R m(A...);'

# ------------------------------------------------------------------ C10: exclusive out of shared, whatever the receiver looks like
RECV = [('self with a lifetime', "self: &'a C", "self: Pin<&'a mut C>", 'type C; type D;', ''),
        ('short self', '&self', 'self: Pin<&mut C>', 'type C;', ''),
        ('short self with a lifetime', "&'a self", "self: Pin<&'a mut C>", 'type C;', ''),
        ('shared struct', "self: &'a S", "self: &'a mut S", 'type D;', ''),
        ('shared struct without a lifetime', "self: &S", "self: &mut S", 'type D;', ''),
        ('argument with a lifetime', "a: &'a C", "a: Pin<&'a mut C>", 'type C; type D;', ''),
        ('lifetime and values', "self: &'a C, x: u8, y: String", "self: Pin<&'a mut C>, x: u8, y: String", 'type C; type D;', ''),
        ('lifetime and shared argument', "self: &'a C, x: &S", "self: Pin<&'a mut C>, x: &S", 'type C; type D;', ''),
        ('smart pointer', 'a: UniquePtr<C>', 'a: Pin<&mut C>', 'type C;', ''),
        ('shared pointer', 'a: &SharedPtr<C>', 'a: Pin<&mut C>', 'type C;', ''),
        ('vector', 'a: &CxxVector<C>', 'a: Pin<&mut CxxVector<C>>', 'type C;', ''),
        ('box', 'a: &Box<S>', 'a: &mut Box<S>', 'type C;', ''),
        ('by value', 'a: u8, b: String', 'a: u8, b: &mut String', 'type C;', ''),
        ('array', 'a: &[u8; 2]', 'a: &mut [u8; 2]', 'type C;', ''),
        ('slice of structs', 'a: &[S]', 'a: &mut [S]', 'type C;', '')]
for nm, a, ok, decl, _ in RECV:
    for rn, ret in (('reference', "&%s mut u8"), ('struct', "&%s mut S"), ('pin', "Pin<&%s mut %s>"), ('slice', "&%s mut [u8]"), ('fallible', "Result<&%s mut u8>"), ('string', '&%s mut String')):
        life = "'a" in a
        other = 'D' if 'type D' in decl else 'C'
        f = lambda arg, lf: X + decl + ' fn m%s(%s) -> %s; }' % ("<'a>" if lf else '', arg, (ret % (("'a" if lf else '',) + ((other,) if ret.count('%s') == 2 else ()))).replace('& mut', '&mut')) + S
        if 'short' in nm and 'Pin' in ok:
            pass
        pair('C10', 'exclusive %s from %s' % (rn, nm), 'reject', f(a, life), f(ok, "'a" in ok), hdr=HD + (' struct S;' if 0 else ''))

# the lifetime of a foreign type is one: it can not be made longer
for nm, ty, decl in (('C++ type', "ffi::C", X + "type C<'a>; }"), ('C++ type with two', "ffi::C", X + "type C<'a, 'b>; }"), ('shared struct', 'ffi::L', "struct L<'a> { x: &'a u8 }"), ('Rust type', 'R', "extern \"Rust\" { type R<'a>; unsafe fn g<'a>(r: &R<'a>); }")):
    one = ty + ("<%s, %s>" if 'two' in nm else '<%s>')
    rs = "pub struct R<'a>(&'a u8); pub fn g<'a>(r: &R<'a>) {}" if ty == 'R' else ''
    for k in range(1 + ('two' in nm)):
        a = ["'a", "'a"]
        z = ["'a", "'a"]
        z[k] = "'b"
        n = 2 if 'two' in nm else 1
        f, t = one % tuple(a[:n]), one % tuple(z[:n])
        for rn, r in (('reference', '&\'x %s'), ('pin', "Pin<&'x mut %s>"), ('pointer', 'UniquePtr<%s>'), ('shared pointer', 'SharedPtr<%s>'), ('box', 'Box<%s>'), ('vector', "&'x CxxVector<%s>")):
            if rn in ('pointer', 'shared pointer', 'vector') and 'C++' not in nm or rn == 'box' and 'C++' in nm or rn == 'pin' and 'C++' not in nm:
                continue
            w = {'pointer': 'UniquePtr', 'shared pointer': 'SharedPtr', 'vector': 'CxxVector'}.get(rn)
            d = decl + (' impl %s<C> {}' % w if w and 0 else '')
            user('C10', 'lifetime %d of a %s made longer behind a %s' % (k, nm, rn), '*', "pub fn x<'x, 'a, 'b: 'a>(c: %s) -> %s where 'a: 'x { c }" % (r % f, r % t), "pub fn x<'x, 'a, 'b: 'a>(c: %s) -> %s where 'a: 'x { c }" % (r % f, r % f), d, rs,
                 hdr='struct C { C(const C &); ~C(); };') if not w else None

# ------------------------------------------------------------------ C08: an alias of an opaque type is as opaque
FO = '#[namespace = "found"] type O = crate::found::O;'
for w, good in (('fn h(o: &mut O);', 'fn h(o: Pin<&mut O>);'), ('fn h(x: u8, o: &mut O) -> u8;', 'fn h(x: u8, o: Pin<&mut O>) -> u8;'), ('fn h(x: Pin<&mut O>) -> &mut O;', 'fn h(x: Pin<&mut O>) -> Pin<&mut O>;'),
                ('fn h(cb: fn(&mut O));', 'fn h(cb: fn(Pin<&mut O>));'), ('fn h(o: &mut O, t: T);', 'fn h(o: Pin<&mut O>, t: T);'),
                ('fn h(o: &mut O) -> Result<()>;', 'fn h(o: Pin<&mut O>) -> Result<()>;')):
    b = X + FO + '#[namespace = "found"] type T = crate::found::T; ' + '%s }'
    pair('C08', 'unpinned exclusive reference to an alias: ' + w, 'rust:E0271|macro', b.replace('%s', w), b.replace('%s', good), hdr='template <class R, class... A> R h(A...);')
for w, good in (('fn h(o: &mut O);', 'fn h(o: Pin<&mut O>);'), ('fn h(o: Pin<&mut O>) -> &mut O;', 'fn h(o: Pin<&mut O>) -> Pin<&mut O>;')):
    rs = 'pub ' + good.replace('O>', 'found::O>').replace(';', ' { unimplemented!() }')
    b = 'extern "Rust" { %s } unsafe extern "C++" { ' + FO + ' }'
    pair('C08', 'unpinned exclusive reference to an alias in a Rust function: ' + w, 'rust:E0271|macro', (b % w, rs), (b % good, rs))
pair('C08', 'unpinned exclusive reference to an alias in a field', 'rust:E0271|macro', "struct F<'a> { x: &'a mut O } " + X + FO + ' }', "struct F<'a> { x: Pin<&'a mut O> } " + X + FO + ' }')
row('C08', 'exclusive reference to an alias used by value', 'ok', X + '#[namespace = "found"] type T = crate::found::T; fn h(o: &mut T, p: T); }', hdr='template <class R, class... A> R h(A...);')

# ------------------------------------------------------------------ C16: an alias of a C++ array may be a field or an element, but not cross by value
AR = 'pub mod ar { #[repr(C)] pub struct A([u8; 4]); unsafe impl cxx::ExternType for A { type Id = cxx::type_id!("%N::A"); type Kind = cxx::kind::Trivial; } }'
AH = 'using A = std::uint8_t[4]; template <class R, class... Z> R h(Z...);'
AX = 'unsafe extern "C++" { %I type A = super::ar::A; '
for nm, b, want in (('field', AX + '} struct F { a: A }', 'ok'), ('vec element', AX + '} extern "Rust" { fn g(a: &Vec<A>); }', None), ('argument', AX + 'fn h(a: A); }', 'cxx'),
                    ('field and argument', AX + 'fn h(a: A); } struct F { a: A }', 'cxx'), ('argument before field', 'struct F { a: A } ' + AX + 'fn h(a: A); }', 'cxx'),
                    ('two fields and an argument', 'struct F { a: A } struct G { b: A } ' + AX + 'fn h(a: A); }', 'cxx'),
                    ('field and fallible argument', 'struct F { a: A } ' + AX + 'fn h(a: A) -> Result<()>; }', 'cxx'),
                    ('field and Rust argument', 'struct F { a: A } extern "Rust" { fn g(a: A); } ' + AX + '}', 'cxx')):
    if want:
        row('C16', 'alias of a C++ array as ' + nm, want, b, AR + ' pub fn g(a: ar::A) {}', hdr=AH)

# ------------------------------------------------------------------ C22: the same C++ name in two namespaces
TWO = '#[namespace = "%%N::i"] %s #[namespace = "%%N::j"] #[cxx_name = "S"] %s'
KINDS = {'struct': ('', '#[derive(PartialEq, PartialOrd, Hash)] %s struct %s { %s: u8 }', '', 'sizeof(%s::S::%s)'),
         'enum': ('', '%s enum %s { %s }', '', 'int(%s::S::%s) + 1'),
         'opaque Rust type': ('extern "Rust" { ', '%s type %s; #[namespace = "%%N"] fn use_%s(x: &%s);', ' }', None)}
for k1 in KINDS:
    for k2 in KINDS:
        b = rs = ''
        uses = []
        for k, ns, n, m in (k1, 'i', 'S', 'a'), (k2, 'j', 'S2', 'b'):
            at = '#[namespace = "%%N::%s"]%s' % (ns, '' if n == 'S' else ' #[cxx_name = "S"]')
            pre, body, post, use = KINDS[k]
            b += pre + body % ((at, n, m) if use else (at, n, m, n)) + post + '\n'
            if use:
                uses.append('static_assert(%s == 1, "%s");' % (use % (ns, m), ns))
            else:
                rs += 'pub struct %s; pub fn use_%s(x: &%s) {} ' % (n, m, n)
                uses.append('static_assert(sizeof(decltype(&use_%s)) == sizeof(void (*)(const %s::S &)) && std::is_same<decltype(&use_%s), void (*)(const %s::S &) noexcept>::value && std::is_class<%s::S>::value && std::is_base_of<rust::Opaque, %s::S>::value, "%s");' % (m, ns, m, ns, ns, ns, ns))
        for header in (False, True):
            row('C22', '%s and %s of one name in two namespaces%s' % (k1, k2, ', header' if header else ''), 'ok', b, rs, hdr='',
                user='namespace %%N { %s }' % '\n'.join(uses), header=header)

# ------------------------------------------------------------------ C11: the identity of what a bridge declares is its C++ name, namespace included
DECLS = {'C++ type': 'unsafe extern "C++" { include!("%%N.h"); %s type Z; }', 'shared struct': '%s struct Z { x: u32 }', 'shared enum': '%s enum Z { X }',
         'Rust type': 'extern "Rust" { %s #[derive(ExternType)] type Z; }'}
for k, d in DECLS.items():
    for nm, at, ns, cn in (('plain', '', '%N', 'Z'), ('renamed', '#[cxx_name = "Y"]', '%N', 'Y'), ('in a namespace', '#[namespace = "%N::q"]', '%N::q', 'Z'), ('renamed in a namespace', '#[namespace = "%N::q"] #[cxx_name = "Y"]', '%N::q', 'Y'),
                           ('in the outer namespace', '#[namespace = "q%N"]', 'q%N', 'Z')):
        one = '#[cxx::bridge(namespace = "%N")] pub mod one { ' + d % at + ' } pub struct Z(u32);'
        path = 'super::Z' if k == 'Rust type' else 'super::one::Z'
        hd = ''.join(' } namespace %s { struct Y; struct Z; struct W; } namespace %%N {' % n for n in ('%N::q', 'q%N', '%N'))
        a = X.replace('%I', '%%I') + '#[namespace = "%s"] #[cxx_name = "%s"] type A = ' + path + '; fn f(a: &A); }'
        hd = hd.replace('struct Y;', 'enum class Y : std::uint8_t;').replace('struct Z;', 'enum class Z : std::uint8_t;') if 'enum' in k else hd
        good = a % (ns, cn)
        for wn, bad in (('C++ name', a % (ns, 'W')), ('namespace', a % ('%N' if ns != '%N' else '%N::q', cn))) + ((('C++ name, but its Rust name', a % (ns, 'Z')),) if cn != 'Z' else ()):
            pair('C11', '%s, %s: alias with another %s' % (k, nm, wn), 'rust:E0271', (bad, one), (good, one), hdr=hd + 'template <class R, class... A> R f(A...);')
LF = "#[repr(C)] pub struct L<'a>(u32, core::marker::PhantomData<&'a u8>); unsafe impl<'a> cxx::ExternType for L<'a> { type Id = cxx::type_id!(\"%N::A\"); type Kind = cxx::kind::KIND; }"
for nm, b in (('argument', "fn f(a: A); }"), ('return', 'fn f(x: &u8) -> A; }'), ('field', "} struct F<'a> { a: A<'a> }"), ('exclusive reference', 'fn f(a: &mut A); }'), ('slice', 'fn f(a: &[A]); }')):
    pair('C11', 'not movable, with a lifetime: ' + nm, 'rust:E0271', (X + "type A<'a> = super::L<'a>; " + b, LF.replace('KIND', 'Opaque')), (X + "type A<'a> = super::L<'a>; " + b, LF.replace('KIND', 'Trivial')),
         hdr='struct A { std::uint32_t x; }; template <class R, class... A> R f(A...);')

# ------------------------------------------------------------------ C09: what Self means, bounds of foreign types, methods of every kind
AL = 'use cxx::{ExternType, type_id}; pub mod other { #[repr(C)] pub struct A { pub _p: u32 } unsafe impl cxx::ExternType for A { type Id = cxx::type_id!("%N::A"); type Kind = cxx::kind::KIND; } }'
HA = 'struct A { std::uint32_t x; ::std::uint32_t m() const; void n(); }; struct C { ::std::uint32_t m() const; };'
for kd in 'Trivial', 'Opaque':
    al = AL.replace('KIND', kd)
    row('C09', 'Self of one alias, ' + kd, 'ok', X + 'type A = super::other::A; fn m(&self) -> u32; }', rust=al, hdr=HA)
    row('C09', 'Self of one alias by name, ' + kd, 'ok', X + 'type A = super::other::A; fn m(self: &Self) -> u32; fn n(self: Pin<&mut Self>); }', rust=al, hdr=HA)
    row('C09', 'Self of an alias and a type, ' + kd, 'reject', X + 'type A = super::other::A; type C; fn m(&self) -> u32; }', rust=al, hdr=HA)
    row('C09', 'Self of an alias, types in another block, ' + kd, 'ok', X + 'type A = super::other::A; fn m(&self) -> u32; } unsafe extern "C++" { type C; }', rust=al, hdr=HA)
    row('C09', 'Self of an alias in another block, ' + kd, 'reject', X + 'type A = super::other::A; } unsafe extern "C++" { fn m(&self) -> u32; }', rust=al, hdr=HA)
row('C09', 'Self of two Rust types', 'reject', 'extern "Rust" { type R; type Q; fn m(&self); }', rust='pub struct R; pub struct Q; impl R { pub fn m(&self) {} } impl Q { pub fn m(&self) {} }')
row('C09', 'Self of two Rust types, method first', 'reject', 'extern "Rust" { fn m(&self); type R; type Q; }', rust='pub struct R; pub struct Q; impl R { pub fn m(&self) {} } impl Q { pub fn m(&self) {} }')
row('C09', 'Self of a Rust type, method first', 'ok', 'extern "Rust" { fn m(&self); fn n(self: &mut Self) -> Result<()>; type R; }', rust='pub struct R; impl R { pub fn m(&self) {} pub fn n(&mut self) -> Result<(), String> { Ok(()) } }')
row('C09', 'Self of a Rust type beside structs and enums', 'ok', 'struct S { a: u8 } enum E { A } extern "Rust" { type R; fn m(&self); }', rust='pub struct R; impl R { pub fn m(&self) {} }')
row('C09', 'Self of a struct', 'reject', 'struct S { a: u8 } extern "Rust" { fn m(&self); }', rust='impl ffi::S { pub fn m(&self) {} }')
for bd in '?ExternType', '(ExternType)', "for<'a> ExternType", "'static", 'ExternType<u8>', 'cxx::ExternType', 'ExternType + ?Sized', 'Sized', '~const ExternType', 'const ExternType', 'Send':
    row('C09', 'Rust type bounded by ' + bd, 'reject', 'extern "Rust" { type R: %s; }' % bd, rust='pub struct R;')
row('C09', 'Rust type bounded by ExternType', 'reject', 'extern "Rust" { type R: ExternType; fn f(x: &R); }', rust='pub struct R; pub fn f(_: &R) {}')
row('C09', 'Rust type that derives ExternType', 'ok', 'extern "Rust" { #[derive(ExternType)] type R; fn f(x: &R); }', rust='pub struct R; pub fn f(_: &R) {}')
for lf in '', "'a":
    g, a, st = ("<'a>", "'a ", "'a") if lf else ('', '', '')
    for nm, bridge, rs, hd in (
            ('Rust method with nothing to return', 'fn m%s(self: &%sR) -> Result<()>; fn n%s(self: &%smut R, x: u8) -> Result<()>;' % (g, a, g, a), 'pub fn m(&self) -> Result<(), String> { Ok(()) } pub fn n(&mut self, _: u8) -> Result<(), String> { Ok(()) }', ''),
            ('Rust method with a value to return', 'fn m%s(self: &%sR%s) -> Result<&%sstr>;' % (g, a, ", x: &'a str" if lf else ', x: u8', a), "pub fn m<'b>(&'b self, _: &'b str) -> Result<&'b str, String> { todo!() }" if lf else "pub fn m(&self, _: u8) -> Result<&str, String> { todo!() }", ''),
    ):
        un = lambda t: t.replace('fn ', 'unsafe fn ') if lf else t
        row('C09', '%s, %s' % (nm, 'lifetime' if lf else 'no lifetime'), 'ok', 'extern "Rust" { type R; %s }' % un(bridge), rust='pub struct R; impl R { %s }' % rs)
