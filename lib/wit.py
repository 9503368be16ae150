"""The witness bridge: one declaration for every (type, position, direction,
fallibility) combination. Nothing here is executed; the generators expand it and
the result is compiled to LLVM IR for analysis."""


class T:
    def __init__(self, key, rust, cpp, size, res=(), triv=False, outer=None, life=False,
                 pair=None, fat=False, ret=True, cret=None, fl=False, indirect=None, unsafe=False, moved='zero', nullable=False, lt=False, only=False):
        self.key = key
        self.rust = rust            # inside the bridge
        self.cpp = cpp              # C++ spelling (user side)
        self.size = size
        self.res = list(res)        # owned resources: (offset, length, kind)
        self.triv = triv            # trivial for the purposes of the C++ calling convention
        self.outer = outer or rust  # outside the bridge module
        self.life = life            # is a borrow: returning it needs a borrowed argument
        self.pair = pair            # Rust ABI scalar pair [(off,size),(off,size)]
        self.fat = fat
        self.ret = ret
        self.unsafe = unsafe        # raw pointer
        self.nullable = nullable
        self.fn = None
        self.lt = lt                # mentions the lifetime 'a
        self.only = only            # only in hand-written signatures

    def __repr__(self):
        return 'T(%s)' % self.key


STR = 'string'
TYPES = []


def t(*a, **k):
    x = T(*a, **k)
    TYPES.append(x)
    return x


for r, c, s in [('bool', 'bool', 1), ('u8', 'std::uint8_t', 1), ('u16', 'std::uint16_t', 2),
                ('u32', 'std::uint32_t', 4), ('u64', 'std::uint64_t', 8), ('usize', 'std::size_t', 8),
                ('i8', 'std::int8_t', 1), ('i16', 'std::int16_t', 2), ('i32', 'std::int32_t', 4),
                ('i64', 'std::int64_t', 8), ('isize', 'rust::isize', 8), ('f32', 'float', 4),
                ('f64', 'double', 8)]:
    t(r, r, c, s, triv=True)
t('c_char', 'c_char', 'char', 1, triv=True, outer='std::os::raw::c_char')
# shared enums
t('E8', 'E8', 'E8', 1, triv=True, outer='ffi::E8')
t('E32', 'E32', 'E32', 4, triv=True, outer='ffi::E32')
# owned values
t('String', 'String', 'rust::String', 24, [(0, 24, 'String')])
for e, co in [('u8', 'std::uint8_t'), ('f64', 'double'), ('bool', 'bool'), ('String', 'rust::String'),
              ('Small', 'Small'), ('Owner', 'Owner'), ('R', 'R'), ('E8', 'E8'), ('Triv', 'Triv')]:
    o = e if e in ('u8', 'f64', 'bool', 'String') else ('ffi::' + e if e not in ('R', 'Triv') else e)
    t('Vec_' + e, 'Vec<%s>' % e, 'rust::Vec<%s>' % co, 24, [(0, 24, 'Vec')], outer='Vec<%s>' % o)
t('Box_R', 'Box<R>', 'rust::Box<R>', 8, [(0, 8, 'Box')])
for e, co, o in [('C', 'C', 'ffi::C'), ('CxxString', 'std::string', 'cxx::CxxString'),
                 ('CxxVector<u8>', 'std::vector<std::uint8_t>', 'cxx::CxxVector<u8>'),
                 ('CxxVector<CxxString>', 'std::vector<std::string>', 'cxx::CxxVector<cxx::CxxString>'),
                 ('CxxVector<C>', 'std::vector<C>', 'cxx::CxxVector<ffi::C>'),
                 ('CxxVector<Small>', 'std::vector<Small>', 'cxx::CxxVector<ffi::Small>'),
                 ('Small', 'Small', 'ffi::Small'), ('Owner', 'Owner', 'ffi::Owner'), ('Triv', 'Triv', 'Triv')]:
    k = e.replace('<', '_').replace('>', '')
    t('Up_' + k, 'UniquePtr<%s>' % e, 'std::unique_ptr<%s>' % co, 8, [(0, 8, 'UniquePtr')],
      outer='cxx::UniquePtr<%s>' % o, nullable=True)
for e, co, o in [('C', 'C', 'ffi::C'), ('i32', 'std::int32_t', 'i32'), ('CxxString', 'std::string', 'cxx::CxxString'),
                 ('Owner', 'Owner', 'ffi::Owner'), ('Triv', 'Triv', 'Triv')]:
    t('Sp_' + e, 'SharedPtr<%s>' % e, 'std::shared_ptr<%s>' % co, 16, [(0, 16, 'SharedPtr')],
      outer='cxx::SharedPtr<%s>' % o, nullable=True)
for e, co, o in [('C', 'C', 'ffi::C'), ('Owner', 'Owner', 'ffi::Owner')]:
    t('Wp_' + e, 'WeakPtr<%s>' % e, 'std::weak_ptr<%s>' % co, 16, [(0, 16, 'WeakPtr')],
      outer='cxx::WeakPtr<%s>' % o, nullable=True)
# shared structs
t('Small', 'Small', 'Small', 8, triv=True, outer='ffi::Small', pair=[(0, 1), (4, 4)])
t('Big', 'Big', 'Big', 40, triv=True, outer='ffi::Big')
t('Floats', 'Floats', 'Floats', 8, triv=True, outer='ffi::Floats', pair=[(0, 4), (4, 4)])
t('Arr', 'Arr', 'Arr', 24, triv=True, outer='ffi::Arr')
t('Wrap1', 'Wrap1', 'Wrap1', 1, triv=True, outer='ffi::Wrap1')
t('OneBox', 'OneBox', 'OneBox', 8, [(0, 8, 'Box')], outer='ffi::OneBox')
t('Owner', 'Owner', 'Owner', 64, [(0, 24, 'String'), (32, 8, 'Box'), (40, 24, 'Vec')], outer='ffi::Owner')
t('Ptrs', 'Ptrs', 'Ptrs', 40, [(0, 8, 'UniquePtr'), (8, 16, 'SharedPtr'), (24, 16, 'WeakPtr')], outer='ffi::Ptrs', nullable=True)
# trivially relocatable C++ types through an alias
t('Triv', 'Triv', 'Triv', 16, [(0, 16, 'Triv')], outer='Triv', pair=[(0, 8), (8, 8)])
# borrows
for k, r, c, o in [('rR', '&R', 'R const &', '&R'), ('mR', '&mut R', 'R &', '&mut R'),
                   ('rC', '&C', 'C const &', '&ffi::C'), ('pC', 'Pin<&mut C>', 'C &', 'std::pin::Pin<&mut ffi::C>'),
                   ('rString', '&String', 'rust::String const &', '&String'),
                   ('mString', '&mut String', 'rust::String &', '&mut String'),
                   ('rVec', '&Vec<u8>', 'rust::Vec<std::uint8_t> const &', '&Vec<u8>'),
                   ('mVec', '&mut Vec<String>', 'rust::Vec<rust::String> &', '&mut Vec<String>'),
                   ('rCS', '&CxxString', 'std::string const &', '&cxx::CxxString'),
                   ('pCS', 'Pin<&mut CxxString>', 'std::string &', 'std::pin::Pin<&mut cxx::CxxString>'),
                   ('rCV', '&CxxVector<C>', 'std::vector<C> const &', '&cxx::CxxVector<ffi::C>'),
                   ('pCV', 'Pin<&mut CxxVector<u8>>', 'std::vector<std::uint8_t> &', 'std::pin::Pin<&mut cxx::CxxVector<u8>>'),
                   ('rOwner', '&Owner', 'Owner const &', '&ffi::Owner'), ('mOwner', '&mut Owner', 'Owner &', '&mut ffi::Owner'),
                   ('rBox', '&Box<R>', 'rust::Box<R> const &', '&Box<R>'),
                   ('rUp', '&UniquePtr<C>', 'std::unique_ptr<C> const &', '&cxx::UniquePtr<ffi::C>'),
                   ('mUp', '&mut UniquePtr<C>', 'std::unique_ptr<C> &', '&mut cxx::UniquePtr<ffi::C>'),
                   ('rSp', '&SharedPtr<C>', 'std::shared_ptr<C> const &', '&cxx::SharedPtr<ffi::C>'),
                   ('ru64', '&u64', 'std::uint64_t const &', '&u64'), ('mi32', '&mut i32', 'std::int32_t &', '&mut i32'),
                   ('rE8', '&E8', 'E8 const &', '&ffi::E8'), ('rTriv', '&Triv', 'Triv const &', '&Triv'),
                   ('pTriv', 'Pin<&mut Triv>', 'Triv &', 'std::pin::Pin<&mut Triv>')]:
    if k == 'pTriv':
        continue
    t(k, r, c, 8, triv=True, outer=o, life=True)
for k, r, c, o in [('str', '&str', 'rust::Str', '&str'),
                   ('sl_u8', '&[u8]', 'rust::Slice<std::uint8_t const>', '&[u8]'),
                   ('ms_u32', '&mut [u32]', 'rust::Slice<std::uint32_t>', '&mut [u32]'),
                   ('sl_String', '&[String]', 'rust::Slice<rust::String const>', '&[String]'),
                   ('ms_Owner', '&mut [Owner]', 'rust::Slice<Owner>', '&mut [ffi::Owner]'),
                   ('sl_R', '&[R]', 'rust::Slice<R const>', '&[R]'),
                   ('sl_Triv', '&[Triv]', 'rust::Slice<Triv const>', '&[Triv]')]:
    t(k, r, c, 16, triv=True, outer=o, life=True, fat=True)
for k, r, c, o in [('pcC', '*const C', 'C const *', '*const ffi::C'), ('pmu8', '*mut u8', 'std::uint8_t *', '*mut u8'),
                   ('pmOwner', '*mut Owner', 'Owner *', '*mut ffi::Owner'), ('pcR', '*const R', 'R const *', '*const R')]:
    t(k, r, c, 8, triv=True, outer=o, unsafe=True)
# types with lifetimes
t('aR', "&'a R", 'R const &', 8, triv=True, outer="&'a R", lt=True, only=True)
t('aC', "&'a C", 'C const &', 8, triv=True, outer="&'a ffi::C", lt=True, only=True)
t('Box_Rl', "Box<Rl<'a>>", 'rust::Box<Rl>', 8, [(0, 8, 'Box')], outer="Box<Rl<'a>>", lt=True)
t('rRl', "&'a Rl<'a>", 'Rl const &', 8, triv=True, outer="&'a Rl<'a>", life=True, lt=True)
t('mRl', "&'a mut Rl<'a>", 'Rl &', 8, triv=True, outer="&'a mut Rl<'a>", life=True, lt=True)
t('Up_Cl', "UniquePtr<Cl<'a>>", 'std::unique_ptr<Cl>', 8, [(0, 8, 'UniquePtr')], outer="cxx::UniquePtr<ffi::Cl<'a>>", nullable=True, lt=True)
t('rCl', "&'a Cl<'a>", 'Cl const &', 8, triv=True, outer="&'a ffi::Cl<'a>", life=True, lt=True)
t('pCl', "Pin<&'a mut Cl<'a>>", 'Cl &', 8, triv=True, outer="std::pin::Pin<&'a mut ffi::Cl<'a>>", life=True, lt=True)
t('Sl', "Sl<'a>", 'Sl', 40, triv=True, outer="ffi::Sl<'a>", lt=True)
t('Vec_Sl', "Vec<Sl<'a>>", 'rust::Vec<Sl>', 24, [(0, 24, 'Vec')], outer="Vec<ffi::Sl<'a>>", lt=True)
FNS = []
for k, r, c, o, a, ret in [
        ('fn0', 'fn()', 'rust::Fn<void()>', 'fn()', [], None),
        ('fn1', 'fn(String, i32) -> Box<R>', 'rust::Fn<rust::Box<R>(rust::String, std::int32_t)>',
         'fn(String, i32) -> Box<R>', ['String', 'i32'], 'Box_R'),
        ('fn2', 'fn(UniquePtr<C>, &str, Small, Owner) -> Owner',
         'rust::Fn<Owner(std::unique_ptr<C>, rust::Str, Small, Owner)>',
         'fn(cxx::UniquePtr<ffi::C>, &str, ffi::Small, ffi::Owner) -> ffi::Owner', ['Up_C', 'str', 'Small', 'Owner'], 'Owner'),
        ('fn3', 'fn(u8, f64) -> u64', 'rust::Fn<std::uint64_t(std::uint8_t, double)>', 'fn(u8, f64) -> u64', ['u8', 'f64'], 'u64')]:
    x = t(k, r, c, 16, triv=True, outer=o, ret=False)
    x.fn = (a, ret)
    FNS.append(x)

BY = {x.key: x for x in TYPES}

SHARED = '''
    struct Small { a: u8, b: u32 }
    struct Big { a: u64, b: u32, c: u16, d: f64, e: bool, f: usize }
    struct Floats { x: f32, y: f32 }
    struct Arr { a: [u16; 5], s: [Small; 1], k: i8 }
    struct Wrap1 { a: u8 }
    struct OneBox { b: Box<R> }
    struct Owner { s: String, n: u32, b: Box<R>, v: Vec<u8> }
    struct Ptrs { u: UniquePtr<C>, s: SharedPtr<C>, w: WeakPtr<C> }
    struct Sl<'a> { s: &'a str, b: &'a [u8], n: u8 }
    enum E8 { A, B, C }
    #[repr(i32)]
    enum E32 { X = -5, Y, Z = 1000 }
'''


class F:
    """One bridged function."""

    def __init__(self, name, lang, args, ret, fallible, cls=None, selfkind=None, unsafe=False,
                 attrs='', declname=None, cppname=None, cppns='wit', cppsig=None):
        self.name = name
        self.lang = lang        # 'c' (defined in C++) or 'r' (defined in Rust)
        self.args = args        # list of T
        self.ret = ret          # T or None
        self.fallible = fallible
        self.cls = cls
        self.selfkind = selfkind
        self.unsafe = unsafe
        self.attrs = attrs                  # attributes in the bridge
        self.declname = declname or name    # the name it is declared with
        self.cppname = cppname or name
        self.cppns = cppns
        self.cppsig = cppsig                # demangled parameter list, to tell overloads apart
        self.lt = any(a.lt for a in args) or bool(ret and ret.lt)
        if self.lt and lang == 'r':
            self.unsafe = True          # required of Rust functions with explicit lifetimes

    @property
    def cppq(self):
        return '%s::%s%s' % (self.cppns, self.cls + '::' if self.cls else '', self.cppname)


def functions(types=None):
    out = []
    for lang in 'cr':
        for x in types or TYPES:
            if x.only or (lang == 'r' and not x.ret):
                continue    # callbacks only go from Rust to C++
            out.append(F('%s_arg_%s' % (lang, x.key), lang, [x], None, False, unsafe=x.unsafe))
            out.append(F('%s_tryarg_%s' % (lang, x.key), lang, [x], None, True, unsafe=x.unsafe))
            if x.ret:
                a = [x] if x.life else [BY['aR' if lang == 'r' else 'aC']] if x.lt else []
                out.append(F('%s_ret_%s' % (lang, x.key), lang, a, x, False))
                out.append(F('%s_try_%s' % (lang, x.key), lang, a, x, True))
        B = BY
        for k, (args, ret) in enumerate([
                (['u8', 'String', 'rC', 'f64', 'Up_C', 'bool'], 'Owner'),
                (['Owner', 'Box_R', 'Vec_u8', 'Sp_C', 'Small'], 'String'),
                (['String', 'String', 'i64'], None),
                (['Triv', 'Wp_C', 'str', 'sl_u8', 'i8'], 'Up_CxxString'),
                (['f32', 'f64', 'f32', 'i16', 'Floats', 'Big'], 'Floats'),
                (['u64', 'u64', 'u64', 'u64', 'u64', 'u64', 'u64', 'str'], 'Small')]):
            for fal in (False, True):
                out.append(F('%s_multi%d%s' % (lang, k, 't' if fal else ''), lang, [B[a] for a in args],
                             BY[ret] if ret else None, fal))
        # methods
        for cls, kinds in (('C' if lang == 'c' else 'R', ['ref', 'mut']), ('Small', ['ref', 'mut']), ('Owner', ['ref', 'mut'])):
            for sk in kinds:
                for k, (args, ret, fal) in enumerate([([], None, False), (['String'], 'Box_R', False),
                                                      (['Owner', 'u32'], 'String', True),
                                                      (['Up_C'], 'Up_C', True), (['i32'], 'i32', False)]):
                    out.append(F('%sm_%s_%s%d' % (lang, cls, sk, k), lang, [B[a] for a in args],
                                 BY[ret] if ret else None, fal, cls=cls, selfkind=sk))
        # renamed, namespaced and overloaded
        L = 'c' if lang == 'c' else 'r'
        K = 'C' if lang == 'c' else 'R'

        def extra(name, args, ret, fal=False, **k):
            out.append(F('%s_%s' % (L, name), lang, [B[a] for a in args], BY[ret] if ret else None, fal, **k))
        extra('ren1', ['String'], 'Box_R', attrs='#[cxx_name = "%sCxxName"]' % L, cppname=L + 'CxxName')
        extra('ren2', ['Small'], 'Owner', True, attrs='#[rust_name = "%s_ren2"]' % L, declname=L + 'Declared', cppname=L + 'Declared')
        extra('ns1', ['Owner'], 'String', attrs='#[namespace = "other::deep"]', cppns='other::deep')
        extra('ns2', ['Box_R'], 'Box_R', True, attrs='#[namespace = "other"] #[cxx_name = "%sInOther"]' % L, cppns='other', cppname=L + 'InOther')
        extra('twin1', ['u32'], 'u32', attrs='#[cxx_name = "%sTwin"]' % L, cppname=L + 'Twin')
        extra('twin2', ['u32'], 'u32', attrs='#[namespace = "other"] #[cxx_name = "%sTwin"]' % L, cppns='other', cppname=L + 'Twin')
        extra('mren', ['String'], 'String', cls=K, selfkind='ref', attrs='#[cxx_name = "%sMethod"]' % L, cppname=L + 'Method')
        extra('mren2', ['i32'], 'i32', True, cls='Owner', selfkind='mut', attrs='#[rust_name = "%s_mren2"]' % L, declname=L + 'Method2', cppname=L + 'Method2')
        if lang == 'c':
            extra('ov1', ['i32'], 'i32', attrs='#[rust_name = "c_ov1"]', declname='ov', cppname='ov', cppsig='int')
            extra('ov2', ['String'], 'String', attrs='#[rust_name = "c_ov2"]', declname='ov', cppname='ov', cppsig='rust::cxxbridge1::String')
            extra('ov3', ['Owner', 'u32'], 'Box_R', True, attrs='#[rust_name = "c_ov3"]', declname='ov', cppname='ov', cppsig='wit::Owner, unsigned int')
            extra('mov1', ['i32'], 'i32', cls='C', selfkind='ref', attrs='#[rust_name = "c_mov1"]', declname='mov', cppname='mov', cppsig='int')
            extra('mov2', ['String'], 'String', True, cls='C', selfkind='mut', attrs='#[rust_name = "c_mov2"]', declname='mov', cppname='mov', cppsig='rust::cxxbridge1::String')
    return out


def self_rust(f, outer=False):
    p = 'ffi::' if outer and f.cls != 'R' else ''
    if f.cls == 'C' and f.selfkind == 'mut':
        return ('std::pin::Pin<&mut %s%s>' if outer else 'Pin<&mut %s%s>') % (p, f.cls)
    return ('&' if f.selfkind == 'ref' else '&mut ') + p + f.cls


def rust_decl(f):
    args = []
    life = any(a.life for a in f.args) and f.ret is not None and f.ret.life
    if f.cls:
        args.append('self: ' + self_rust(f))
    for i, a in enumerate(f.args):
        args.append('a%d: %s' % (i, a.rust))
    s = ''
    if f.unsafe:
        s += 'unsafe '
    s = f.attrs + ' ' + s if f.attrs else s
    s += 'fn %s%s(%s)' % (f.declname, "<'a>" if f.lt else '', ', '.join(args))
    if f.fallible:
        s += ' -> Result<%s>' % (f.ret.rust if f.ret else '()')
    elif f.ret:
        s += ' -> ' + f.ret.rust
    return s + ';'


CUSTOM = '''
struct Other { const char *text() const; };
struct OtherS { const std::string &str() const; };
namespace rust { namespace behavior {
template <typename Try, typename Fail>
static void trycatch(Try &&func, Fail &&fail) noexcept try { func(); }
catch (const std::exception &e) { fail(e.what()); }
catch (const Other &e) { fail(e.text()); }
catch (const OtherS &e) { fail(e.str()); }
} }
'''


def gen(fns, custom=False):
    """Return dict of file name -> text."""
    rs = []
    o = rs.append
    o('#![allow(dead_code, unused, improper_ctypes_definitions, improper_ctypes, clippy::all)]')
    o('#[cxx::bridge(namespace = "wit")]\npub mod ffi {')
    o(SHARED)
    o('    unsafe extern "C++" {\n        include!("wit.h");\n        type C;\n        type Cl<\'a>;\n        type Triv = crate::Triv;')
    for f in fns:
        if f.lang == 'c':
            o('        ' + rust_decl(f))
    o('    }\n    extern "Rust" {\n        type R;\n        type Rl<\'a>;')
    for f in fns:
        if f.lang == 'r':
            o('        ' + rust_decl(f))
    o('    }')
    o('    impl Vec<Triv> {}\n    impl CxxVector<Small> {}\n    impl UniquePtr<Triv> {}\n    impl SharedPtr<Triv> {}\n    impl UniquePtr<Small> {}\n    impl UniquePtr<Owner> {}\n    impl SharedPtr<Owner> {}\n    impl WeakPtr<Owner> {}')
    o('}')
    o('pub struct R { pub x: String }')
    o("pub struct Rl<'a> { pub x: &'a str }")
    o('#[repr(C)] pub struct Triv { pub p: usize, pub q: usize }')
    o('unsafe impl cxx::ExternType for Triv { type Id = cxx::type_id!("wit::Triv"); type Kind = cxx::kind::Trivial; }')
    o('pub struct MyErr;')
    o('impl Drop for MyErr { #[inline(never)] fn drop(&mut self) { loop {} } }')
    o('impl std::fmt::Display for MyErr { #[inline(never)] fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }')
    # sinks
    used = {}
    for f in fns:
        if f.ret:
            used[f.ret.key] = f.ret
    for k, x in used.items():
        o('#[inline(never)] pub fn sink_%s%s(a: %s) { loop {} }' % (k, "<'a>" if x.lt else '', x.outer))
    o('#[inline(never)] pub fn user_fails() -> bool { loop {} }')
    o('#[inline(never)] pub fn sink_unit() { loop {} }')
    o('#[inline(never)] pub fn sink_err(ptr: *const u8, len: usize) { loop {} }')
    impls = {}
    for f in fns:
        if f.lang == 'r':
            args = []
            if f.cls:
                args.append('self: ' + self_rust(f, True))
            for i, a in enumerate(f.args):
                args.append('a%d: %s' % (i, a.outer))
            ret = f.ret.outer if f.ret else '()'
            un = 'unsafe ' if f.unsafe else ''
            g = "<'a>" if f.lt else ''
            if f.fallible:
                # the outcome is decided by the analysis at user_fails()
                al = (['self'] if f.cls else []) + ['a%d' % i for i in range(len(f.args))]
                q = 'Self::' if f.cls else ''
                s = ('pub %sfn %s%s(%s) -> Result<%s, MyErr> { if user_fails() { %serr_%s(%s); Err(MyErr) } else { Ok(%sok_%s(%s)) } }\n'
                     % (un, f.name, g, ', '.join(args), ret, q, f.name, ', '.join(al), q, f.name, ', '.join(al)))
                s += '#[inline(never)] pub %sfn ok_%s%s(%s) -> %s { loop {} }\n' % (un, f.name, g, ', '.join(args), ret)
                s += '#[inline(never)] pub %sfn err_%s%s(%s) { loop {} }' % (un, f.name, g, ', '.join(args))
            else:
                s = '#[inline(never)] pub %sfn %s%s(%s) -> %s { loop {} }' % (un, f.name, g, ', '.join(args), ret)
            if f.cls:
                impls.setdefault(f.cls, []).append(s)
            else:
                o(s)
        else:
            args = []
            names = []
            if f.cls:
                args.append('me: ' + self_rust(f, True))
            for i, a in enumerate(f.args):
                args.append('a%d: %s' % (i, a.outer))
                names.append('a%d' % i)
            call = ('me.%s(%s)' if f.cls else 'ffi::%s(%s)') % (f.name, ', '.join(names))
            if f.unsafe:
                call = 'unsafe { %s }' % call
            sink = 'sink_%s(v)' % f.ret.key if f.ret else '{ let () = v; sink_unit() }'
            if f.fallible:
                body = 'match %s { Ok(v) => %s, Err(e) => { let w = e.what(); sink_err(w.as_ptr(), w.len()); } }' % (call, sink)
            else:
                body = 'let v = %s; %s;' % (call, sink)
            o('#[inline(never)] pub fn p_%s%s(%s) { %s }' % (f.name, "<'a>" if f.lt else '', ', '.join(args), body))
    for c, ms in impls.items():
        o('impl %s {\n%s\n}' % (c if c == 'R' else 'ffi::' + c, '\n'.join(ms)))
    o('pub fn dummy_entry() {}')
    h = []
    w = h.append
    w('#pragma once\n#include "rust/cxx.h"\n#include <memory>\n#include <string>\n#include <vector>\n#include <cstdint>\n#include <exception>' + (CUSTOM if custom else ''))
    w('namespace wit {\nstruct R; struct Rl; struct Sl; class Cl; struct Small; struct Big; struct Floats; struct Arr; struct Wrap1; struct OneBox; struct Owner; struct Ptrs;')
    w('enum class E8 : std::uint8_t; enum class E32 : std::int32_t;')
    w('struct Triv { std::size_t p, q; Triv(Triv &&) noexcept; Triv(const Triv &); ~Triv(); using IsRelocatable = std::true_type; };')
    w('class C { public: C(const C &); ~C(); int f;')
    for f in fns:
        if f.lang == 'c' and f.cls == 'C':
            w('  ' + cpp_decl(f))
    w('};')
    w('class Cl { public: ~Cl(); };')
    for f in fns:
        if f.lang == 'c' and not f.cls:
            if f.cppns == 'wit':
                w(cpp_decl(f))
            else:
                w('}\nnamespace %s { using namespace ::wit; %s }\nnamespace wit {' % (f.cppns.replace('::', ' { namespace '), cpp_decl(f) + ' }' * f.cppns.count('::')))
    w('}')
    cc = []
    w = cc.append
    w('#include "wit.rs.h"\n#include <utility>\nnamespace wit {')
    w('template <typename T> struct Own { T *p; ~Own() { p->~T(); } };')
    for k, x in used.items():
        w('void sink_%s(%s);' % (k, x.cpp))
    for x in FNS:
        if not any(x in f.args for f in fns):
            continue
        a, r = x.fn
        ps, own, call = [], [], []
        for i, k in enumerate(a):
            y = BY[k]
            if y.triv:
                ps.append('%s a%d' % (y.cpp, i))
                call.append('a%d' % i)
            else:
                ps.append('%s *a%d' % (y.cpp, i))
                own.append('Own<%s> o%d{a%d};' % (y.cpp, i, i))
                call.append('std::move(*a%d)' % i)
        e = '(*f)(%s)' % ', '.join(call)
        w('void sink_unit(); void q_%s(%s) { %s %s }' % (
            x.key, ', '.join([x.cpp + ' const *f'] + ps), ' '.join(own), 'sink_%s(%s);' % (BY[r].key, e) if r else e + '; sink_unit();'))
    w('void sink_unit(); void sink_err(const char *); void sink_other();')
    for f in fns:
        if f.lang != 'r':
            continue
        ps = []
        own = []
        call = []
        if f.cls:
            ps.append('%s %s&me' % (f.cls, 'const ' if f.selfkind == 'ref' else ''))
        for i, a in enumerate(f.args):
            if a.triv:
                ps.append('%s a%d' % (a.cpp, i))
                call.append('a%d' % i)
            else:
                ps.append('%s *a%d' % (a.cpp, i))
                own.append('Own<%s> o%d{a%d};' % (a.cpp, i, i))
                call.append('std::move(*a%d)' % i)
        e = 'me.%s(%s)' % (f.cppname, ', '.join(call)) if f.cls else '::%s(%s)' % (f.cppq, ', '.join(call))
        body = 'sink_%s(%s);' % (f.ret.key, e) if f.ret else e + '; sink_unit();'
        if f.fallible:
            body = 'try { %s } catch (const rust::Error &e) { sink_err(e.what()); } catch (...) { sink_other(); }' % body
        w('void p_%s(%s) { %s %s }' % (f.name, ', '.join(ps), ' '.join(own), body))
    w('}')
    return {'wit.rs': '\n'.join(rs) + '\n', 'wit.h': '\n'.join(h) + '\n', 'probe.cc': '\n'.join(cc) + '\n'}


def cpp_decl(f):
    return '%s %s(%s)%s;' % (f.ret.cpp if f.ret else 'void', f.cppname,
                             ', '.join('%s a%d' % (a.cpp, i) for i, a in enumerate(f.args)),
                             ' const' if f.cls and f.selfkind == 'ref' else '')
