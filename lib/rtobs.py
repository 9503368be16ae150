"""The operations of the runtime library, each as seen from the other language, and what it has to be the same as."""
import re

RULE = ('relational dataflow: on every path the operation returns the same value, leaves the same memory behind and has the same effects (destructions, allocations, '
        'copies, growth, exceptions) as its reference, a direct use of the wrapped type in its own language; both are followed through the LLVM IR of cxx.cc, cxx.h, the '
        'cxx crate and generated code, on the same provenance-labelled inputs')

SCALARS = {  # C++ type, Rust type, size
    'usize': ('std::size_t', 'usize', 8), 'isize': ('std::ptrdiff_t', 'isize', 8), 'bool': ('bool', 'bool', 1),
    'u8': ('std::uint8_t', 'u8', 1), 'i32': ('std::int32_t', 'i32', 4), 'u32': ('std::uint32_t', 'u32', 4), 'i8': ('std::int8_t', 'i8', 1),
}
PRIMS = {  # rust name: (C++ type, size)
    'bool': ('bool', 1), 'u8': ('std::uint8_t', 1), 'u16': ('std::uint16_t', 2), 'u32': ('std::uint32_t', 4), 'u64': ('std::uint64_t', 8), 'usize': ('std::size_t', 8),
    'i8': ('std::int8_t', 1), 'i16': ('std::int16_t', 2), 'i32': ('std::int32_t', 4), 'i64': ('std::int64_t', 8), 'isize': ('rust::isize', 8), 'f32': ('float', 4), 'f64': ('double', 8),
    'c_char': ('char', 1),
}
TYPES = dict(PRIMS)
TYPES.update({'String': ('rust::String', 24), '&str': ('rust::Str', 16), 'ffi::Sh': ('rt::Sh', 40), 'ffi::P': ('rt::P', 12), 'R': ('rt::R', 16), 'ffi::E': ('rt::E', 1),
              'ffi::C': ('rt::C', 8), 'Tk': ('rt::Tk', 8), 'CxxString': ('std::string', 32)})


def ct(t):
    return TYPES[t][0]


def rt(t):
    return {'c_char': 'core::ffi::c_char', '&str': "&'static str", 'ffi::L': "ffi::L<'static>"}.get(t, t)


def elem(k):
    m = re.match(r'\w+<(.*)>$', k)
    return m.group(1) if m else None


def size_of(k):
    if k.startswith('raw'):
        return int(k[3:])
    f = k.split('<')[0]
    n = {'String': 24, 'Str': 16, 'Slice': 16, 'MutSlice': 16, 'Vec': 24, 'Box': 8, 'std': 32, 'stdvec': 24, 'UP': 8, 'UPV': 8, 'SP': 16, 'WP': 16, 'Iter': 16, 'CIter': 16, 'VIter': 16, 'Err': 24}.get(f)
    if n:
        return n
    if f == 'obj':
        return TYPES[elem(k)][1]
    raise KeyError(k)


def elem_size(k):
    return TYPES[elem(k)][1]


def bools_of(k):
    if k == 'obj<ffi::P>':
        return [8]
    if k == 'obj<bool>':
        return [0]
    return TYPE_BOOLS.get(elem(k), []) if k.startswith('obj<') else []


def decl(k, lang, names):
    """The C++ or Rust type of a parameter."""
    m = re.match(r'=(\w+)$', k)
    if m:
        return decl(names[m.group(1)], lang, names)
    m = re.match(r'elem\((\w+)\)$', k)
    if m:
        t = elem(names[m.group(1)])
        return ct(t) + ' *' if lang == 'c' else '*mut ' + rt(t)
    if k in SCALARS:
        return SCALARS[k][0 if lang == 'c' else 1]
    if k == 'ptr':
        return 'const char *' if lang == 'c' else '*const u8'
    if k == 'ptr16':
        return 'const char16_t *' if lang == 'c' else '*const u16'
    f, e = k.split('<')[0], elem(k)
    if f.startswith('raw'):
        return 'void *' if lang == 'c' else '*mut u8'
    c, r = {
        'String': lambda: ('rust::String *', '*mut String'),
        'Str': lambda: ('rust::Str *', "*mut &'static str"),
        'Slice': lambda: ('rust::Slice<const %s> *' % ct(e), "*mut &'static [%s]" % rt(e)),
        'MutSlice': lambda: ('rust::Slice<%s> *' % ct(e), "*mut &'static mut [%s]" % rt(e)),
        'Vec': lambda: ('rust::Vec<%s> *' % ct(e), '*mut Vec<%s>' % rt(e)),
        'Box': lambda: ('rust::Box<%s> *' % ct(e), '*mut Box<%s>' % rt(e)),
        'std': lambda: ('std::string *', '*mut CxxString'),
        'stdvec': lambda: ('std::vector<%s> *' % ct(e), '*mut CxxVector<%s>' % rt(e)),
        'UP': lambda: ('std::unique_ptr<%s> *' % ct(e), '*mut UniquePtr<%s>' % rt(e)),
        'UPV': lambda: ('std::unique_ptr<std::vector<%s>> *' % ct(e), '*mut UniquePtr<CxxVector<%s>>' % rt(e)),
        'SP': lambda: ('std::shared_ptr<%s> *' % ct(e), '*mut SharedPtr<%s>' % rt(e)),
        'WP': lambda: ('std::weak_ptr<%s> *' % ct(e), '*mut WeakPtr<%s>' % rt(e)),
        'Iter': lambda: ('typename rust::Slice<%s>::iterator *' % ct(e), '*mut u8'),
        'CIter': lambda: ('typename rust::Slice<const %s>::iterator *' % ct(e), '*mut u8'),
        'Err': lambda: ('rust::Error *', '*mut u8'),
        'obj': lambda: (ct(e) + ' *', '*mut ' + rt(e)),
        'VIter': lambda: ('void *', "*mut cxx::vector::Iter<'static, %s>" % rt(e)),
    }[f]()
    return c if lang == 'c' else r


class Ob:
    pass


OBS = []
CUR = 'rt'      # the witness program the operations are part of
WITNESS = {}
TYPE_BOOLS = {}     # where in a type there is a bool
STDS = ('c++11', 'c++14', 'c++17', 'c++20')


def also(ref):
    """Another acceptable meaning of the last operation."""
    o = OBS[-1]
    q = Ob()
    q.__dict__.update(o.__dict__)
    q.num = '%s_%d' % (o.num, len(o.alts))
    q.refb = (ref[:1], ref[2:].strip())
    o.alts.append(q)


def ob(props, name, params, ret, impl, ref, variants=None):
    o = Ob()
    o.props = props.split()
    o.name = name
    # a trailing ! marks an object that does not exist any more afterwards
    ps = [tuple(x.split(':', 1)) for x in params.split(' ') if x]
    o.params = [(n, k.rstrip('!')) for n, k in ps]
    o.gone = {n for n, k in ps if k.endswith('!')}
    o.ret = ret
    o.impl = (impl[:1], impl[2:].strip())
    o.refb = (ref[:1], ref[2:].strip())
    o.variants = variants
    o.num = len(OBS)
    o.wit = CUR
    o.stds = STDS
    o.alts = []
    OBS.append(o)
    return o


def lens(*names, upto=3):
    out = [{}]
    for n in names:
        out = [dict(d, **{n: i}) for d in out for i in range(upto)]
    return out


def text_of(o, which):
    lang, body = o.impl if which == 'i' else o.refb
    names = dict(o.params)
    if lang == 'c':
        ret = {'void': 'void', 'ptr': 'const void *'}.get(o.ret) or SCALARS[o.ret][0]
        return lang, 'extern "C" %s %s_%s(%s) {\n  %s\n}\n' % (ret, which, o.num, ', '.join('%s %s' % (decl(k, 'c', names), n) for n, k in o.params), body)
    ret = {'void': '', 'ptr': '-> *const u8'}.get(o.ret)
    if ret is None:
        ret = '-> ' + SCALARS[o.ret][1]
    return lang, '#[no_mangle] pub unsafe extern "C-unwind" fn %s_%s(%s) %s {\n  %s\n}\n' % (which, o.num, ', '.join('%s: %s' % (n, decl(k, 'r', names)) for n, k in o.params), ret, body)


# ================================================================== rust::String
W = 'C01 C26'
ob(W, 'String::size', 's:String', 'usize', 'c: return s->size();', 'r: (*s).len()')
ob(W, 'String::length', 's:String', 'usize', 'c: return s->length();', 'r: (*s).len()')
ob(W, 'String::empty', 's:String', 'bool', 'c: return s->empty();', 'r: (*s).is_empty()')
ob(W, 'String::data', 's:String', 'ptr', 'c: return s->data();', 'r: (*s).as_ptr()')
ob('C01', 'String::capacity', 's:String', 'usize', 'c: return s->capacity();', 'r: (*s).capacity()')
for m in 'begin', 'cbegin':
    ob(W, 'String::' + m, 's:String', 'ptr', 'c: const rust::String &c = *s; return c.%s();' % m, 'r: (*s).as_ptr()')
for m in 'end', 'cend':
    ob(W, 'String::' + m, 's:String', 'ptr', 'c: const rust::String &c = *s; return c.%s();' % m, 'r: (*s).as_ptr().add((*s).len())')
ob(W, 'String::begin mutable', 's:String', 'ptr', 'c: return s->begin();', 'r: (*s).as_ptr()')
ob(W, 'String::end mutable', 's:String', 'ptr', 'c: return s->end();', 'r: (*s).as_ptr().add((*s).len())')
ob('C01 C06', 'String::reserve', 's:String n:usize', 'void', 'c: s->reserve(n);', 'r: if n > (*s).capacity() { let l = (*s).len(); (*s).reserve(n - l) }')
ob('C01 C26', 'String::c_str', 's:String', 'ptr', 'c: return s->c_str();', 'r: (*s).reserve(1); let p = (*s).as_mut_ptr(); *p.add((*s).len()) = 0; p')
ob('C01 C06 C14 C26', 'String::String()', 'o:raw24', 'void', 'c: new (o) rust::String();', 'r: (o as *mut String).write(String::new())')
ob('C01 C06', 'String::~String', 's:String', 'void', 'c: s->~String();', 'r: s.drop_in_place()')
ob('C01 C06', 'String(const String &)', 'o:raw24 s:String', 'void', 'c: new (o) rust::String(*s);', 'r: (o as *mut String).write((*s).clone())')
ob('C01 C06', 'String(String &&)', 'o:raw24 s:String', 'void', 'c: new (o) rust::String(std::move(*s));', 'r: (o as *mut String).write(core::mem::take(&mut *s))')
ob('C01 C06', 'String = const String &', 'a:String b:String', 'void', 'c: *a = *b;', 'r: let c = (*b).clone(); *a = c;')
ob('C01 C06', 'String = String &&', 'a:String b:String', 'void', 'c: *a = std::move(*b);', 'r: let c = core::mem::take(&mut *b); *a = c;')
ob('C06', 'String = itself', 'a:String b:=a', 'void', 'c: *a = *b;', 'r: ')
also('r: let c = (*a).clone(); *a = c;')
ob('C06', 'String::swap', 'a:String b:String', 'void', 'c: a->swap(*b);', 'r: core::mem::swap(&mut *a, &mut *b)')
ob('C06', 'swap(String, String)', 'a:String b:String', 'void', 'c: using std::swap; swap(*a, *b);', 'r: core::mem::swap(&mut *a, &mut *b)')
ob('C06', 'String::swap with itself', 'a:String b:=a', 'void', 'c: a->swap(*b);', 'r: ')
ob('C06', 'String = itself moved, destroyed', 'a:String! b:=a', 'void', 'c: *a = std::move(*b); a->~String();', 'r: a.drop_in_place()')
ob('C06', 'String = moved-from String', 'o:raw24 a:String b:String', 'void', 'c: new (o) rust::String(std::move(*b)); *a = std::move(*b);', 'r: (o as *mut String).write(core::mem::take(&mut *b)); *a = String::new();')
ob('C06', 'String moved, assigned, destroyed', 'o:raw24 a:String b:String', 'void', 'c: new (o) rust::String(std::move(*a)); *a = *b; a->~String();',
   'r: (o as *mut String).write(core::mem::take(&mut *a)); *a = (*b).clone(); a.drop_in_place();')
ob('C06', 'String by value and back', 's:String o:raw24', 'void', 'c: rust::String x(std::move(*s)); rust::String y(x); x = std::move(y); new (o) rust::String(std::move(x));',
   'r: let x = core::mem::take(&mut *s); let y = x.clone(); drop(x); (o as *mut String).write(y)')
BAD = 'r_throw("")'
NUL = '(const char *)(s == nullptr && n == 0 ? (const char *)1 : s)'
for nm, ps, cpp, ref in (
        ('const char *, size_t', 's:ptr n:usize', 's, n', '%s, n' % NUL), ('const char *', 's:ptr', 's', 's, std::strlen(s)'), ('const std::string &', 's:std', '*s', 's->data(), s->size()')):
    pre = '' if nm == 'const std::string &' else 'assert(s != nullptr%s); ' % (' || n == 0' if 'size_t' in nm else '')
    for cls, sz in ('String', 24), ('Str', 16):
        ob('C01 C14 C26', '%s(%s)' % (cls, nm), 'o:raw%d ' % sz + ps, 'void', 'c: new (o) rust::%s(%s);' % (cls, cpp),
           'c: %sif (!r_from_utf8_%s(o, %s)) throw std::invalid_argument("");' % (pre, cls.lower(), ref))
    ob('C01 C14 C26', 'String::lossy(%s)' % nm, 'o:raw24 ' + ps, 'void', 'c: new (o) rust::String(rust::String::lossy(%s));' % cpp, 'c: %sr_lossy(o, %s);' % (pre, ref))
NUL16 = '(const char16_t *)(s == nullptr && n == 0 ? (const char16_t *)2 : s)'
for nm, ps, cpp, ref in (('const char16_t *, size_t', 's:ptr16 n:usize', 's, n', '%s, n' % NUL16), ('const char16_t *', 's:ptr16', 's', 's, std::char_traits<char16_t>::length(s)')):
    pre = 'assert(s != nullptr%s); assert(!(reinterpret_cast<std::uintptr_t>(s) %% 2)); ' % (' || n == 0' if 'size_t' in nm else '')
    ob('C01 C14 C26', 'String(%s)' % nm, 'o:raw24 ' + ps, 'void', 'c: new (o) rust::String(%s);' % cpp, 'c: %sif (!r_from_utf16(o, %s)) throw std::invalid_argument("");' % (pre, ref))
    ob('C01 C14 C26', 'String::lossy(%s)' % nm, 'o:raw24 ' + ps, 'void', 'c: new (o) rust::String(rust::String::lossy(%s));' % cpp, 'c: %sr_lossy16(o, %s);' % (pre, ref))
ob('C26', 'String to std::string', 'o:raw32 s:String', 'void', 'c: new (o) std::string(static_cast<std::string>(*s));', 'c: new (o) std::string((const char *)r_data(s), r_len(s));')
RELS = [('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')]
for op, f in RELS:
    ob('C26', 'String %s String' % op, 'a:String b:String', 'bool', 'c: const rust::String &x = *a, &y = *b; return x %s y;' % op, 'r: *a %s *b' % op, lens('a', 'b'))
    ob('C26', 'Str %s Str' % op, 'a:Str b:Str', 'bool', 'c: const rust::Str &x = *a, &y = *b; return x %s y;' % op, 'r: *a %s *b' % op, lens('a', 'b'))
# ================================================================== rust::Str
ob('C01 C26 C14', 'Str::Str()', 'o:raw16', 'void', 'c: new (o) rust::Str();', "r: (o as *mut &'static str).write(\"\")")
ob('C01 C26 C14', 'Str(const String &)', 'o:raw16 s:String', 'void', 'c: new (o) rust::Str(*s);', "r: (o as *mut &'static str).write((*s).as_str())")
ob('C06', 'Str(const Str &)', 'o:raw16 s:Str', 'void', 'c: new (o) rust::Str(*s);', "r: (o as *mut &'static str).write(*s)")
ob('C06', 'Str = const Str &', 'a:Str b:Str', 'void', 'c: *a = *b;', 'r: *a = *b')
ob('C06', 'Str::swap', 'a:Str b:Str', 'void', 'c: a->swap(*b);', 'r: core::mem::swap(&mut *a, &mut *b)')
ob(W, 'Str::size', 's:Str', 'usize', 'c: return s->size();', 'r: (*s).len()')
ob(W, 'Str::length', 's:Str', 'usize', 'c: return s->length();', 'r: (*s).len()')
ob(W, 'Str::empty', 's:Str', 'bool', 'c: return s->empty();', 'r: (*s).is_empty()')
ob(W, 'Str::data', 's:Str', 'ptr', 'c: return s->data();', 'r: (*s).as_ptr()')
for m in 'begin', 'cbegin':
    ob(W, 'Str::' + m, 's:Str', 'ptr', 'c: return s->%s();' % m, 'r: (*s).as_ptr()')
for m in 'end', 'cend':
    ob(W, 'Str::' + m, 's:Str', 'ptr', 'c: return s->%s();' % m, 'r: (*s).as_ptr().add((*s).len())')
ob('C26', 'Str to std::string', 'o:raw32 s:Str', 'void', 'c: new (o) std::string(static_cast<std::string>(*s));', 'c: new (o) std::string((const char *)r_str_data(s), r_str_len(s));')
STDS, all_ = ('c++17', 'c++20'), STDS
ob('C26', 'Str to std::string_view data', 's:Str', 'ptr', 'c: return static_cast<std::string_view>(*s).data();', 'r: (*s).as_ptr()')
ob('C26', 'Str to std::string_view size', 's:Str', 'usize', 'c: return static_cast<std::string_view>(*s).size();', 'r: (*s).len()')
STDS = ('c++20',)
for nm, ps, cpp, ref in (('const char8_t *, size_t', 's:ptr n:usize', '(const char8_t *)s, n', '%s, n' % NUL), ('const char8_t *', 's:ptr', '(const char8_t *)s', 's, std::strlen(s)')):
    pre = 'assert(s != nullptr%s); ' % (' || n == 0' if 'size_t' in nm else '')
    ob('C01 C14 C26', 'String(%s)' % nm, 'o:raw24 ' + ps, 'void', 'c: new (o) rust::String(%s);' % cpp, 'c: %sif (!r_from_utf8_string(o, %s)) throw std::invalid_argument("");' % (pre, ref))
STDS = all_


# ================================================================== rust::Slice
for t in 'u8', 'i32', 'f64', 'String', 'ffi::Sh', 'R', 'ffi::P':
    for k, c, mut in ('Slice', 'const ' + ct(t), ''), ('MutSlice', ct(t), 'mut '):
        S = 'rust::Slice<%s>' % c
        K = '%s<%s>' % (k, t)
        ob('C01 C15', '%s::size' % S, 's:' + K, 'usize', 'c: return s->size();', 'r: (*s).len()')
        ob('C01 C15', '%s::length' % S, 's:' + K, 'usize', 'c: return s->length();', 'r: (*s).len()')
        ob('C01 C15', '%s::empty' % S, 's:' + K, 'bool', 'c: return s->empty();', 'r: (*s).is_empty()')
        ob('C01 C15 C26', '%s::data' % S, 's:' + K, 'ptr', 'c: return s->data();', 'r: (*s).as_ptr() as *const u8')
        ob('C15', '%s[n]' % S, 's:%s n:usize' % K, 'ptr', 'c: return &(*s)[n];', 'r: if n >= (*s).len() { std::process::abort() } (*s).as_ptr().add(n) as *const u8')
        ob('C15', '%s::at' % S, 's:%s n:usize' % K, 'ptr', 'c: return &s->at(n);', 'c: if (n >= r_slice_len(s)) throw std::out_of_range(""); return r_slice_data(s) + n * %d;' % TYPES[t][1])
        ob('C15', '%s::front' % S, 's:' + K, 'ptr', 'c: return &s->front();', 'r: if (*s).is_empty() { std::process::abort() } (*s).as_ptr() as *const u8')
        ob('C15', '%s::back' % S, 's:' + K, 'ptr', 'c: return &s->back();', 'r: if (*s).is_empty() { std::process::abort() } (*s).as_ptr().add((*s).len() - 1) as *const u8')
        ob('C01 C15 C26', '%s(ptr, n)' % S, 'o:raw16 s:ptr n:usize', 'void', 'c: new (o) %s((%s *)s, n);' % (S, c),
           "c: assert(s != nullptr || n == 0); r_slice_make(o, s == nullptr && n == 0 ? (const char *)%s : s, n);" % {'u8': 1, 'i32': 4, 'ffi::P': 4}.get(t, 8))
        ob('C01 C15 C26', '%s()' % S, 'o:raw16', 'void', 'c: new (o) %s();' % S, "r: (o as *mut &'static %s[%s]).write(&%s[])" % (mut, rt(t), mut))
        ob('C06', '%s(const Slice &)' % S, 'o:raw16 s:' + K, 'void', 'c: new (o) %s(*s);' % S, 'c: std::memcpy(o, (void *)s, 16);')
        ob('C06', '%s = Slice &&' % S, 'a:%s b:%s' % (K, K), 'void', 'c: *a = std::move(*b);', 'c: std::memcpy((void *)a, (void *)b, 16);')
        for c2, k2 in ('rust::Vec', 'Vec'), ('std::vector', 'stdvec'):
            if t == 'R' and k2 == 'stdvec':
                continue
            ob('C01 C15 C26', '%s(%s)' % (S, c2), 'o:raw16 v:%s<%s>' % (k2, t), 'void', 'c: new (o) %s(*v);' % S,
               'c: r_slice_make(o, r_vec_data(v), r_vec_len(v));' if k2 == 'Vec' else 'c: r_slice_make(o, v->data() == nullptr ? (const char *)alignof(%s) : (const char *)v->data(), v->size());' % ct(t))
        ob('C06', '%s::swap' % S, 'a:%s b:%s' % (K, K), 'void', 'c: a->swap(*b);', 'r: core::mem::swap(&mut *a, &mut *b)')
        # iteration
        def addr(i, n=TYPES[t][1]):
            return '(const char *)&%s' % i
        z = TYPES[t][1]
        ob('C29', '%s iterator: begin' % S, 's:' + K, 'ptr', 'c: return &*s->begin();', 'r: (*s).as_ptr() as *const u8')
        ob('C29', '%s iterator: end' % S, 's:' + K, 'ptr', 'c: return &*s->end();', 'r: (*s).as_ptr().add((*s).len()) as *const u8')
        ob('C29', '%s iterator: begin + n' % S, 's:%s n:isize' % K, 'ptr', 'c: return &*(s->begin() + n);', 'r: ((*s).as_ptr() as *const u8).offset(n * %d)' % z)
        ob('C29', '%s iterator: n + begin' % S, 's:%s n:isize' % K, 'ptr', 'c: return &*(n + s->begin());', 'r: ((*s).as_ptr() as *const u8).offset(n * %d)' % z)
        ob('C29', '%s iterator: end - n' % S, 's:%s n:isize' % K, 'ptr', 'c: return &*(s->end() - n);', 'r: ((*s).as_ptr().add((*s).len()) as *const u8).offset(-n * %d)' % z)
        ob('C29', '%s iterator: begin[n]' % S, 's:%s n:isize' % K, 'ptr', 'c: return &s->begin()[n];', 'r: ((*s).as_ptr() as *const u8).offset(n * %d)' % z)
        ob('C29', '%s iterator: ->' % S, 's:' + K, 'ptr', 'c: return s->begin().operator->();', 'r: (*s).as_ptr() as *const u8')
        ob('C29', '%s iterator: ++i' % S, 's:' + K, 'ptr', 'c: auto i = s->begin(); auto &j = ++i; if (&i != &j) std::abort(); return &*i;', 'r: ((*s).as_ptr() as *const u8).add(%d)' % z)
        ob('C29', '%s iterator: i++' % S, 's:' + K, 'usize', 'c: auto i = s->begin(); auto j = i++; return (const char *)&*i - (const char *)&*j;', 'r: %d' % z)
        ob('C29', '%s iterator: i++ is the old one' % S, 's:' + K, 'ptr', 'c: auto i = s->begin(); auto j = i++; return &*j;', 'r: (*s).as_ptr() as *const u8')
        ob('C29', '%s iterator: --i' % S, 's:' + K, 'ptr', 'c: auto i = s->end(); auto &j = --i; if (&i != &j) std::abort(); return &*i;', 'r: ((*s).as_ptr().add((*s).len()) as *const u8).sub(%d)' % z)
        ob('C29', '%s iterator: i--' % S, 's:' + K, 'ptr', 'c: auto i = s->end(); auto j = i--; return &*j;', 'r: (*s).as_ptr().add((*s).len()) as *const u8')
        ob('C29', '%s iterator: after i--' % S, 's:' + K, 'ptr', 'c: auto i = s->end(); auto j = i--; return &*i;', 'r: ((*s).as_ptr().add((*s).len()) as *const u8).sub(%d)' % z)
        ob('C29', '%s iterator: i += n' % S, 's:%s n:isize' % K, 'ptr', 'c: auto i = s->begin(); auto &j = (i += n); if (&i != &j) std::abort(); return &*i;', 'r: ((*s).as_ptr() as *const u8).offset(n * %d)' % z)
        ob('C29', '%s iterator: i -= n' % S, 's:%s n:isize' % K, 'ptr', 'c: auto i = s->end(); auto &j = (i -= n); if (&i != &j) std::abort(); return &*i;', 'r: ((*s).as_ptr().add((*s).len()) as *const u8).offset(-n * %d)' % z)
        ob('C29', '%s iterator: end - begin' % S, 's:' + K, 'isize', 'c: return s->end() - s->begin();', 'r: (*s).len() as isize')
        ob('C29', '%s iterator: begin + n - begin' % S, 's:%s n:isize' % K, 'isize', 'c: auto i = s->begin(); return (i + n) - i;', 'r: n', [dict(n=x) for x in (0, 1, 2, 7, 2 ** 64 - 1, 2 ** 64 - 3)])
        ob('C29', '%s iterator: begin - end' % S, 's:' + K, 'isize', 'c: return s->begin() - s->end();', 'r: -((*s).len() as isize)')
        for op, f in RELS:
            for i, j in (0, 0), (0, 1), (1, 0), (2, 5):
                ob('C29', '%s iterator: begin + %d %s begin + %d' % (S, i, op, j), 's:' + K, 'bool', 'c: return s->begin() + %d %s s->begin() + %d;' % (i, op, j), 'r: %d %s %d' % (i, op, j))
        ob('C29', '%s range for' % S, 's:' + K, 'void', 'c: for (auto &x : *s) visit(&x);', 'r: for x in (*s).iter() { visit(x as *const _ as *const u8) }', lens('s', upto=5))

# ================================================================== rust::Vec
for t in ['bool', 'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'f32', 'f64', 'c_char', 'String', '&str', 'ffi::Sh', 'ffi::P', 'R', 'ffi::E', 'Tk']:
    V = 'rust::Vec<%s>' % ct(t)
    K = 'Vec<%s>' % t
    RV = 'Vec<%s>' % rt(t)
    z = TYPES[t][1]
    ob('C01 C15', V + '::size', 'v:' + K, 'usize', 'c: return v->size();', 'r: (*v).len()')
    ob('C01 C15', V + '::empty', 'v:' + K, 'bool', 'c: return v->empty();', 'r: (*v).is_empty()')
    ob('C01', V + '::capacity', 'v:' + K, 'usize', 'c: return v->capacity();', 'r: (*v).capacity()')
    ob('C01 C15 C26', V + '::data', 'v:' + K, 'ptr', 'c: return const_cast<const %s *>(v)->data();' % V, 'r: (*v).as_ptr() as *const u8')
    ob('C01 C15 C26', V + '::data mutable', 'v:' + K, 'ptr', 'c: return v->data();', 'r: (*v).as_ptr() as *const u8')
    ob('C01 C06 C26', V + '()', 'o:raw24', 'void', 'c: new (o) %s();' % V, 'r: (o as *mut %s).write(Vec::new())' % RV)
    ob('C01 C06', V + '::~Vec', 'v:' + K, 'void', 'c: v->~Vec();', 'r: v.drop_in_place()')
    ob('C01 C06', V + '::reserve', 'v:%s n:usize' % K, 'void', 'c: v->reserve(n);', 'r: if n > (*v).capacity() { let l = (*v).len(); (*v).reserve(n - l) }')
    ob('C01 C06', V + '::truncate', 'v:%s n:usize' % K, 'void', 'c: v->truncate(n);', 'r: (*v).truncate(n)')
    ob('C01 C06', V + '::clear', 'v:%s' % K, 'void', 'c: v->clear();', 'r: (*v).truncate(0)')
    ob('C06', V + '(Vec &&)', 'o:raw24 v:' + K, 'void', 'c: new (o) %s(std::move(*v));' % V, 'r: (o as *mut %s).write(core::mem::take(&mut *v))' % RV)
    ob('C06', V + ' = Vec &&', 'a:%s b:%s' % (K, K), 'void', 'c: *a = std::move(*b);', 'r: let c = core::mem::take(&mut *b); *a = c;')
    ob('C06', V + ' = itself moved, destroyed', 'a:%s! b:=a' % K, 'void', 'c: *a = std::move(*b); a->~Vec();', 'r: a.drop_in_place()')
    ob('C06', V + ' = moved-from Vec', 'a:%s b:%s o:raw24' % (K, K), 'void', 'c: new (o) %s(std::move(*b)); *a = std::move(*b);' % V, 'r: (o as *mut %s).write(core::mem::take(&mut *b)); *a = Vec::new();' % RV)
    ob('C06', V + '::swap', 'a:%s b:%s' % (K, K), 'void', 'c: a->swap(*b);', 'r: core::mem::swap(&mut *a, &mut *b)')
    ob('C06', 'swap(%s)' % V, 'a:%s b:%s' % (K, K), 'void', 'c: using std::swap; swap(*a, *b);', 'r: core::mem::swap(&mut *a, &mut *b)')
    for q, c in ('', ''), (' const', 'const '):
        ob('C15', V + '[n]' + q, 'v:%s n:usize' % K, 'ptr', 'c: %s%s &w = *v; return &w[n];' % (c, V), 'r: if n >= (*v).len() { std::process::abort() } (*v).as_ptr().add(n) as *const u8')
        ob('C15', V + '::at' + q, 'v:%s n:usize' % K, 'ptr', 'c: %s%s &w = *v; return &w.at(n);' % (c, V), 'c: if (n >= r_vec_len(v)) throw std::out_of_range(""); return r_vec_data(v) + n * %d;' % z)
        ob('C15', V + '::front' + q, 'v:' + K, 'ptr', 'c: %s%s &w = *v; return &w.front();' % (c, V), 'r: if (*v).is_empty() { std::process::abort() } (*v).as_ptr() as *const u8')
        ob('C15', V + '::back' + q, 'v:' + K, 'ptr', 'c: %s%s &w = *v; return &w.back();' % (c, V), 'r: if (*v).is_empty() { std::process::abort() } (*v).as_ptr().add((*v).len() - 1) as *const u8')
        for m in 'begin', 'end':
            ob('C29 C15', V + '::%s%s' % (m, q), 'v:' + K, 'ptr', 'c: %s%s &w = *v; return &*w.%s();' % (c, V, m), 'r: (*v).as_ptr()%s as *const u8' % ('.add((*v).len())' if m == 'end' else ''))
        ob('C29', V + ' range for' + q, 'v:' + K, 'void', 'c: %s%s &w = *v; for (auto &x : w) visit(&x);' % (c, V), 'r: for x in (*v).iter() { visit(x as *const _ as *const u8) }', lens('v', upto=4))
    for m in 'cbegin', 'cend':
        ob('C29 C15', V + '::' + m, 'v:' + K, 'ptr', 'c: return &*v->%s();' % m, 'r: (*v).as_ptr()%s as *const u8' % ('.add((*v).len())' if m == 'cend' else ''))
    ob('C29', V + '::end - begin', 'v:' + K, 'isize', 'c: return v->end() - v->begin();', 'r: (*v).len() as isize')
    if t != 'R':
        # elements in and out
        grow = '(*v).reserve(1); let l = (*v).len(); (*v).as_mut_ptr().add(l).write(%s); (*v).set_len(l + 1);'
        if t == 'Tk':
            cp = 'c: %s; r_vec_push_tk(v, &x);'
            ob('C06 C01', V + '::push_back(const &)', 'v:%s e:obj<%s>' % (K, t), 'void', 'c: v->push_back(*e);', 'c: rt::Tk x(*e); r_vec_reserve1(v); new (r_vec_end8(v)) rt::Tk(std::move(x)); r_vec_setlen1(v);')
            ob('C06 C01', V + '::push_back(&&)', 'v:%s e:obj<%s>' % (K, t), 'void', 'c: v->push_back(std::move(*e));', 'c: rt::Tk x(std::move(*e)); r_vec_reserve1(v); new (r_vec_end8(v)) rt::Tk(std::move(x)); r_vec_setlen1(v);')
            # copying an element may throw
            fill = 'try { r_vec_reserve(%s, n); for (std::size_t i = 0; i < n; ++i) { rt::Tk x(p[i]); new (r_vec_end8(%s)) rt::Tk(std::move(x)); r_vec_setlen1(%s); } } catch (...) { r_vec_drop(%s); throw; }'
            src = 'auto p = (const rt::Tk *)r_vec_data(v); std::size_t n = r_vec_len(v); '
            ob('C06', V + '(const Vec &), copies may throw', 'o:raw24! v:' + K, 'void', 'c: new (o) %s(*v);' % V, 'c: ' + src + 'r_vec_new(o); ' + fill % (('o',) * 4), lens('v', upto=4))
            ob('C06', V + ' = const Vec &, copies may throw', 'a:%s v:%s' % (K, K), 'void', 'c: *a = *v;',
               'c: alignas(8) char w[24]; ' + src + 'r_vec_new(w); ' + fill % (('w',) * 4) + ' r_vec_drop(a); std::memcpy((void *)a, w, 24);', lens('v', upto=4))
            ob('C06', V + ' = itself, copies may throw', 'a:%s b:=a' % K, 'void', 'c: *a = *b;', 'c: ', lens('a', upto=3))
            also('c: alignas(8) char w[24]; auto v = a; ' + src + 'r_vec_new(w); ' + fill % (('w',) * 4) + ' r_vec_drop(a); std::memcpy((void *)a, w, 24);')
            ob('C06', V + '::push_back(own element), copy may throw', 'v:%s e:elem(v)' % K, 'void', 'c: v->push_back(*e);', 'c: rt::Tk x(*e); r_vec_reserve1(v); new (r_vec_end8(v)) rt::Tk(std::move(x)); r_vec_setlen1(v);')
            for n in 1, 2:
                ps = ' '.join('e%d:obj<%s>' % (i, t) for i in range(n))
                ob('C06', V + '{%d elements}, copies may throw' % n, 'o:raw24! ' + ps, 'void', 'c: new (o) %s({%s});' % (V, ', '.join('*e%d' % i for i in range(n))),
                   'c: const rt::Tk q[] = {%s}; const rt::Tk *p = q; const std::size_t n = %d; r_vec_new(o); ' % (', '.join('*e%d' % i for i in range(n)), n) + fill % (('o',) * 4))
        else:
            copy = '(*e).clone()' if t in ('String', 'ffi::Sh') else '*e'
            if t == 'ffi::E':
                copy = 'ffi::E { repr: (*e).repr }'
            if t == 'ffi::P':
                copy = 'ffi::P { x: (*e).x, y: (*e).y, z: (*e).z }'
            take = 'core::mem::take(&mut *e)' if t in ('String', ) else 'take_sh(e)' if t == 'ffi::Sh' else copy
            ob('C06 C01', V + '::push_back(const &)', 'v:%s e:obj<%s>' % (K, t), 'void', 'c: v->push_back(*e);', 'r: let x = %s; ' % copy + grow % 'x')
            ob('C06 C01', V + '::push_back(&&)', 'v:%s e:obj<%s>' % (K, t), 'void', 'c: v->push_back(std::move(*e));', 'r: let x = %s; ' % take + grow % 'x')
            ob('C06 C01', V + '::emplace_back', 'v:%s e:obj<%s>' % (K, t), 'void', 'c: v->emplace_back(*e);', 'r: let x = %s; ' % copy + grow % 'x')
            ob('C06', V + '::push_back(own element)', 'v:%s e:elem(v)' % K, 'void', 'c: v->push_back(*e);', 'r: let x = %s; ' % copy + grow % 'x')
            ob('C06', V + '::emplace_back(own element)', 'v:%s e:elem(v)' % K, 'void', 'c: v->emplace_back(*e);', 'r: let x = %s; ' % copy + grow % 'x')
            ob('C06', V + '(const Vec &)', 'o:raw24 v:' + K, 'void', 'c: new (o) %s(*v);' % V,
               'r: let mut w: %s = Vec::new(); let n = (*v).len(); if n > 0 { w.reserve(n); } for i in 0..n { let e = (*v).as_ptr().add(i); let x = %s; w.as_mut_ptr().add(i).write(x); w.set_len(i + 1); } (o as *mut %s).write(w)' % (RV, copy, RV),
               lens('v', upto=4))
            ob('C06', V + ' = const Vec &', 'a:%s v:%s' % (K, K), 'void', 'c: *a = *v;',
               'r: let mut w: %s = Vec::new(); let n = (*v).len(); if n > 0 { w.reserve(n); } for i in 0..n { let e = (*v).as_ptr().add(i); let x = %s; w.as_mut_ptr().add(i).write(x); w.set_len(i + 1); } *a = w;' % (RV, copy),
               lens('v', upto=3))
            ob('C06', V + ' = itself', 'a:%s b:=a' % K, 'void', 'c: *a = *b;', 'r: ', lens('a', upto=3))
            also('r: let v = a; let mut w: %s = Vec::new(); let n = (*v).len(); if n > 0 { w.reserve(n); } for i in 0..n { let e = (*v).as_ptr().add(i); let x = %s; w.as_mut_ptr().add(i).write(x); w.set_len(i + 1); } *a = w;' % (RV, copy))
            for n in 0, 1, 2:
                ps = ' '.join('e%d:obj<%s>' % (i, t) for i in range(n))
                ob('C06', V + '{%d elements}' % n, 'o:raw24 ' + ps, 'void', 'c: new (o) %s({%s});' % (V, ', '.join('*e%d' % i for i in range(n))),
                   'r: let mut w: %s = Vec::new(); %s %s (o as *mut %s).write(w)' % (RV, 'w.reserve(%d);' % n if n else '', ' '.join('{ let e = e%d; let x = %s; w.as_mut_ptr().add(%d).write(x); w.set_len(%d); }' % (i, copy, i, i + 1) for i in range(n)), RV))

# ================================================================== rust::Box
for t in 'R', 'ffi::Sh', 'ffi::P', 'Tk':
    B, K, RB = 'rust::Box<%s>' % ct(t), 'Box<%s>' % t, 'Box<%s>' % t
    ob('C06', B + '::~Box', 'b:' + K, 'void', 'c: b->~Box();', 'r: b.drop_in_place()')
    ob('C06', B + '(Box &&)', 'o:raw8 b:' + K, 'void', 'c: new (o) %s(std::move(*b));' % B, 'r: (o as *mut %s).write(b.read()); *(b as *mut usize) = 0;' % RB)
    ob('C06', B + ' = Box &&', 'a:%s b:%s' % (K, K), 'void', 'c: *a = std::move(*b);', 'r: a.drop_in_place(); a.write(b.read()); *(b as *mut usize) = 0;')
    ob('C06', B + ' = moved-from Box', 'a:%s b:%s o:raw8' % (K, K), 'void', 'c: new (o) %s(std::move(*b)); *a = std::move(*b);' % B, 'r: (o as *mut %s).write(b.read()); a.drop_in_place(); *(a as *mut usize) = 0; *(b as *mut usize) = 0;' % RB)
    ob('C06', B + ' = itself moved, destroyed', 'a:%s! b:=a' % K, 'void', 'c: *a = std::move(*b); a->~Box();', 'r: a.drop_in_place()')
    ob('C06', B + ' moved-from, moved', 'o:raw8 b:%s q:raw8' % K, 'void', 'c: new (o) %s(std::move(*b)); new (q) %s(std::move(*b));' % (B, B), 'r: (o as *mut %s).write(b.read()); *(b as *mut usize) = 0; *(q as *mut usize) = 0;' % RB)
    ob('C06', B + '::swap', 'a:%s b:%s' % (K, K), 'void', 'c: a->swap(*b);', 'r: core::mem::swap(&mut *a, &mut *b)')
    ob('C06', B + '::into_raw', 'b:' + K, 'ptr', 'c: return b->into_raw();', 'r: let p = Box::into_raw(b.read()) as *const u8; *(b as *mut usize) = 0; p')
    ob('C06', B + '::from_raw', 'o:raw8 s:ptr', 'void', 'c: new (o) %s(%s::from_raw((%s *)s));' % (B, B, ct(t)), 'r: (o as *mut *const u8).write(s)')
    ob('C06 C15', B + '::operator*', 'b:' + K, 'ptr', 'c: return &**b;', 'r: &**b as *const _ as *const u8')
    ob('C06 C15', B + '::operator* const', 'b:' + K, 'ptr', 'c: const %s &c = *b; return &*c;' % B, 'r: &**b as *const _ as *const u8')
    ob('C06 C15', B + '::operator->', 'b:' + K, 'ptr', 'c: return b->operator->();', 'r: &**b as *const _ as *const u8')
    ob('C06', B + ' moved, then destroyed', 'o:raw8 b:' + K, 'void', 'c: new (o) %s(std::move(*b)); b->~Box();' % B, 'r: (o as *mut %s).write(b.read()); *(b as *mut usize) = 0;' % RB)
    ob('C06', B + ' moved, then assigned', 'o:raw8 a:%s b:%s' % (K, K), 'void', 'c: new (o) %s(std::move(*b)); *b = std::move(*a);' % B,
       'r: (o as *mut %s).write(b.read()); b.write(a.read()); *(a as *mut usize) = 0;' % RB)
    ob('C06', B + ' into_raw, then destroyed', 'b:' + K, 'ptr', 'c: auto p = b->into_raw(); b->~Box(); return p;', 'r: let p = Box::into_raw(b.read()) as *const u8; *(b as *mut usize) = 0; p')
    if t == 'Tk':
        mk = 'c: void *p = r_box_alloc(); try { new (p) rt::Tk(%s); } catch (...) { r_box_free(p); throw; } *(void **)o = p;'
        ob('C06', B + '(const &), copy may throw', 'o:raw8! e:obj<Tk>', 'void', 'c: new (o) %s(*e);' % B, mk % '*e')
        ob('C06', B + '(&&)', 'o:raw8 e:obj<Tk>', 'void', 'c: new (o) %s(std::move(*e));' % B, mk % 'std::move(*e)')
        ob('C06', B + '::in_place, copy may throw', 'o:raw8! e:obj<Tk>', 'void', 'c: new (o) %s(%s::in_place(*e));' % (B, B), mk % '*e')
    elif t != 'R':
        copy = '(*e).clone()'
        ob('C06', B + '::in_place', 'o:raw8 e:obj<%s>' % t, 'void', 'c: new (o) %s(%s::in_place(*e));' % (B, B), 'r: (o as *mut %s).write(Box::new(%s))' % (RB, copy))
        ob('C06', B + '(const &)', 'o:raw8 e:obj<%s>' % t, 'void', 'c: new (o) %s(*e);' % B, 'r: (o as *mut %s).write(Box::new(%s))' % (RB, copy))
        ob('C06', B + '(&&)', 'o:raw8 e:obj<%s>' % t, 'void', 'c: new (o) %s(std::move(*e));' % B, 'r: (o as *mut %s).write(Box::new(%s))' % (RB, 'take_sh(e)' if t == 'ffi::Sh' else '*e'))

# ================================================================== rust::Error
# (vptr, msg, len): a copy owns its own text; len means nothing without a text
CPY = 'e3 *s = (e3 *)%s, *d = (e3 *)%s; '
ob('C06 C28', 'Error::what', 'e:Err', 'ptr', 'c: return e->what();', 'c: return ((e3 *)e)->msg;')
ob('C06', 'Error(const Error &)', 'o:raw24 e:Err', 'void', 'c: new (o) rust::Error(*e);', 'c: std::size_t any; ' + CPY % ('e', 'o') + 'd->len = s->msg ? s->len : any; d->msg = s->msg ? e3_copy(s->msg, s->len) : nullptr;')
ob('C06', 'Error(Error &&)', 'o:raw24 e:Err', 'void', 'c: new (o) rust::Error(std::move(*e));', 'c: std::size_t any; ' + CPY % ('e', 'o') + 'd->len = s->msg ? s->len : any; d->msg = s->msg; s->msg = nullptr; s->len = any;')
ob('C06', 'Error::~Error', 'e:Err!', 'void', 'c: e->rust::Error::~Error();', 'c: delete[] ((e3 *)e)->msg;')
ob('C06', 'Error = const Error &', 'a:Err b:Err', 'void', 'c: *a = *b;', 'c: std::size_t any; ' + CPY % ('b', 'a') + 'delete[] d->msg; d->len = s->msg ? s->len : any; d->msg = s->msg ? e3_copy(s->msg, s->len) : nullptr;')
ob('C06', 'Error = itself', 'a:Err b:=a', 'void', 'c: *a = *b;', 'c: ')
also('c: e3 *d = (e3 *)a; if (d->msg) { auto m = e3_copy(d->msg, d->len); delete[] d->msg; d->msg = m; }')
ob('C06', 'Error = Error &&', 'a:Err b:Err', 'void', 'c: *a = std::move(*b);', 'c: std::size_t any; ' + CPY % ('b', 'a') + 'delete[] d->msg; d->len = s->msg ? s->len : any; d->msg = s->msg; s->msg = nullptr; s->len = any;')
ob('C06', 'Error = itself moved, destroyed', 'a:Err! b:=a', 'void', 'c: *a = std::move(*b); a->rust::Error::~Error();', 'c: delete[] ((e3 *)a)->msg;')
ob('C06', 'Error moved, assigned, destroyed', 'o:raw24 a:Err! b:Err', 'void', 'c: new (o) rust::Error(std::move(*a)); *a = *b; a->rust::Error::~Error();',
   'c: std::size_t any; ' + CPY % ('a', 'o') + 'd->len = s->msg ? s->len : any; d->msg = s->msg; e3 *t = (e3 *)b; const char *m = t->msg ? e3_copy(t->msg, t->len) : nullptr; delete[] m;')
ob('C06', 'Error moved twice, destroyed twice', 'a:Err!', 'void', 'c: { rust::Error x(std::move(*a)); rust::Error y(std::move(x)); } a->rust::Error::~Error();', 'c: delete[] ((e3 *)a)->msg;')

# ================================================================== CxxString
ob('C01 C26', 'CxxString::len', 's:std', 'usize', 'r: (*s).len()', 'c: return s->size();')
ob('C01 C26', 'CxxString::is_empty', 's:std', 'bool', 'r: (*s).is_empty()', 'c: return s->empty();')
ob('C01 C26', 'CxxString::as_ptr', 's:std', 'ptr', 'r: (*s).as_ptr()', 'c: return s->data();')
ob('C26', 'CxxString::as_bytes data', 's:std', 'ptr', 'r: (*s).as_bytes().as_ptr()', 'c: return s->data();')
ob('C26', 'CxxString::as_bytes len', 's:std', 'usize', 'r: (*s).as_bytes().len()', 'c: return s->size();')
ob('C26 C14', 'CxxString::to_str', 's:std o:raw16', 'bool', "r: match (*s).to_str() { Ok(t) => { (o as *mut &str).write(t); true } Err(_) => false }", 'c: return r_from_utf8_str(o, s->data(), s->size());')
ob('C26 C14', 'CxxString::to_string_lossy', 's:std o:raw24', 'void', "r: (o as *mut String).write((*s).to_string_lossy().into_owned())", 'c: r_lossy(o, s->data(), s->size());')
ob('C01 C26', 'CxxString::clear', 's:std', 'void', 'r: core::pin::Pin::new_unchecked(&mut *s).clear()', 'c: s->clear();')
ob('C01', 'CxxString::reserve', 's:std n:usize', 'void', 'r: core::pin::Pin::new_unchecked(&mut *s).reserve(n)', 'c: std::size_t k; if (__builtin_add_overflow(s->size(), n, &k)) r_panic(); s->reserve(k);')
ob('C01 C26', 'CxxString::push_str', 's:std t:Str', 'void', 'r: core::pin::Pin::new_unchecked(&mut *s).push_str(*t)', 'c: s->append((const char *)r_str_data(t), r_str_len(t));')
ob('C01 C26', 'CxxString::push_bytes', 's:std t:Slice<u8>', 'void', 'r: core::pin::Pin::new_unchecked(&mut *s).push_bytes(*t)', 'c: s->append(r_slice_data(t), r_slice_len(t));')
ob('C26', 'CxxString: fmt::Write', 's:std t:Str', 'bool', 'r: use std::fmt::Write; let mut p = core::pin::Pin::new_unchecked(&mut *s); p.write_str(*t).is_ok()', 'c: s->append((const char *)r_str_data(t), r_str_len(t)); return true;')
ob('C26', 'CxxString: io::Write', 's:std t:Slice<u8>', 'usize', 'r: use std::io::Write; let mut p = core::pin::Pin::new_unchecked(&mut *s); p.write(*t).unwrap_or(usize::MAX)', 'c: s->append(r_slice_data(t), r_slice_len(t)); return r_slice_len(t);')
for op, f in RELS:
    ob('C26', 'CxxString %s CxxString' % op, 'a:std b:std', 'bool', 'r: *a %s *b' % op, 'r: r_std_bytes(a) %s r_std_bytes(b)' % op, lens('a', 'b'))
ob('C26', 'CxxString == str', 'a:std b:Str', 'bool', 'r: *a == **b', 'r: r_std_bytes(a) == (*b).as_bytes()', lens('a', 'b'))
ob('C26', 'str == CxxString', 'a:std b:Str', 'bool', 'r: **b == *a', 'r: (*b).as_bytes() == r_std_bytes(a)', lens('a', 'b'))
ob('C26', 'CxxString::cmp', 'a:std b:std', 'i8', 'r: (*a).cmp(&*b) as i8', 'r: r_std_bytes(a).cmp(r_std_bytes(b)) as i8', lens('a', 'b'))
ob('C26', 'CxxString::hash', 'a:std', 'void', 'r: use std::hash::Hash; (*a).hash(&mut Hsh)', 'r: use std::hash::Hash; r_std_bytes(a).hash(&mut Hsh)', lens('a'))
ob('C07', 'let_cxx_string, value not reached', 't:Slice<u8>', 'bool', 'r: (|| { cxx::let_cxx_string!(s = if (*t).len() == 3 { return true } else { *t }); look(&*s as *const CxxString as *const u8); false })()',
   'c: if (r_slice_len(t) == 3) return true; std::string s(r_slice_data(t), r_slice_len(t)); look(&s); return false;')
ob('C07', 'let_cxx_string, value panics', 't:Slice<u8>', 'void', 'r: cxx::let_cxx_string!(s = if (*t).len() == 3 { panic!() } else { *t }); look(&*s as *const CxxString as *const u8);',
   'r: if (*t).len() == 3 { panic!() } cxx::let_cxx_string!(s = *t); look(&*s as *const CxxString as *const u8);')
ob('C07 C01 C26', 'let_cxx_string', 't:Slice<u8>', 'void', 'r: cxx::let_cxx_string!(s = *t); look(&*s as *const CxxString as *const u8);', 'c: std::string s(r_slice_data(t), r_slice_len(t)); look(&s);')

# ================================================================== formatting
F = '&mut *(f as *mut core::fmt::Formatter)'
ob('C28', 'CxxString: Display', 's:std f:ptr', 'bool', 'r: core::fmt::Display::fmt(&*s, %s).is_ok()' % F, 'r: lossy(r_std_bytes(s), %s).is_ok()' % F)
ob('C28', 'Exception: Display', 'e:raw16 s:Str f:ptr', 'bool', 'r: (e as *mut &str).write(*s); core::fmt::Display::fmt(&*(e as *const cxx::Exception), %s).is_ok()' % F, 'r: (e as *mut &str).write(*s); (%s).write_str(*s).is_ok()' % F)
ob('C28', 'Exception::what', 'e:raw16 s:Str o:raw16', 'void', 'r: (e as *mut &str).write(*s); (o as *mut &str).write((*(e as *const cxx::Exception)).what())', 'r: (e as *mut &str).write(*s); (o as *mut &str).write(*s)')
for cls, k in ('UniquePtr', 'UP'), ('SharedPtr', 'SP'):
    for t in 'CxxString', 'ffi::C':
        for tr in ('Display', 'Debug'):
            if (t, tr) == ('CxxString', 'Debug'):
                continue
            ob('C28', '%s<%s>: %s' % (cls, t, tr), 'p:%s<%s> f:ptr' % (k, t), 'bool', 'r: core::fmt::%s::fmt(&*p, %s).is_ok()' % (tr, F),
               'r: let q = *(p as *const *const %s); if q.is_null() { (%s).write_str("nullptr").is_ok() } else { core::fmt::%s::fmt(&*q, %s).is_ok() }' % (t, F, tr, F))
ob('C28', 'WeakPtr<ffi::C>: Debug', 'p:WP<ffi::C> f:ptr', 'bool', 'r: core::fmt::Debug::fmt(&*p, %s).is_ok()' % F, 'r: let q = (*p).upgrade(); match q.as_ref() { Some(x) => core::fmt::Debug::fmt(x, %s).is_ok(), None => (%s).write_str("nullptr").is_ok() }' % (F, F))
ob('C28', 'ostream << String', 's:String os:ptr', 'ptr', 'c: return &(*(std::ostream *)os << *s);', 'c: ((std::ostream *)os)->write(r_data(s), r_len(s)); return os;')
ob('C28', 'ostream << Str', 's:Str os:ptr', 'ptr', 'c: return &(*(std::ostream *)os << *s);', 'c: ((std::ostream *)os)->write(r_str_data(s), r_str_len(s)); return os;')
# ================================================================== CxxVector
for t in 'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'f32', 'f64', 'CxxString', 'ffi::C', 'Tk', 'ffi::P', 'ffi::Sh':
    N, K = 'CxxVector<%s>' % t, 'stdvec<%s>' % t
    sv = 'std::vector<%s>' % ct(t)
    pin = 'core::pin::Pin::new_unchecked(&mut *v)'
    ob('C01 C15', N + '::len', 'v:' + K, 'usize', 'r: (*v).len()', 'c: return v->size();')
    ob('C01 C15', N + '::is_empty', 'v:' + K, 'bool', 'r: (*v).is_empty()', 'c: return v->empty();')
    ob('C01 C15', N + '::get', 'v:%s n:usize' % K, 'ptr', 'r: match (*v).get(n) { Some(x) => x as *const _ as *const u8, None => core::ptr::null() }', 'c: return n < v->size() ? &(*v)[n] : nullptr;')
    ob('C01 C15', N + '::index_mut', 'v:%s n:usize' % K, 'ptr', 'r: match %s.index_mut(n) { Some(x) => x.get_unchecked_mut() as *mut _ as *const u8, None => core::ptr::null() }' % pin, 'c: return n < v->size() ? &(*v)[n] : nullptr;')
    ob('C01 C15', N + '::get_unchecked', 'v:%s n:usize' % K, 'ptr', 'r: (*v).get_unchecked(n) as *const _ as *const u8', 'c: return &(*v)[n];')
    ob('C01 C15', N + '::index_unchecked_mut', 'v:%s n:usize' % K, 'ptr', 'r: %s.index_unchecked_mut(n).get_unchecked_mut() as *mut _ as *const u8' % pin, 'c: return &(*v)[n];')
    ob('C29', N + ' iteration', 'v:' + K, 'void', 'r: for x in &*v { visit(x as *const _ as *const u8) }', 'c: for (auto &x : *v) visit(&x);', lens('v', upto=4))
    ob('C29', N + ' mutable iteration', 'v:' + K, 'void', 'r: for x in %s { visit(x.get_unchecked_mut() as *mut _ as *const u8) }' % pin, 'c: for (auto &x : *v) visit(&x);', lens('v', upto=4))
    ob('C29', N + '::iter().len()', 'v:' + K, 'usize', 'r: (*v).iter().len()', 'c: return v->size();')
    ob('C29', N + '::iter().size_hint()', 'v:' + K, 'usize', 'r: let (a, b) = (*v).iter().size_hint(); if b != Some(a) { std::process::abort() } a', 'c: return v->size();')
    ob('C29', N + '::iter_mut().len()', 'v:' + K, 'usize', 'r: %s.iter_mut().len()' % pin, 'c: return v->size();')
    ob('C29', N + '::iter_mut().size_hint()', 'v:' + K, 'usize', 'r: let (a, b) = %s.iter_mut().size_hint(); if b != Some(a) { std::process::abort() } a' % pin, 'c: return v->size();')
    for m, call in ('iter', '(*v).iter()'), ('iter_mut', pin + '.iter_mut()'):
        ob('C29', N + '::%s() remaining' % m, 'v:' + K, 'void', 'r: let mut i = %s; loop { look_n(i.len()); let (a, b) = i.size_hint(); look_n(a); look_n(b.unwrap()); if i.next().is_none() { break } } look_n(i.len()); look_n(i.next().is_none() as usize);' % call,
           'c: for (std::size_t k = v->size(); ; --k) { look_n(k); look_n(k); look_n(k); if (!k) break; } look_n(0); look_n(1);', lens('v', upto=4))
    if t not in ('CxxString', 'ffi::C'):
        ob('C15 C26', N + '::as_slice', 'v:%s o:raw16' % K, 'void', "r: (o as *mut &[%s]).write((*v).as_slice())" % t,
           'c: r_slice_make(o, v->empty() ? (const char *)(std::uintptr_t)alignof(%s) : (const char *)v->data(), v->size());' % ct(t))
        ob('C15 C26', N + '::as_mut_slice', 'v:%s o:raw16' % K, 'void', "r: (o as *mut &mut [%s]).write(%s.as_mut_slice())" % (t, pin),
           'c: r_slice_make(o, v->empty() ? (const char *)(std::uintptr_t)alignof(%s) : (const char *)v->data(), v->size());' % ct(t))
        if t == 'Tk':
            pass
        else:
            ob('C01 C07', N + '::push', 'v:%s e:obj<%s>!' % (K, t), 'void', 'r: %s.push(e.read())' % pin, 'c: v->push_back(std::move(*e)); e->~%s();' % re.sub(r'.*::', '', ct(t)) if t == 'ffi::Sh' else 'c: v->push_back(*e);')
            ob('C01 C07', N + '::pop', 'v:%s o:raw%d' % (K, TYPES[t][1]), 'bool', 'r: match %s.pop() { Some(x) => { (o as *mut %s).write(x); true } None => false }' % (pin, t),
               'c: if (v->empty()) return false; new (o) %s(std::move(v->back())); v->pop_back(); return true;' % ct(t))

# ================================================================== UniquePtr, SharedPtr, WeakPtr
for t in 'ffi::C', 'CxxString', 'CxxVector<u8>', 'CxxVector<ffi::C>', 'CxxVector<CxxString>', 'ffi::Sh':
    m = re.match(r'CxxVector<(.*)>', t)
    K = 'UPV<%s>' % m.group(1) if m else 'UP<%s>' % t
    cn = 'std::vector<%s>' % ct(m.group(1)) if m else ct(t)
    u = 'std::unique_ptr<%s>' % cn
    N = 'UniquePtr<%s>' % t
    ob('C07 C01', N + '::null', 'o:raw8', 'void', 'r: (o as *mut %s).write(UniquePtr::null())' % N, 'c: new (o) %s();' % u)
    ob('C07', N + '::is_null', 'p:' + K, 'bool', 'r: (*p).is_null()', 'c: return !*p;')
    ob('C07', N + '::as_ref', 'p:' + K, 'ptr', 'r: match (*p).as_ref() { Some(x) => x as *const _ as *const u8, None => core::ptr::null() }', 'c: return p->get();')
    ob('C07', N + '::as_mut', 'p:' + K, 'ptr', 'r: match (*p).as_mut() { Some(x) => x.get_unchecked_mut() as *mut _ as *const u8, None => core::ptr::null() }', 'c: return p->get();')
    ob('C07', N + '::pin_mut', 'p:' + K, 'ptr', 'r: (*p).pin_mut().get_unchecked_mut() as *mut _ as *const u8', 'c: if (!*p) r_panic(); return p->get();')
    ob('C07', N + '::deref', 'p:' + K, 'ptr', 'r: &**p as *const _ as *const u8', 'c: if (!*p) r_panic(); return p->get();')
    if t in ('ffi::Sh',):
        ob('C07', N + '::deref_mut', 'p:' + K, 'ptr', 'r: &mut **p as *mut _ as *const u8', 'c: if (!*p) r_panic(); return p->get();')
    ob('C07 C01', N + '::as_ptr', 'p:' + K, 'ptr', 'r: (*p).as_ptr() as *const u8', 'c: return p->get();')
    ob('C07 C01', N + '::as_mut_ptr', 'p:' + K, 'ptr', 'r: (*p).as_mut_ptr() as *const u8', 'c: return p->get();')
    ob('C07 C01', N + '::into_raw', 'p:' + K + '!', 'ptr', 'r: p.read().into_raw() as *const u8', 'c: auto q = %s(std::move(*p)); return q.release();' % u if 0 else 'r: *(p as *const *const u8)')
    ob('C07 C01', N + '::from_raw', 'o:raw8 s:ptr', 'void', 'r: (o as *mut %s).write(UniquePtr::from_raw(s as *mut _))' % N, 'c: new (o) %s((%s *)s);' % (u, cn))
    ob('C07 C01', N + ' drop', 'p:' + K + '!', 'void', 'r: p.drop_in_place()', 'c: p->~unique_ptr();')
    ob('C07', N + ' moved and dropped', 'p:' + K + '!', 'void', 'r: let q = p.read(); let r = q; drop(r)', 'c: p->~unique_ptr();')
    ob('C07', N + ' replaced', 'p:%s s:ptr' % K, 'void', 'r: *p = UniquePtr::from_raw(s as *mut _)', 'c: p->~unique_ptr(); new (p) %s((%s *)s);' % (u, cn))
ob('C07', 'UniquePtr<Sh>::new', 'o:raw8 e:obj<ffi::Sh>!', 'void', 'r: (o as *mut UniquePtr<ffi::Sh>).write(UniquePtr::new(e.read()))', 'c: new (o) std::unique_ptr<rt::Sh>(new rt::Sh(bitmove(*e)));')
ob('C07', 'CxxVector::new', 'o:raw8', 'void', 'r: (o as *mut UniquePtr<CxxVector<ffi::C>>).write(CxxVector::new())', 'c: new (o) std::unique_ptr<std::vector<rt::C>>(new std::vector<rt::C>());')
for t in 'ffi::C', 'CxxString', 'u8', 'bool', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'f32', 'f64', 'ffi::Sh':
    for cls, short, low in ('SharedPtr', 'SP', 'shared'), ('WeakPtr', 'WP', 'weak'):
        N, K, s = '%s<%s>' % (cls, t), '%s<%s>' % (short, t), 'std::%s_ptr<%s>' % (low, ct(t))
        ob('C07 C01', N + '::null', 'o:raw16', 'void', 'r: (o as *mut %s).write(%s::null())' % (N, cls), 'c: new (o) %s();' % s)
        ob('C07 C01', N + '::clone', 'o:raw16 p:' + K, 'void', 'r: (o as *mut %s).write((*p).clone())' % N, 'c: new (o) %s(*p);' % s)
        ob('C07 C01', N + ' drop', 'p:' + K + '!', 'void', 'r: p.drop_in_place()', 'c: p->~%s_ptr();' % low)
        ob('C07', N + ' moved and dropped', 'p:' + K + '!', 'void', 'r: let q = p.read(); let r = q; drop(r)', 'c: p->~%s_ptr();' % low)
        ob('C07', N + ' cloned and both dropped', 'p:' + K + '!', 'void', 'r: let q = p.read(); let r = q.clone(); drop(q); drop(r)', 'c: { %s q(*p); } p->~%s_ptr();' % (s, low))
    N, K = 'SharedPtr<%s>' % t, 'SP<%s>' % t
    if t not in ('ffi::C', 'CxxString'):
        ob('C07 C01', N + '::new', 'o:raw16 e:obj<%s>!' % t, 'void', 'r: (o as *mut %s).write(SharedPtr::new(e.read()))' % N, 'c: new (o) std::shared_ptr<%s>(new %s(bitmove(*e)));' % (ct(t), ct(t)))
    ob('C07 C01', N + '::is_null', 'p:' + K, 'bool', 'r: (*p).is_null()', 'c: return !*p;')
    ob('C07 C01', N + '::as_ref', 'p:' + K, 'ptr', 'r: match (*p).as_ref() { Some(x) => x as *const _ as *const u8, None => core::ptr::null() }', 'c: return p->get();')
    ob('C07 C01', N + '::deref', 'p:' + K, 'ptr', 'r: &**p as *const _ as *const u8', 'c: if (!*p) r_panic(); return p->get();')
    ob('C07 C01', N + '::downgrade', 'o:raw16 p:' + K, 'void', 'r: (o as *mut WeakPtr<%s>).write((*p).downgrade())' % t, 'c: new (o) std::weak_ptr<%s>(*p);' % ct(t))
    ob('C07 C01', 'WeakPtr<%s>::upgrade' % t, 'o:raw16 p:WP<%s>' % t, 'void', 'r: (o as *mut %s).write((*p).upgrade())' % N, 'c: new (o) std::shared_ptr<%s>(p->lock());' % ct(t))

# ================================================================== what the C++ side of the witness needs
RS = r'''
#![allow(warnings)]
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
#[cxx::bridge(namespace = "rt")]
pub mod ffi {
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Debug)]
    pub struct Sh { a: u32, s: String, b: u8 }
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy, Debug, Default)]
    pub struct P { x: u8, y: i32, z: bool }
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy, Debug)]
    pub enum E { A, B, C }
    extern "Rust" {
        type R;
        fn inst(a: Vec<R>, b: Box<R>, c: Vec<Sh>, d: Box<Sh>, e: Vec<P>, f: Box<P>, g: Vec<E>, h: Vec<Tk>, i: &[R], j: &mut [R], k: &[Sh], l: &mut [Sh], m: &[P], n: &mut [P]);
    }
    unsafe extern "C++" {
        include!("rt.h");
        type C;
        type Tk = crate::Tk;
        fn inst2(a: UniquePtr<C>, b: SharedPtr<C>, c: WeakPtr<C>, d: &CxxVector<C>, e: UniquePtr<CxxVector<C>>, f: &CxxVector<Tk>, g: &CxxVector<P>, h: &CxxVector<Sh>, i: UniquePtr<Sh>, j: SharedPtr<Sh>, k: WeakPtr<Sh>);
    }
    impl CxxVector<Tk> {}
    impl Vec<Tk> {}
    impl Box<Tk> {}
}
pub fn lossy(mut b: &[u8], f: &mut core::fmt::Formatter) -> core::fmt::Result {
    loop {
        match core::str::from_utf8(b) {
            Ok(t) => return f.write_str(t),
            Err(e) => {
                let k = e.valid_up_to();
                f.write_str(unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(b.as_ptr(), k)) })?;
                core::fmt::Write::write_char(f, char::REPLACEMENT_CHARACTER)?;
                match e.error_len() { Some(n) => b = unsafe { core::slice::from_raw_parts(b.as_ptr().add(k + n), b.len() - k - n) }, None => return Ok(()) }
            }
        }
    }
}
impl core::fmt::Display for ffi::C { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unsafe { look(self as *const _ as *const u8); look(f as *const _ as *const u8); if user() { Ok(()) } else { Err(core::fmt::Error) } } } }
impl core::fmt::Debug for ffi::C { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unsafe { visit(self as *const _ as *const u8); look(f as *const _ as *const u8); if user() { Ok(()) } else { Err(core::fmt::Error) } } } }
extern "C" { fn user() -> bool; }
pub struct D(u64);
extern "C" { fn d_drop(d: *mut u64); fn visit(p: *const u8); fn look(p: *const u8); fn look_n(n: usize); }
impl Drop for D { fn drop(&mut self) { unsafe { d_drop(&mut self.0) } } }
pub struct R(u64, D);
pub fn inst(_: Vec<R>, _: Box<R>, _: Vec<ffi::Sh>, _: Box<ffi::Sh>, _: Vec<ffi::P>, _: Box<ffi::P>, _: Vec<ffi::E>, _: Vec<Tk>, _: &[R], _: &mut [R], _: &[ffi::Sh], _: &mut [ffi::Sh], _: &[ffi::P], _: &mut [ffi::P]) {}
#[repr(C)] pub struct Tk(u64);
unsafe impl cxx::ExternType for Tk { type Id = cxx::type_id!("rt::Tk"); type Kind = cxx::kind::Trivial; }
impl Drop for Tk { fn drop(&mut self) { unsafe { d_drop(&mut self.0) } } }
pub unsafe fn take_sh(e: *mut ffi::Sh) -> ffi::Sh { ffi::Sh { a: (*e).a, s: core::mem::take(&mut (*e).s), b: (*e).b } }
pub struct Hsh;
impl std::hash::Hasher for Hsh { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { unsafe { look(b.as_ptr()); look_n(b.len()) } } }
extern "C" { fn c_std_data(s: *const CxxString) -> *const u8; fn c_std_size(s: *const CxxString) -> usize; }
pub unsafe fn r_std_bytes<'a>(s: *const CxxString) -> &'a [u8] { core::slice::from_raw_parts(c_std_data(s), c_std_size(s)) }
#[no_mangle] pub unsafe extern "C" fn r_len(s: *const String) -> usize { (*s).len() }
#[no_mangle] pub unsafe extern "C" fn r_data(s: *const String) -> *const u8 { (*s).as_ptr() }
#[no_mangle] pub unsafe extern "C" fn r_str_len(s: *const &str) -> usize { (*s).len() }
#[no_mangle] pub unsafe extern "C" fn r_str_data(s: *const &str) -> *const u8 { (*s).as_ptr() }
#[no_mangle] pub unsafe extern "C" fn r_slice_len(s: *const &[u8]) -> usize { (*s).len() }
#[no_mangle] pub unsafe extern "C" fn r_slice_data(s: *const &[u8]) -> *const u8 { (*s).as_ptr() }
#[no_mangle] pub unsafe extern "C" fn r_slice_make(o: *mut &[u8], p: *const u8, n: usize) { o.write(core::slice::from_raw_parts(p, n)) }
#[no_mangle] pub unsafe extern "C" fn r_vec_len(s: *const Vec<u8>) -> usize { (*s).len() }
#[no_mangle] pub unsafe extern "C" fn r_vec_data(s: *const Vec<u8>) -> *const u8 { (*s).as_ptr() }
#[no_mangle] pub unsafe extern "C" fn r_vec_new(s: *mut Vec<Tk>) { s.write(Vec::new()) }
#[no_mangle] pub unsafe extern "C" fn r_vec_drop(s: *mut Vec<Tk>) { s.drop_in_place() }
#[no_mangle] pub unsafe extern "C" fn r_vec_reserve(s: *mut Vec<Tk>, n: usize) { (*s).reserve(n) }
#[no_mangle] pub unsafe extern "C" fn r_box_alloc() -> *mut u8 { Box::into_raw(Box::new(core::mem::MaybeUninit::<Tk>::uninit())) as *mut u8 }
#[no_mangle] pub unsafe extern "C" fn r_box_free(p: *mut u8) { drop(Box::from_raw(p as *mut core::mem::MaybeUninit<Tk>)) }
#[no_mangle] pub unsafe extern "C" fn r_vec_reserve1(s: *mut Vec<Tk>) { (*s).reserve(1) }
#[no_mangle] pub unsafe extern "C" fn r_vec_end8(s: *mut Vec<Tk>) -> *mut Tk { (*s).as_mut_ptr().add((*s).len()) }
#[no_mangle] pub unsafe extern "C" fn r_vec_setlen1(s: *mut Vec<Tk>) { let n = (*s).len(); (*s).set_len(n + 1) }
#[no_mangle] pub unsafe extern "C" fn r_from_utf8_string(o: *mut String, p: *const u8, n: usize) -> bool { match core::str::from_utf8(core::slice::from_raw_parts(p, n)) { Ok(s) => { o.write(s.to_owned()); true } Err(_) => false } }
#[no_mangle] pub unsafe extern "C" fn r_from_utf8_str(o: *mut &str, p: *const u8, n: usize) -> bool { match core::str::from_utf8(core::slice::from_raw_parts(p, n)) { Ok(s) => { o.write(s); true } Err(_) => false } }
#[no_mangle] pub unsafe extern "C" fn r_lossy(o: *mut String, p: *const u8, n: usize) { o.write(String::from_utf8_lossy(core::slice::from_raw_parts(p, n)).into_owned()) }
#[no_mangle] pub unsafe extern "C" fn r_from_utf16(o: *mut String, p: *const u16, n: usize) -> bool { match String::from_utf16(core::slice::from_raw_parts(p, n)) { Ok(s) => { o.write(s); true } Err(_) => false } }
#[no_mangle] pub unsafe extern "C" fn r_lossy16(o: *mut String, p: *const u16, n: usize) { o.write(String::from_utf16_lossy(core::slice::from_raw_parts(p, n))) }
#[no_mangle] pub unsafe extern "C-unwind" fn r_panic() { panic!() }
'''
H = r'''
#pragma once
#include "rust/cxx.h"
#include <cassert>
#include <cstring>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#if __cplusplus >= 201703L
#include <string_view>
#endif
#include <vector>
namespace rt {
struct C { C(const C &); ~C(); std::uint64_t x; };
struct Tk { Tk(const Tk &); Tk(Tk &&) noexcept; ~Tk(); using IsRelocatable = std::true_type; std::uint64_t x; };
struct Sh; struct P; enum class E : std::uint8_t;
template <class R, class... A> R inst2(A...);
}
'''
CC = r'''
#include "rt.h"
#include "rtb.rs.h"
extern "C" {
void visit(const void *); void look(const void *); void look_n(std::size_t);
std::size_t r_len(const void *); const char *r_data(const void *); std::size_t r_str_len(const void *); const char *r_str_data(const void *);
std::size_t r_slice_len(const void *); const char *r_slice_data(const void *); void r_slice_make(void *, const char *, std::size_t);
std::size_t r_vec_len(const void *); const char *r_vec_data(const void *);
void r_vec_new(void *); void r_vec_drop(void *); void r_vec_reserve(void *, std::size_t); void *r_box_alloc(); void r_box_free(void *);
void r_vec_reserve1(void *); void *r_vec_end8(void *); void r_vec_setlen1(void *);
bool r_from_utf8_string(void *, const char *, std::size_t); bool r_from_utf8_str(void *, const char *, std::size_t); void r_lossy(void *, const char *, std::size_t);
bool r_from_utf16(void *, const char16_t *, std::size_t); void r_lossy16(void *, const char16_t *, std::size_t);
void r_panic();
const char *c_std_data(const std::string *s) { return s->data(); }
std::size_t c_std_size(const std::string *s) { return s->size(); }
}
struct e3 { void *v; const char *msg; std::size_t len; };
static const char *e3_copy(const char *p, std::size_t n) { char *c = new char[n]; std::memcpy(c, p, n); return c; }
template <class T> T &&bitmove(T &x) { return static_cast<T &&>(x); }
'''


WITNESS['rt'] = (RS, H, CC)


def files(std, wit='rt'):
    r, h, c = WITNESS[wit]
    for o in OBS:
        if std not in o.stds or o.wit != wit:
            continue
        for lang, text in [text_of(o, 'i')] + [text_of(a, 'r') for a in [o] + o.alts]:
            text = '// %s\n%s' % (o.name, text)
            if lang == 'c':
                c += text
            else:
                r += text
    return {'rt.rs': r, 'rt.h': h, 'rt.cc': c}
