"""Generated C++ is complete: every output alone against the strictest standard library the standard allows and against the
real one, and outputs together."""
import itertools
import json
import os
import re

import matrix
import tygrid
from matrix import Case
from tygrid import PRIM, W1, WR, at, wr

STRICT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'strictstd')
# what the user writes mentions no name of the standard library and includes nothing
USER = '''namespace ft { struct T { unsigned x; }; }
struct C { C(); C(const C &); ~C(); int v;
  template <class Ret, class... A> Ret m(A...) const; template <class Ret, class... A> Ret m(A...); };
template <class Ret, class... A> Ret f(A...);
struct X { unsigned x; };
enum class XE : unsigned char { A, B };
'''
INC = 'unsafe extern "C++" { include!("%I.h"); '
ENUM = 'enum E { A, B }'

MORE = {
    'nothing': '',
    'include only': INC + '}',
    'bracketed include': 'unsafe extern "C++" { include!(<%I.h>); }',
    'opaque Rust type': 'extern "Rust" { type R; }',
    'opaque Rust type and function': 'extern "Rust" { type R; fn g(r: &R); }',
    'opaque C++ type': INC + 'type C; }',
    'shared struct': 'struct S { a: u8 }',
    'shared struct of structs': 'struct S { a: B } struct B { c: [A; 2] } struct A { x: u16 }',
    'shared struct with float': 'struct S { a: f32, b: f64, c: bool }',
    'generic struct': "struct S<'a> { a: &'a str }",
    'enum': ENUM,
    'enum repr i8': '#[repr(i8)] enum E { A = -1, B }',
    'enum repr u64': '#[repr(u64)] enum E { A = 1, B }',
    'enum repr usize': '#[repr(usize)] enum E { A = 1, B }',
    'enum repr isize': '#[repr(isize)] enum E { A = 1, B }',
    'extern enum': 'enum XE { A, B } ' + INC + 'type XE; }',
    'extern struct': 'struct X { x: u32 } ' + INC + 'type X; }',
    'trivial alias by value': INC + '#[namespace = "%I::ft"] type T = super::ft::T; fn f(t: T); }',
    'trivial alias in a struct': INC + '#[namespace = "%I::ft"] type T = super::ft::T; } struct S { t: T }',
    'alias in an array': INC + '#[namespace = "%I::ft"] type T = super::ft::T; fn f(t: T); } struct S { t: [T; 4] }',
    'alias in a box': INC + '#[namespace = "%I::ft"] type T = super::ft::T; } extern "Rust" { fn g(t: Box<T>); }',
    'alias in a vec': INC + '#[namespace = "%I::ft"] type T = super::ft::T; } extern "Rust" { fn g(t: Vec<T>); }',
    'alias in a slice': INC + '#[namespace = "%I::ft"] type T = super::ft::T; } extern "Rust" { fn g(t: &[T]); }',
    'fallible, nothing returned': INC + 'fn f() -> Result<()>; }',
    'fallible, argument': INC + 'fn f(a: String) -> Result<()>; }',
    'fallible Rust function': 'extern "Rust" { fn g() -> Result<()>; }',
    'fallible Rust method': 'extern "Rust" { type R; fn g(self: &R) -> Result<u8>; }',
    'Rust method': 'extern "Rust" { type R; fn g(self: &mut R, x: u8); }',
    'struct method': 'struct S { a: u8 } extern "Rust" { fn g(self: &S) -> usize; }',
    'struct method in C++': 'struct S { a: u8 } ' + INC + 'fn h(self: &S); }',
    'C++ method': INC + 'type C; fn m(self: &C); }',
    'renamed function': INC + '#[cxx_name = "f"] fn ff(); }',
    'async-like names': INC + '#[rust_name = "await_"] fn f(); }',
    'namespaced items': '#[namespace = "a::b"] struct S { a: u8 } #[namespace = "a"] enum E { A } extern "Rust" { #[namespace = "b"] type R; }',
    'namespaced function': INC + '#[namespace = "%I"] fn f(x: usize); }',
    'documented': '/// a comment\nstruct S { /** b */ a: u8 }\n/// e\nenum E { /// v\n A }\nextern "Rust" { /// t\n type R; /// f\n fn g(); }',
    'cfg': '#[cfg(all())] struct S { a: u8 } #[cfg(any())] enum E { A }',
    'lifetime type': "extern \"Rust\" { type R<'a>; unsafe fn g<'a>(r: &R<'a>); }",
    'callback': INC + 'fn f(cb: fn(u8) -> u8); }',
    'callback of strings': INC + 'fn f(cb: fn(String, &str) -> String); }',
    'fallible callback user': INC + 'fn f(cb: fn()) -> Result<()>; }',
    'raw pointers': INC + 'type C; unsafe fn f(c: *mut C, d: *const u8) -> *mut C; }',
    'raw pointer to Rust type': 'extern "Rust" { type R; unsafe fn g(r: *mut R); }',
}
DERIVES = ['Clone', 'Copy', 'Clone, Copy', 'Debug', 'Default', 'PartialEq', 'PartialEq, Eq', 'PartialEq, PartialOrd',
           'PartialEq, Eq, PartialOrd, Ord', 'Hash', 'PartialEq, Eq, Hash', 'Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash']
for _d in DERIVES:
    if 'Copy' != _d:
        MORE['struct derives ' + _d] = '#[derive(%s)] struct S { a: u8 }' % _d
        if 'Copy' not in _d:
            MORE['struct of strings derives ' + _d] = '#[derive(%s)] struct S { a: String }' % _d
    MORE['namespaced struct derives ' + _d] = '#[derive(%s)] #[namespace = "q::r"] struct S { a: u8 }' % _d.replace('Copy', 'Clone, Copy').replace('Clone, Clone', 'Clone')
    MORE['enum derives ' + _d] = '#[derive(%s)] enum E { A, B }' % _d.replace('Default', 'Clone')
for _t, _need in [('Box<R>', 'R'), ('Box<S>', 'S'), ('Vec<R>', 'R'), ('Vec<S>', 'S'), ('Vec<E>', 'E'), ('UniquePtr<C>', 'C'), ('UniquePtr<S>', 'S'),
                  ('UniquePtr<E>', 'E'), ('SharedPtr<C>', 'C'), ('SharedPtr<S>', 'S'), ('WeakPtr<C>', 'C'), ('WeakPtr<S>', 'S'), ('CxxVector<C>', 'C'),
                  ('CxxVector<S>', 'S'), ('CxxVector<E>', 'E'), ('UniquePtr<P>', 'P'), ('CxxVector<P>', 'P'),
                  ('SharedPtr<P>', 'P'), ('Vec<P>', 'P'), ('Box<P>', 'P')]:
    MORE['impl ' + _t] = '%s impl %s {}' % (tygrid.BASE[_need].replace('%s', '%I'), _t)
# what only goes together
PAIRS = ['u8', 'isize', 'usize', 'String', '&str', '&[u8]', '&mut [u8]', 'Vec<u8>', 'Box<R>', 'UniquePtr<C>', 'SharedPtr<C>', 'fn(u8)', '[u8; 2]', '&CxxString',
         'Vec<String>', '&[String]']


FEW = {'u8', 'isize', 'usize', 'String', 'CxxString', 'S', 'C', 'R', 'P', 'E', 'T', 'str', '()'}


def terms(deep):
    base = [at(x) for x in PRIM + ['String', 'CxxString', '()', 'C', 'R', 'S', 'E', 'P', 'T']] + [('&', at('str'))]
    wraps = W1 + [w for w in WR if w not in ('Option', 'Pin&')]
    one = [wr(w, t) for w in wraps for t in base if t[0] == 'a' and (deep or tygrid.names(t) <= FEW)]
    two = [wr(w, t) for w in wraps for t in one if tygrid.names(t) <= FEW]
    if not deep:
        two = [t for t in two if t[0] in ('UniquePtr', '&[]', '[;2]', '&') and t[1][0] in ('CxxVector', 'Vec', 'Box', 'SharedPtr', 'UniquePtr')
               and tygrid.names(t) <= {'u8', 'String', 'S', 'R'}]
    else:
        two = [t for t in two if tygrid.names(t) <= {'u8', 'isize', 'String', 'S', 'P', 'C', 'R', 'str'}]
    return base, one, two


def witnesses(deep):
    """(name, bridge)"""
    out = [('more: ' + k, v) for k, v in MORE.items()]
    for depth, ts in enumerate(terms(deep)):
        for t in ts:
            for pos in tygrid.POSITIONS:
                if pos == 'cout' or not deep and (depth and pos in ('farr', 'fptrret', 'mret', 'rmarg', 'marg', 'rres') or depth > 1 and pos not in ('carg', 'rret', 'field')):
                    continue
                if depth > 1 and pos in ('fptr', 'fptrret', 'farr', 'mret', 'rmarg') or tygrid.lost_lifetime(pos, t):
                    continue
                try:
                    if not tygrid.pos_valid(pos, t):
                        continue
                except (ValueError, TypeError, KeyError):
                    continue
                c = tygrid.case('%I', pos, t)
                out.append(('%s as %s' % (tygrid.show(t), pos), c.bridge))
    for a, b in itertools.product(PAIRS, PAIRS):
        need = ''.join(sorted({k for k in 'RC' if k in re.findall(r'<(\w)>', a + ' ' + b)}))
        decl = (' type C; ' if 'C' in need else '')
        rdecl = 'extern "Rust" { type R; }' if 'R' in need else ''
        if 'fn' not in b:
            out.append(('C++ takes %s, Rust takes %s' % (a, b), INC + decl + 'fn f(a: %s); } extern "Rust" { fn g(b: %s); } %s' % (a, b, rdecl)))
    return out


def compile_(b, comp, std, src, d, strict=False, flags=()):
    inc = ['-I', d]
    if strict:
        inc += ['-nostdinc', '-nostdinc++', '-isystem', STRICT]
    if comp == 'clang++':
        warn = ['-Wno-everything'] + ['-Werror=c++%d-extensions' % n for n in (14, 17, 20, 23) if std < 'c++%d' % n]
    else:
        warn = ['-w']
    r = b.run([comp, '-std=' + std, '-fsyntax-only', *warn, *inc, *flags, '-x', 'c++', src], ok=False, cwd=d)
    if r.returncode == 0:
        return None
    return '[%s -std=%s%s]\n%s' % (comp, std, ' strict library' if strict else '', '\n'.join(re.findall(r'^.*(?:error|required from here).*$', r.err, re.M))[:1500])


def guards(text):
    return tuple(sorted(set(re.findall(r'CXXBRIDGE1_(?!STRUCT|ENUM|HASH)\w+', text))))


def instances(header):
    """Explicit instantiation of whatever library templates a header names, so that their members are looked at as well."""
    out = []
    for m in re.finditer(r'::rust::(Slice|Vec|Box)<', header):
        depth, j = 1, m.end()
        while depth:
            depth += {'<': 1, '>': -1}.get(header[j], 0)
            j += 1
        arg = header[m.end():j - 1]
        x = header[m.start():j]
        if x not in out and (m.group(1) == 'Slice' or not re.search(r'(::R|::C|::T|[*&])$|unique_ptr|::Box<', arg)):
            out.append(x)
    return ''.join('template class %s;\n' % x for x in out)


def check(b, r, tier):
    deep = tier == 'thorough'
    r.rules = ['every generated header and source compiles by itself, with nothing but forward declarations from the user, against a standard library '
               'in which each header declares only its own names (clang) and against the real one (clang, gcc)',
               'headers and sources of different bridges compile in one translation unit in either order, twice, and around rust/cxx.h']
    b.tools()
    d = os.path.dirname(os.path.dirname(b.path('c21.d', 'rust', 'x')))
    os.symlink(b.src + '/include/cxx.h', d + '/rust/cxx.h')
    ws = []
    todo = witnesses(deep)

    def gen(i, name, bridge, own):
        def go():
            id = 'g%d' % i
            with open('%s/%s.h' % (d, id), 'w') as f:
                f.write('#pragma once\n%snamespace %s {\n%s}\n' % ('#include "rust/cxx.h"\n' if own and i % 2 else '', id, USER))
            text = bridge.replace('%I', id)
            if own:
                text = 'unsafe extern "C++" { include!("rust/cxx.h"); }\n' + text
            rs = '%s/%s.rs' % (d, id)
            with open(rs, 'w') as f:
                f.write('#[cxx::bridge(namespace = "%s")]\nmod ffi {\n%s\n}\n' % (id, text))
            outs = []
            for a, o in (['--header'], '.rs.h'), ([], '.cc'):
                x = b.run([b.cli, rs] + a, ok=False)
                if x.returncode:
                    return None
                with open('%s/%s%s' % (d, id, o), 'w') as f:
                    f.write(x.out)
                outs.append(x.out)
            with open('%s/%s_h.cc' % (d, id), 'w') as f:
                f.write('#include "%s.rs.h"\n#include "%s.rs.h"\n' % (id, id) + instances(outs[0]))
            return id, name + (' with rust/cxx.h' if own else ''), text, outs
        return go
    jobs = [gen(i, n, t, False) for i, (n, t) in enumerate(todo)]
    k = len(todo)
    for j, (n, t) in enumerate(todo):
        if deep or n.startswith('more') or j % 4 == 0:
            jobs.append(gen(k, n, t, True))
            k += 1
    ws = [x for x in b.parallel(jobs) if x]
    for i, (n, t) in enumerate(todo):
        if n.startswith('more') and not any(w[0] == 'g%d' % i for w in ws):
            r.violation(n, 'the generator refuses this bridge\n' + t)
    r.count('bridges', len(ws))
    r.count('bridges_the_generator_refused', len(jobs) - len(ws))

    def alone(w, confs):
        def go():
            for src in w[0] + '.cc', w[0] + '_h.cc':
                for comp, std, strict, flags in confs:
                    e = compile_(b, comp, std, os.path.join(d, src), d, strict, flags)
                    if e:
                        return w, src, e
        return go
    stds = ('c++11', 'c++14', 'c++17', 'c++20')
    plan = []
    seen = set()
    for i, w in enumerate(ws):
        main = w[1].startswith('more')
        strict = stds if main else (stds[i % 4], stds[(i + 1) % 4]) if deep else (stds[i % 4],)
        confs = [('clang++', s, True, ()) for s in strict]
        if main or deep and i % 4 == 0 or i % 16 == 0:
            confs += [('g++', stds[i // 4 % 4], False, ()), ('clang++', stds[3 - i // 4 % 4], False, ())]
            if deep and main:
                confs += [(c, s, False, ()) for c in ('g++', 'clang++') for s in stds + ('c++23',)]
                if not re.search(r'throw|catch', w[3][1]):
                    confs.append(('g++', stds[i % 4], False, ('-fno-exceptions', '-DRUST_CXX_NO_EXCEPTIONS')))
        if 'SSIZE_T' in w[3][0] + w[3][1]:
            confs.append(('clang++', stds[i % 4], True, ('-D_WIN32', '-fms-extensions')))
        same = hash(tuple(re.sub(w[0] + r'(?!\d)', 'ID', o) for o in w[3]))
        if same in seen and not main:
            r.count('same_as_another')
            continue
        seen.add(same)
        plan.append((w, confs))
        r.count('compilations', 2 * len(confs))
    for x in b.parallel([alone(w, c) for w, c in plan]):
        if x:
            w, src, e = x
            r.violation('%s (%s)' % (w[1], 'header' if src.endswith('_h.cc') else 'source'), 'does not compile by itself\n%s\nbridge:\n%s' % (e, w[2]))

    named(b, r)
    linked(b, r, d, ws, deep)
    together(b, r, d, ws, deep)
    r.floor('bridges', 1500)
    r.floor('together', 800)
    r.sample({'bridges': [w[1] for w in ws[::len(ws) // 30]]})


NAMES = ['sub/%I.h', 'with space %I.h', "it's %I.h", '\u00e9t\u00e9 %I.hpp', '\u6587/%I', '%I.h++', 'a\\%I.h', '-%I.h', '%I$~@.h', './%I-dot.h', 'sub/../%I-up.h']


def named(b, r):
    """The header that is included is the one named, whatever its name."""
    d = b.path('named.d', 'x')
    cases = []
    for i, (name, angle) in enumerate((n, a) for n in NAMES for a in (False, True)):
        id = 'n%d' % i
        path = name.replace('%I', id)
        if angle and ('\\' in path or "'" in path or '$' in path or path[0] == '-' or ' ' in path or '@' in path):
            continue        # (not tokens of Rust)
        b.write('named.d/' + path, 'namespace %s { struct C; int seen%d(); }\n' % (id, i))
        os.makedirs(os.path.join(os.path.dirname(d), 'sub'), exist_ok=True)
        c = Case(id, 'unsafe extern "C++" { include!(%s); type C; fn f(c: &C); }' % ('<%s>' % path if angle else json.dumps(path, ensure_ascii=False)))
        c.spec = path
        c.hdr = 'void f(const struct C &);'
        c.bridge = c.bridge.replace('include!', 'include!("%s.h"); include!' % id, 1)
        c.user = 'namespace %s { inline int use() { return seen%d(); } }\n' % (id, i)
        cases.append(c)
    matrix.run(b, cases, 'named', cxx=('clang++', 'g++'))
    for c in cases:
        r.count('header_names')
        got = c.cli_got, c.rust_got, c.cxx_got
        if got != ('ok', 'ok', 'ok'):
            r.violation('included header %s' % re.sub(r'n\d+', 'X', c.spec), 'the generated C++ does not include the header %r\nC++ generator: %s; macro and rustc: %s; C++ compiler: %s\n%s\n%s\n%s'
                        % (c.spec, *got, c.cli_msg[:500], c.rust_msg[:500], c.cxx_msg[:500]))
    r.floor('header_names', 12)


def linked(b, r, d, ws, deep):
    """Library functions and template members that the generated code uses are defined in it or in cxx.cc."""
    pick = {}
    for w in ws:
        k = tuple(re.sub(w[0] + r'(?!\d)', 'ID', x) for x in (instances(w[3][0]),)) + guards(w[3][0]) + (() if not deep else guards(w[3][1]))
        pick.setdefault(k, w)
    obj = b.path('c21.d/cxx.o')
    b.run(['clang++', '-std=c++17', '-w', '-c', b.src + '/src/cxx.cc', '-o', obj])

    def syms(o, *a):
        return {l.split()[-1] for l in b.run(['nm', *a, o]).out.splitlines() if l.strip()}
    lib = syms(obj, '--defined-only')

    def one(w):
        def go():
            both = []
            for src in w[0] + '.cc', w[0] + '_h.cc':
                o = os.path.join(d, src + '.o')
                if b.run(['clang++', '-std=c++17', '-w', '-c', '-I', d, src, '-o', o], ok=False, cwd=d).returncode:
                    return None     # reported elsewhere
                both.append(o)
            have = lib | syms(both[0], '--defined-only')
            need = syms(both[0], '-u') | syms(both[1], '-u')
            for o in both:
                os.unlink(o)
            return w, len(need), sorted(x for x in need - have 
                                       # (containers of a type that another bridge declares are that bridge's to define)
                                       if re.match(r'_ZNK?4rust10cxxbridge1', x) and '2ft1T' not in x)
        return go
    for x in b.parallel([one(w) for w in pick.values()]):
        if x:
            w, n, missing = x
            r.count('linked_objects', 2)
            r.count('symbols_needed', n)
            if missing:
                r.violation('%s (definitions)' % w[1], 'the generated code refers to library functions that are defined nowhere: %s\nbridge:\n%s'
                            % (b.run(['c++filt'] + missing[:6]).out, w[2]))
    r.floor('linked_objects', 100)


def together(b, r, d, ws, deep):
    """One bridge for each combination of library parts that its header (its source) contains."""
    heads, srcs = {}, {}
    for w in ws:
        if 'with rust/cxx.h' in w[1]:
            continue
        heads.setdefault(guards(w[3][0]), w)
        srcs.setdefault(guards(w[3][1]), w)
    own = next(w for w in ws if 'with rust/cxx.h' in w[1])
    hs, ss = list(heads.values()), list(srcs.values())
    r.count('kinds_of_header', len(hs))
    r.count('kinds_of_source', len(ss))
    stds = ('c++11', 'c++14', 'c++17', 'c++20')
    jobs = []

    def tu(key, lines, n):
        def go():
            p = b.write('c21.d/tu_%s.cc' % re.sub(r'\W+', '_', key), ''.join('#include "%s"\n' % x for x in lines))
            for comp, std, strict in ([('clang++', stds[n % 4], True)] + ([('g++', stds[(n + 1) % 4], False)] if deep or n % 16 == 0 else [])):
                e = compile_(b, comp, std, p, d, strict)
                if e:
                    return key, lines, e
        return go
    n = 0
    for x in hs:
        for y in hs:
            if x is not y:
                n += 1
                jobs.append(tu('headers %s %s' % (x[0], y[0]), [x[0] + '.rs.h', y[0] + '.rs.h', x[0] + '.rs.h'], n))
        for y in ss:
            if x is not y:
                n += 1
                jobs.append(tu('header and source %s %s' % (x[0], y[0]), [x[0] + '.rs.h', y[0] + '.cc'], n))
    for x in hs + ss:
        n += 1
        jobs.append(tu('cxx.h before %s' % x[0], ['rust/cxx.h', x[0] + '.rs.h', x[0] + '.cc'], n))
        jobs.append(tu('cxx.h after %s' % x[0], [x[0] + '.rs.h', 'rust/cxx.h', x[0] + '.cc'], n))
        jobs.append(tu('own header first %s' % x[0], [x[0] + '.rs.h', x[0] + '.cc'], n))
        jobs.append(tu('with a bridge including cxx.h %s' % x[0], [x[0] + '.rs.h', own[0] + '.rs.h', x[0] + '.cc'], n))
        jobs.append(tu('after a bridge including cxx.h %s' % x[0], [own[0] + '.rs.h', x[0] + '.cc'], n))
    full = [w for w in ws if 'with rust/cxx.h' not in w[1]]
    for i in range(0, len(full), 60):
        part = [w[0] + '.rs.h' for w in full[i:i + 60]]
        jobs.append(tu('group %d' % i, part + part, i))
        jobs.append(tu('group reversed %d' % i, part[::-1], i + 1))
    r.count('together', len(jobs))
    names = {w[0]: w[1] for w in ws}
    for x in b.parallel(jobs):
        if x:
            key, lines, e = x
            for id in set(re.findall(r'\bg\d+\b', key)):
                key = re.sub(r'\b%s\b' % id, lambda m: '[%s]' % names[id], key)
            r.violation('together: ' + key, 'one translation unit including %s does not compile\n%s' % (', '.join(lines[:4]), e))
