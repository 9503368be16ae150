"""Assumptions about foreign types: tables of witness programs, hostile standard libraries, and sizes of opaque Rust types."""
import os

import build
import flow
import llir
import matrix
import rows
from matrix import Case

RULES = ['witness programs: sizes and alignments of every library pair hold in both compilers; IsRelocatable has the documented value for every kind of class; C++ programs that '
         'make, copy, move or destroy an opaque Rust object, or own an incomplete type, are refused and their twins accepted',
         'hostile standard library: with smart pointers or strings replaced by wider or more aligned ones, cxx.cc and generated code that relies on their layout '
         'must fail to compile; with replacements of the same layout they must compile',
         'the size and alignment that generated code reports to C++ for an opaque Rust type are those of the Rust type (constants in its LLVM IR)']

FAT = '''#include <cstdint>
#include <cstddef>
#include <cstring>
#include <exception>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <algorithm>
#include <array>
#include <cassert>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <iostream>
#include <cstdlib>
#include <tuple>
#include <limits>
#include <cstdio>
#if __cplusplus >= 202002L
#include <ranges>
#include <compare>
#endif
namespace std {
template <class T> struct %(a)s swapped_unique_ptr : unique_ptr<T> { using B = unique_ptr<T>; using B::B; swapped_unique_ptr() = default; swapped_unique_ptr(B b) : B(std::move(b)) {} %(m)s };
template <class T> struct %(a)s swapped_shared_ptr : shared_ptr<T> { using B = shared_ptr<T>; using B::B; swapped_shared_ptr() = default; swapped_shared_ptr(B b) : B(std::move(b)) {} %(m)s };
template <class T> struct %(a)s swapped_weak_ptr : weak_ptr<T> { using B = weak_ptr<T>; using B::B; swapped_weak_ptr() = default; swapped_weak_ptr(B b) : B(std::move(b)) {} %(m)s };
struct %(a)s swapped_string : string { using string::string; swapped_string() = default; swapped_string(string b) : string(std::move(b)) {} %(m)s };
}
#define %(w)s swapped_%(w)s
'''
SAME = ('', '')
WIDE = {'unique_ptr': 'void *extra = nullptr;', 'shared_ptr': 'void *extra = nullptr;', 'weak_ptr': 'void *extra = nullptr;', 'string': 'void *extra[5] = {};'}
BRIDGES = {
    # what is swapped: bridges that rely on it
    'unique_ptr': {'opaque': 'unsafe extern "C++" { include!("u.h"); type C; fn f(x: UniquePtr<C>) -> UniquePtr<C>; }',
                   'opaque, no function': 'unsafe extern "C++" { include!("u.h"); type C; } impl UniquePtr<C> {}',
                   'field': 'struct S { x: UniquePtr<C> } unsafe extern "C++" { include!("u.h"); type C; }',
                   'shared': 'struct S { x: u8 } unsafe extern "C++" { include!("u.h"); fn g(x: &UniquePtr<S>); }',
                   'vector': 'unsafe extern "C++" { include!("u.h"); type C; fn f(x: UniquePtr<CxxVector<C>>); }',
                   'vector, no function': 'unsafe extern "C++" { include!("u.h"); type C; } impl CxxVector<C> {}',
                   'Rust function': 'unsafe extern "C++" { include!("u.h"); type C; } extern "Rust" { fn r(x: UniquePtr<C>) -> UniquePtr<C>; }'},
    'shared_ptr': {'opaque': 'unsafe extern "C++" { include!("u.h"); type C; fn f(x: SharedPtr<C>) -> SharedPtr<C>; }',
                   'opaque, no function': 'unsafe extern "C++" { include!("u.h"); type C; } impl SharedPtr<C> {}',
                   'field': 'struct S { x: SharedPtr<C> } unsafe extern "C++" { include!("u.h"); type C; }',
                   'shared': 'struct S { x: u8 } unsafe extern "C++" { include!("u.h"); fn g(x: &SharedPtr<S>); }',
                   'Rust function': 'unsafe extern "C++" { include!("u.h"); type C; } extern "Rust" { fn r(x: SharedPtr<C>) -> SharedPtr<C>; }'},
    'weak_ptr': {'opaque': 'unsafe extern "C++" { include!("u.h"); type C; fn f(x: WeakPtr<C>) -> WeakPtr<C>; }',
                 'opaque, no function': 'unsafe extern "C++" { include!("u.h"); type C; } impl WeakPtr<C> {}',
                 'field': 'struct S { x: WeakPtr<C> } unsafe extern "C++" { include!("u.h"); type C; }',
                 'shared': 'struct S { x: u8 } unsafe extern "C++" { include!("u.h"); fn g(x: &WeakPtr<S>); }',
                 'Rust function': 'unsafe extern "C++" { include!("u.h"); type C; } extern "Rust" { fn r(x: WeakPtr<C>) -> WeakPtr<C>; }'},
    'string': {},
}
U_H = '#pragma once\nstruct C { C(const C &); ~C(); };\ntemplate <class R, class... Z> R f(Z...);\ntemplate <class R, class... Z> R g(Z...);\n'


def hostile(b, r, stds):
    d = os.path.dirname(b.path('hostile', 'rust', 'x'))
    if not os.path.exists(d + '/cxx.h'):
        os.symlink(b.src + '/include/cxx.h', d + '/cxx.h')
    d = os.path.dirname(d)
    with open(d + '/u.h', 'w') as f:
        f.write(U_H)
    jobs = []

    def compile(src, hdr, std):
        return b.run(['clang++', '-std=' + std, '-fsyntax-only', '-w', '-I', d, '-I', b.src, '-include', hdr, src], ok=False, cwd=d)

    for what, bridges in BRIDGES.items():
        vs = [('same layout', SAME, True), ('wider', ('', WIDE[what]), False), ('more aligned', ('alignas(16)', ''), False)]
        for vn, (al, mem), good in vs:
            hdr = os.path.join(d, 'swap_%s_%s.h' % (what, vn.replace(' ', '_')))
            with open(hdr, 'w') as f:
                f.write(FAT % {'a': al, 'm': mem, 'w': what})
            srcs = [('src/cxx.cc', os.path.join(b.src, 'src/cxx.cc'), None)]
            for bn, text in bridges.items():
                srcs.append(('bridge with ' + bn, os.path.join(d, '%s_%s.cc' % (what, bn.replace(' ', '_').replace(',', ''))), text))
            for sn, src, text in srcs:
                for std in stds:
                    def job(what=what, vn=vn, hdr=hdr, sn=sn, src=src, std=std, good=good):
                        p = compile(src, hdr, std)
                        r.count('hostile_library_compilations')
                        if good and p.returncode:
                            r.violation('hostile:%s:%s:%s' % (what, vn, sn), '%s does not compile (-std=%s) with a std::%s of the same layout:\n%s' % (sn, std, what, p.err[:1500]))
                        if not good and not p.returncode:
                            r.violation('hostile:%s:%s:%s' % (what, vn, sn), '%s compiles (-std=%s) with a %s std::%s, though it relies on its layout' % (sn, std, vn, what))
                    jobs.append(job)
                if text and vn == 'same layout':
                    rs = src[:-3] + '.rs'
                    with open(rs, 'w') as f:
                        f.write('#[cxx::bridge]\nmod ffi {\n%s\n}\n' % text)
                    with open(src, 'w') as f:
                        f.write(b.run([b.cli, rs]).out)
    b.parallel(jobs)


SIZES = [('u8', 1, 1), ('u16', 2, 2), ('[u8; 3]', 3, 1), ('(u8, u32)', 8, 4), ('u128', 16, 16), ('String', 24, 8), ('()', 0, 1), ('[u64; 100]', 800, 8), ('Box<u8>', 8, 8)]


def opaque(b, r):
    rs = ['#![allow(warnings)]\n#[cxx::bridge(namespace = "sz")]\npub mod ffi {\n extern "Rust" {']
    for i in range(len(SIZES)):
        rs.append('  type T%d;' % i)
    rs.append(' }\n' + ''.join(' impl Box<T%d> {} impl Vec<T%d> {}\n' % (i, i) for i in range(len(SIZES))) + '}')
    for i, (t, s, a) in enumerate(SIZES):
        rs.append('pub struct T%d(%s);' % (i, t))
    out = b.path('sz.ll')
    b.rustc(b.write('sz.rs', '\n'.join(rs)), 'sz', b.cxxlib()[1], ['--emit=llvm-ir=' + out] + build.CODEGEN)
    prog = flow.Program([llir.Module(out)])
    for i, (t, s, a) in enumerate(SIZES):
        for op, want in ('sizeof', s), ('alignof', a):
            n = 'sz$cxxbridge1$T%d$operator$%s' % (i, op)
            r.count('opaque_type_sizes')
            f = prog.defs.get(n)
            if f is None:
                r.violation('%s of %s' % (op, t), '%s is not defined by the generated Rust code' % n)
                continue
            for p, outcome, v in flow.explore(prog, flow.Hooks(), lambda p: p.callfn(f, [])):
                if (outcome, v) != ('return', want):
                    r.violation('%s of %s' % (op, t), '%s, which C++ asks for the %s of an opaque Rust type wrapping %s, gives %s instead of %d' % (
                        n, op, t, (outcome, v), want))


def check(b, r, tier):
    r.rules = RULES
    full = tier == 'thorough'
    rows.check(b, r, 'C16', tier, 100)
    opaque(b, r)
    hostile(b, r, ('c++11', 'c++17', 'c++20') if full else ('c++17',))
    r.floor('hostile_library_compilations', 55)
