"""Witness bridges put before both code generators and both compilers.

A case is one bridge in a module of its own, with whatever the bridge refers to. What is decided is whether each stage
(C++ generator, macro and Rust compiler, C++ compiler) accepts it, and with which error code it refuses."""
import json
import os
import re

import build

ADJ = re.compile(r'^\s*$')


class Case:
    def __init__(self, id, bridge, rust='', hdr='', rust_want='ok', cli_want='ok', cxx_want='ok', attr=None, group='', note='', user='',
                 cli_args=(), vis='pub', header=False):
        self.id = id                  # identifier, also the C++ namespace
        self.bridge = bridge          # the items of the bridge module
        self.rust = rust              # Rust around it (inside the case's module)
        self.hdr = hdr                # C++ it includes, in namespace <id>
        self.user = user              # C++ after the generated code
        self.rust_want, self.cli_want, self.cxx_want = rust_want, cli_want, cxx_want
        self.attr = attr
        self.group = group
        self.note = note
        self.cli_args = list(cli_args)
        self.vis = vis
        self.header = header          # the C++ sees the generated header only
        self.alone = cxx_want == 'error' or header
        self.rust_got = self.cli_got = self.cxx_got = None
        self.rust_msg = self.cli_msg = self.cxx_msg = ''

    def attrs(self):
        return '#[cxx::bridge(namespace = "%s")]' % self.id if self.attr is None else self.attr

    def cli_text(self):
        return '%s\n%s mod ffi {\n%s\n}\n' % (self.attrs(), self.vis, self.bridge)

    def rust_text(self):
        return 'pub mod %s {\n#[allow(unused_imports)] use super::common::*;\n%s\n%s\n%s mod ffi {\n%s\n}\n}\n' % (
            self.id, self.rust, self.attrs(), self.vis, self.bridge)


COMMON_RS = '''#![allow(warnings)]
pub mod found {
    use cxx::{type_id, ExternType};
    #[repr(C)] #[derive(Clone, Copy)] pub struct T { pub x: u32 }
    unsafe impl ExternType for T { type Id = type_id!("found::T"); type Kind = cxx::kind::Trivial; }
    #[repr(C)] pub struct O { _p: [u8; 0], _pin: core::marker::PhantomData<core::marker::PhantomPinned> }
    unsafe impl ExternType for O { type Id = type_id!("found::O"); type Kind = cxx::kind::Opaque; }
}
pub mod common { pub use cxx::{self, CxxString, CxxVector, UniquePtr, SharedPtr, WeakPtr, ExternType, type_id}; pub use core::pin::Pin; pub use crate::found; pub use core::ffi::c_char; }
'''

COMMON_H = '''#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
namespace found {
struct T { std::uint32_t x; };
struct O { O(const O &); O(O &&); ~O(); std::uint32_t x; };
}
'''


def run_cli(b, cases, d):
    def one(c):
        def go():
            src = os.path.join(d, c.id + '.rs')
            with open(src, 'w') as f:
                f.write(c.cli_text())
            with open(os.path.join(d, c.id + '.h'), 'w') as f:
                f.write('#pragma once\n#include "common.h"\nnamespace %s {\n%s\n}\n' % (c.id, c.hdr))
            oks = []
            for a, o in (['--header'], '.rs.h'), ([], '.cc'):
                r = b.run([b.cli, src] + a + c.cli_args, ok=False)
                oks.append(r.returncode == 0)
                if r.returncode == 0:
                    out = r.out
                    if o == '.cc':
                        if c.header:
                            out = '#include "%s.rs.h"\n' % c.id
                        out += '\n#line 1 "%s.user"\n%s\n' % (c.id, c.user)
                    with open(os.path.join(d, c.id + o), 'w') as f:
                        f.write(out)
                else:
                    c.cli_msg = r.err.strip()
                if r.returncode not in (0, 1, 2):      # (2: the command line was refused)
                    oks.append(None)
            if None in oks:
                c.cli_got = 'crash'
            elif oks[0] != oks[1]:
                c.cli_got = 'header and source disagree'
            else:
                c.cli_got = 'ok' if oks[0] else 'error'
                if not oks[0] and 'error' not in c.cli_msg:
                    c.cli_got = 'silent error'
        return go
    b.parallel([one(c) for c in cases])


def spans(m):
    """Every span of a diagnostic, outermost expansion first, primary ones before others."""
    out = []
    for s in sorted(m.get('spans', ()), key=lambda s: not s.get('is_primary')):
        chain = []
        while s:
            chain.append(s)
            e = s.get('expansion')
            s = e['span'] if e else None
        out += chain
    for ch in m.get('children', ()):
        out += spans(ch)
    return out


def run_rust(b, cases, d, rlib, batch=160, common=COMMON_RS, extra=()):
    groups = [cases[i:i + batch] for i in range(0, len(cases), batch)]

    def job(n, group):
        def go():
            rest = list(group)
            for rnd in range(12):
                if not rest:
                    return
                path = os.path.join(d, 'batch%d_%d.rs' % (n, rnd))
                lines = common.count('\n')
                text = [common]
                where = []
                for c in rest:
                    t = c.rust_text()
                    where.append((lines + 1, lines + t.count('\n'), c))
                    lines += t.count('\n')
                    text.append(t)
                with open(path, 'w') as f:
                    f.write(''.join(text))
                r = b.run(['rustc', path, '--crate-name', 'batch', '--edition', '2021', '--crate-type', 'rlib',
                           '--extern', 'cxx=' + rlib, '-L', b.deps, '--emit=metadata', '-o', os.path.join(d, 'batch%d.rmeta' % n),
                           '--error-format=json', *extra], ok=False, cwd=d)
                hit = {}
                lost = []
                for l in r.err.splitlines():
                    try:
                        m = json.loads(l)
                    except ValueError:
                        lost.append(l)
                        continue
                    if m.get('level') not in ('error', 'error: internal compiler error'):
                        continue
                    c = None
                    for s in spans(m):
                        if s['file_name'].endswith(os.path.basename(path)):
                            for lo, hi, k in where:
                                if lo <= s['line_start'] <= hi:
                                    c = k
                                    break
                        if c:
                            break
                    if c is None:
                        if m['message'].startswith(('aborting due', 'could not compile')):
                            continue
                        lost.append(m['message'])
                        continue
                    code = (m.get('code') or {}).get('code') or ('panic' if 'panicked' in m['message'] else 'macro')
                    hit.setdefault(c.id, []).append((code, m['message'] + ' ' + ' '.join(x['message'] for x in m.get('children', ()))))
                if r.returncode == 0:
                    for c in rest:
                        c.rust_got = 'ok'
                    return
                if not hit:
                    raise build.BuildError('witness bridges', '\n'.join(lost)[:3000])
                for c in list(rest):
                    if c.id in hit:
                        c.rust_got = ' '.join(sorted({x for x, _ in hit[c.id]}))
                        c.rust_msg = '; '.join(m for _, m in hit[c.id])[:1500]
                        rest.remove(c)
            raise build.BuildError('witness bridges', 'still failing after 12 rounds')
        return go
    b.parallel([job(i, g) for i, g in enumerate(groups)])


def run_cxx(b, cases, d, compiler='clang++', std='c++17', batch=60, inc=()):
    single = [c for c in cases if c.alone or 'rust/cxx.h' in c.hdr]
    cases = [c for c in cases if not (c.alone or 'rust/cxx.h' in c.hdr)]
    groups = [cases[i:i + batch] for i in range(0, len(cases), batch)]

    def one(c):
        def go():
            r = b.run([compiler, '-std=' + std, '-fsyntax-only', '-w', '-I', d, *inc, '-x', 'c++', os.path.join(d, c.id + '.cc')], ok=False, cwd=d)
            c.cxx_got = 'error' if r.returncode else 'ok'
            c.cxx_msg = '\n'.join(re.findall(r'error: (.*)', r.err))[:1500]
        return go

    def job(n, group):
        def go():
            rest = list(group)
            for rnd in range(8):
                if not rest:
                    return
                tu = os.path.join(d, 'tu_%s_%s_%d_%d.cc' % (compiler.replace('+', 'p'), std.replace('+', 'p'), n, rnd))
                with open(tu, 'w') as f:
                    f.write(''.join(isolate(d, c) for c in rest))
                flags = ['-ferror-limit=0'] if 'clang' in compiler else ['-fmax-errors=0']
                r = b.run([compiler, '-std=' + std, '-fsyntax-only', '-w', '-I', d, *inc, *flags, tu], ok=False, cwd=d)
                if r.returncode == 0:
                    for c in rest:
                        c.cxx_got = 'ok'
                    return
                hit = attribute(r.err, {c.id: c for c in rest})
                if not hit:
                    break
                for c in list(rest):
                    if c.id in hit:
                        one(c)()        # (by itself: an unclosed brace elsewhere makes innocents fail)
                        rest.remove(c)
            for c in rest:      # one by one
                one(c)()
        return go
    b.parallel([job(i, g) for i, g in enumerate(groups)] + [one(c) for c in single])


def isolate(d, c):
    """Include one bridge's generated code so that several fit into one translation unit: each gets its own copy of
    whatever the generator emitted into namespace rust, while standard headers are only read once."""
    with open(os.path.join(d, c.id + '.cc')) as f:
        guards = sorted(set(re.findall(r'^#define (CXXBRIDGE1_\w+)', f.read(), re.M)))
    return '#define rust rust_%s\n#include "%s.cc"\n#undef rust\n%s' % (c.id, c.id, ''.join('#undef %s\n' % g for g in guards))


def attribute(err, ids):
    """Errors of a C++ compiler, by the case whose file they (or their instantiation) point into."""
    hit = {}
    lines = err.splitlines()
    pend = None
    ctx = []
    for l in lines:
        m = re.match(r'(.*?):(\d+):(?:\d+:)? (fatal error|error|note|warning): (.*)', l) or re.match(r'(.*?):(\d+):(?:\d+:)?   (required from)(.*)', l)
        files = [re.sub(r'\.(cc|h|rs\.h|user)$', '', os.path.basename(f)) for f in re.findall(r'([\w./-]+\.(?:cc|h|user))[:,]', l)]
        mine = [f for f in files if f in ids]
        if m and m.group(3) in ('error', 'fatal error'):
            own = re.sub(r'\.(cc|h|rs\.h|user)$', '', os.path.basename(m.group(1)))
            if own in ids:
                hit.setdefault(own, []).append(m.group(4))
                pend = None
            elif ctx:
                hit.setdefault(ctx[-1], []).append(m.group(4))
                pend = None
            else:
                pend = m.group(4)
            ctx = []
        elif mine:
            if pend:
                hit.setdefault(mine[-1], []).append(pend)
                pend = None
            ctx.append(mine[-1])
    return hit


def run(b, cases, name='matrix', cxx=('clang++',), stds=('c++17',), rlib=None, common=COMMON_RS, common_h=COMMON_H, extra=(),
        cxx_all=False):
    assert len({c.id for c in cases}) == len(cases)
    b.tools()
    d = os.path.dirname(b.path(name + '.d', 'rust', 'x'))
    os.symlink(b.src + '/include/cxx.h', d + '/cxx.h') if not os.path.exists(d + '/cxx.h') else None
    d = os.path.dirname(d)
    with open(d + '/common.h', 'w') as f:
        f.write(common_h)
    rlib = rlib or b.cxxlib()[1]
    run_cli(b, cases, d)
    run_rust(b, cases, d, rlib, common=common, extra=extra)
    todo = [c for c in cases if c.cli_got == 'ok' and (cxx_all or c.rust_got == 'ok' or c.cxx_want == 'error')]
    for comp in cxx:
        for std in stds:
            part = [c for c in todo if c.cxx_got in (None, 'ok')]
            run_cxx(b, part, d, comp, std)
            for c in part:
                if c.cxx_got == 'error':
                    c.cxx_msg = '[%s -std=%s] %s' % (comp, std, c.cxx_msg)
    return d
