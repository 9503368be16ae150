"""Witness scenarios: what crosses a bridged function, in every way it can finish."""
import re

from flow import AnalysisError, Exc, PathEnd, Unwind, explore, sym, U
from wit import BY
from xlang import (STD_EXC, Cursor, base_hooks, consume, consume_parts, give_ret, make_args, matches, move_out,
                   norm, pointee_dtor, read_arg, show, track)


class Harness:
    def __init__(self, prog, fns):
        self.prog = prog
        self.custom = False
        self.fns = {f.name: f for f in fns}
        self.hooks = base_hooks()
        h = self.hooks
        for f in fns:
            if f.lang == 'r':
                q = {None: 'wit::%s', 'R': '<wit::R>::%s'}.get(f.cls, '<wit::ffi::' + str(f.cls) + '>::%s')
                if f.fallible:
                    h.name(q % ('ok_' + f.name), self.user(f, 'ok'))
                    h.name(q % ('err_' + f.name), self.user(f, 'err'))
                else:
                    h.name(q % f.name, self.user(f))
            else:
                n = f.cppq
                h.pat(r'^%s(\[abi:cxx11\])?\(%s' % (re.escape(n), re.escape(f.cppsig + ')') if f.cppsig else ''), self.user(f))
        h.pat(r'^wit::sink_', self.sink)
        h.name('wit::user_fails', lambda p, m, c: p.choose(2, 'fails'))
        h.name('<indirect>', self.virtual)
        h.name('Other::text() const', self.text)
        h.name('OtherS::str[abi:cxx11]() const', self.text)
        h.pat(r'^std::__cxx11::basic_string<char, .*>::(data|length|size|c_str)\(\) const$', self.text_part)
        h.name('wit::C::~C()', pointee_dtor)
        h.name('wit::Cl::~Cl()', pointee_dtor)
        h.name('wit::Triv::~Triv()', lambda p, m, c: consume(p, c.args[0], 16, 'Triv'))
        h.name('wit::Triv::Triv(wit::Triv&&)', self.triv_move)
        h.name('wit::Triv::Triv(wit::Triv const&)', self.triv_copy)
        h.name('<wit::MyErr as alloc::string::ToString>::to_string', self.to_string)
        h.name('<wit::MyErr as core::ops::drop::Drop>::drop', self.err_drop)
        h.pat(r'^<wit::MyErr as alloc::string::SpecToString>::spec_to_string', self.to_string)

    def triv_move(self, p, m, c):
        p.memcpy(c.args[0], c.args[1], 16)
        o, off = p.deref(c.args[1])
        p.write(o, off, 16, ('s', ('moved', p.fresh('m')), 0, 16))

    def triv_copy(self, p, m, c):
        tag = p.fresh('clone')
        o, off = p.deref(c.args[0])
        p.write(o, off, 16, sym(tag, 0, 16))
        track(p, tag, [(0, 16, 'Triv')])

    def text(self, p, m, c):
        p.event('text', c.args[0])
        p.nonnull.add(sym('text', 0, 8))
        return sym('text', 0, 8)

    def text_part(self, p, m, c):
        if c.args[0] != sym('text', 0, 8):
            raise AnalysisError('std::string other than the exception text: %s' % (c.args[0],))
        return ('x', 'textlen') if re.search(r'::(length|size)\(', c.dem) else sym('textdata', 0, 8)

    def err_drop(self, p, m, c):
        p.data['errdrops'] = p.data.get('errdrops', 0) + 1
        if p.choose(2, 'error destructor') and p.data.get('outcome') == 'err':
            p.data['outcome'] = 'drop-panic'
            p.event('user-panic')
            p.raise_(Exc('rust', label='user panic'))

    def to_string(self, p, m, c):
        if p.choose(2, 'display'):
            p.data['outcome'] = 'display-panic'
            p.event('user-panic')
            p.raise_(Exc('rust', label='user panic'))
        o, off = p.deref(c.args[0])
        tag = 'errmsg'
        p.write(o, off, 24, sym(tag, 0, 24))
        track(p, tag, [(0, 24, 'String')])
        p.event('err-to-string')

    def virtual(self, p, mod, c, fp):
        """std::exception::what() through the vtable of the user's exception."""
        vt = ('s', 'exc', 0, 8)
        if not isinstance(fp, int) and fp == ('s', ('*', vt), 16, 8):
            p.event('what', c.args[0])
            p.nonnull.add(sym('what', 0, 8))
            return sym('what', 0, 8)
        f = p.data.get('fn')
        if f is not None and fp == sym('a0', 0, 8) and f.args and f.args[0].fn:
            return self.rust_callback(p, mod, c)
        return NotImplemented

    def rust_callback(self, p, mod, c):
        """The user's Rust function behind a function pointer."""
        a, r = p.data['fn'].args[0].fn
        if p.data.get('cb'):
            p.event('called-twice', 'callback')
        p.data['cb'] = 1
        cur = Cursor([x for x in zip(c.types, c.attrs, c.args) if 'sret' not in x[1]])
        parts = []
        for i, k in enumerate(a):
            t = BY[k]
            got = read_arg(p, mod, 'r', t, cur)
            if not matches(got[0], t, 'x%d' % i):
                p.event('mismatch', 'callback argument %d (%s) arrives as %s' % (i, t.rust, show(got[0])))
            for (off, n, kind) in t.res:
                consume_parts(p, slice_parts(got[0], off, n), n, kind, 'received by callback')
        if cur.peek() is not None:
            p.event('mismatch', 'extra machine arguments at the callback')
        if p.choose(2, 'cb-outcome'):
            p.data['outcome'] = 'cb-panic'
            p.event('user-panic')
            p.raise_(Exc('rust', label='user panic'))
        p.event('cb-return')
        if r:
            track(p, 'cbret', BY[r].res)
        return give_ret(p, mod, 'r', BY[r] if r else None, 'cbret', c)

    def use_callback(self, p, t, addr_parts):
        q = self.prog.find('wit::q_' + t.key)
        if len(q) != 1:
            raise AnalysisError('q_' + t.key)
        o = p.new('fnobj', 16, None, 'stack')
        ob, off = p.deref(o)
        for (a, n, v) in addr_parts:
            p.write(ob, off + a, n, v)
        items = [('ptr', o)]
        for i, k in enumerate(t.fn[0]):
            y = BY[k]
            track(p, 'x%d' % i, y.res)
            items.append((y, 'x%d' % i) if y.triv else ('ptr', p.new('arg', y.size, 'x%d' % i, 'heap')))
        save = p.data['fn']
        p.data['cbmode'] = t
        p.callfn(q[0], make_args(p, q[0], 'c', items))
        p.data['cbmode'] = None

    def user(self, f, part=None):
        def hook(p, mod, c):
            if p.data.get('fn') is not f:
                raise AnalysisError('unexpected call of %s in %s' % (f.name, p.data.get('fn') and p.data['fn'].name))
            if p.data.get('calls'):
                p.event('called-twice', f.name)
            p.data['calls'] = p.data.get('calls', 0) + 1
            cur = Cursor(list(zip(c.types, c.attrs, c.args)))
            its = cur.items
            cur.items = [x for x in its if 'sret' not in x[1]]
            got = []
            if f.cls:
                got.append(('self', cur.next()[2], None))
            for a in f.args:
                got.append((a,) + read_arg(p, mod, f.lang, a, cur))
            if cur.peek() is not None:
                p.event('mismatch', 'extra machine arguments at %s' % c.dem)
            p.data['delivered'] = got
            i = 0
            for g in got:
                if g[0] == 'self':
                    if p.canon(g[1]) != p.data['self']:
                        p.event('mismatch', 'receiver is %s' % (g[1],))
                    continue
                if not matches(g[1], g[0], 'a%d' % i):
                    p.event('mismatch', 'argument %d (%s) arrives as %s' % (i, g[0].rust, show(g[1])))
                i += 1
            owned = [(i, a, g) for i, (a, g) in enumerate(zip(f.args, [g for g in got if g[0] != 'self'])) if a.res]
            if f.lang == 'r':
                out = p.choose(2, 'outcome')
                for i, a, g in owned:
                    for (off, n, kind) in a.res:
                        consume_parts(p, slice_parts(g[1], off, n), n, kind, 'received by callee')
                if out == 1:
                    p.data['outcome'] = 'panic'
                    p.event('user-panic')
                    p.raise_(Exc('rust', label='user panic'))
                if part == 'err':
                    p.data['outcome'] = 'err'
                    p.event('user-err')
                    return None
                p.data['outcome'] = 'return'
                if f.ret:
                    track(p, 'ret', f.ret.res)
                p.event('user-return')
                return give_ret(p, mod, 'r', f.ret, 'ret', c)
            # C++
            for (i, a, g) in [(i, a, g) for i, (a, g) in enumerate(zip(f.args, [g for g in got if g[0] != 'self'])) if a.fn]:
                if p.choose(2, 'invoke callback'):
                    self.use_callback(p, a, g[1])
            out = p.choose(4 if self.custom else 3, 'outcome')
            take = p.choose(2, 'take') if owned else 0
            if take:
                for i, a, g in owned:
                    for (off, n, kind) in a.res:
                        consume_parts(p, slice_parts(g[1], off, n), n, kind, 'taken by callee')
                        move_out(p, g[2], off, n, kind)
            p.data['outcome'] = ['return', 'throw-std', 'throw-other', 'throw-text'][out]
            if out:
                p.event('user-throw', out)
                e = Exc('cxx', [None, [STD_EXC], ['_ZTI5Other'], ['_ZTI6OtherS']][out], p.new('exc', 8, 'exc', 'heap'), 'user exception')
                p.data['exc'] = e
                p.raise_(e)
            if f.ret:
                track(p, 'ret', f.ret.res)
            p.event('user-return')
            return give_ret(p, mod, 'c', f.ret, 'ret', c)
        return hook

    def sink(self, p, mod, c):
        f = p.data['fn']
        cb = p.data.get('cbmode')
        ret, tag = (f.ret, 'ret') if cb is None else (cb.fn[1] and BY[cb.fn[1]], 'cbret')
        base = re.match(r'^wit::(sink_\w+)', c.dem).group(1)
        lang = 'c' if '(' in c.dem else 'r'
        p.data.setdefault('sinks', []).append(base)
        if base == 'sink_unit' or base == 'sink_other':
            p.event(base)
            return None
        if base == 'sink_err':
            p.event('sink_err', tuple(c.args))
            p.data['err_args'] = c.args
            return None
        cur = Cursor([x for x in zip(c.types, c.attrs, c.args) if 'sret' not in x[1]])
        parts, addr = read_arg(p, mod, lang, ret, cur)
        if not matches(parts, ret, tag):
            p.event('mismatch', 'return value (%s) arrives as %s' % (ret.rust, show(parts)))
        for (off, n, kind) in ret.res:
            if lang == 'r':
                consume_parts(p, slice_parts(parts, off, n), n, kind, 'received by caller')
            else:
                consume_parts(p, slice_parts(parts, off, n), n, kind, 'received by caller')
                move_out(p, addr, off, n, kind)
        p.event('sink')
        return None

    def run(self, f, limit=400):
        if f.lang == 'c':
            entry = self.prog.find('wit::p_' + f.name)
        else:
            entry = [g for g in self.prog.find('wit::p_' + f.name)]
        if len(entry) != 1:
            raise AnalysisError('probe for %s: %d found' % (f.name, len(entry)))
        fn = entry[0]

        def scenario(p):
            p.data['fn'] = f
            items = []
            if f.cls:
                q = sym('self', 0, 8)
                p.data['self'] = q
                p.nonnull.add(q)
                items.append(('ptr', q))
            for i, a in enumerate(f.args):
                tag = 'a%d' % i
                track(p, tag, a.res)
                items.append((a, tag))
            lang = 'r' if f.lang == 'c' else 'c'
            if lang == 'c':
                # the probe takes owned values by pointer
                its = []
                for it in items:
                    if it[0] != 'ptr' and not it[0].triv:
                        its.append(('ptr', p.new('arg', it[0].size, it[1], 'heap')))
                    else:
                        its.append(it)
                items = its
            args = make_args(p, fn, lang, items)
            return p.callfn(fn, args)

        return explore(self.prog, self.hooks, scenario, limit)


def slice_parts(parts, off, n):
    out = []
    from flow import vslice
    for (o, s, v) in parts:
        a, b = max(o, off), min(o + s, off + n)
        if a < b:
            out.append((a - off, b - a, vslice(v, s, a - o, b - a)))
    return out
