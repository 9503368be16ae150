"""Errors of the generators: none is dropped, each reaches the caller or the exit status, success means complete output."""
import json
import os
import re

import mir
from mir import bare

ERROR = re.compile(r'(?:std::result::)?Result<.*[, <](?:[\w:]*Error(?:<.*>)?|(?:std::vec::)?Vec<[\w:]*Error>|(?:std::boxed::)?Box<dyn .*Error.*>)>$|^std::io::Result<.*>$|^syn::Result<|^std::fmt::Result$')
# looking something up; asking to remove what may not be there (C18 says what may be removed)
PROBE = re.compile(r'^std::(fs::(metadata|symlink_metadata|read_dir|read_link|try_exists|remove_file|remove_dir|remove_dir_all|DirEntry::(file_type|metadata))|'
                   r'path::Path::(metadata|symlink_metadata|canonicalize|read_dir|read_link|try_exists)|'
                   r'env::(var|var_os|current_dir|current_exe))$')
# what goes to the terminal while an error is being reported
TERMINAL = re.compile(r'^<(std::io::Stderr|std::io::StderrLock|.*StandardStreamLock|.*StandardStream|dyn .*WriteColor|&mut .*) as std::io::Write>::\w+$|term::emit(_\w+)?$|'
                      r'::print_(long_)?help$')
SWALLOW = re.compile(r'(?:std|core)::result::Result::<.*Error.*>::(ok|is_ok|is_err|err|unwrap_or|unwrap_or_default)$')
FLATTEN = re.compile(r'Iterator>::(flatten|filter_map|flat_map|map_while)(?:::<(.*)>)?$')
# what can be done with an error without telling anybody
LOOK = re.compile(r'::(to_string|fmt|clone|drop|into_iter|iter|next|deref|branch|kind|len|is_empty|raw_os_error|eq|ne|as_ref|as_slice|to_owned|span|as_bytes|into_bytes|utf8_error|from_utf8_lossy|into_owned|valid_up_to)$|Argument.*::new_\w+$|Arguments.*::new\w*$|'
                  r'(?:Hash|BTree|Unordered|Ordered)?Set(?:::<.*>)?::(insert|contains|replace)$')
# no way of failing at these is success
CONTENT = re.compile(r'^std::fs::(write|read|read_to_string|File::create|File::open)$|Write>::(write_all|write|flush)$|Read>::read_to_(end|string)$')
CLOSURE = '{closure#'


def has(t, x, d=0):
    return t == x or isinstance(t, tuple) and d < 30 and any(has(y, x, d + 1) for y in t if isinstance(y, tuple))


def which(st, t):
    """Which of two variants (or truth values) a path assumes: 0, 1, or None if it does not matter to it."""
    a = st.assume.get(t)
    if isinstance(a, tuple):
        return 0 if 1 in a[1] else 1 if 0 in a[1] else None
    return a


def failed(st, e):
    return which(st, ('disc', e[3]))


def calls(tr):
    return [e for e in tr if e[0] == 'call']


class Analysis:
    def __init__(self, name, c, r, deep=False):
        self.name, self.c, self.r = name, c, r
        self.deep = deep
        self.callers = {}
        self.memo = {}
        self.reached = {}
        for f in c.fns.values():
            if f.kind != 'fn':
                continue
            for _, _, callee, _, _ in c.calls(f):
                g = c.resolve(callee)
                if g:
                    self.callers.setdefault(g.name, set()).add(f.name)
            for x in c.consts(f):
                g = c.resolve(x)
                if g:
                    self.callers.setdefault(g.name, set()).add(f.name)
            if CLOSURE in f.name:
                self.callers.setdefault(f.name, set()).add(f.name[:f.name.rindex('::' + CLOSURE)])

    def interp(self, loops=1, budget=30000):
        return mir.Interp(self.c, inline=lambda g: CLOSURE in g.name, loops=loops, budget=budget)

    def paths(self, f, loops=1, budget=60000):
        """[(kind, term of the value, state, value)]"""
        k = (f.name, loops)
        if k not in self.memo:
            it = self.interp(loops, budget)
            outs = it.run(f, [('sym', ('arg', i)) for i in range(len(f.args))], mir.State())
            self.memo[k] = [(kind, it.term(v, st) if kind == 'ret' else None, st) for kind, v, st in outs]
        return self.memo[k]

    def reaching(self, names):
        """Functions from which one of these can be reached."""
        seen, work = set(names), list(names)
        while work:
            for g in self.callers.get(work.pop(), ()):
                if g not in seen:
                    seen.add(g)
                    work.append(g)
        return seen

    # 1. results
    def results(self):
        c, r = self.c, self.r
        for f in c.fns.values():
            if f.kind != 'fn':
                continue
            srcs = {callee for _, d, callee, _, ret in c.calls(f) if ret is not None and ERROR.search(f.types.get(d, ''))}
            args = [i for i, (_, t) in enumerate(f.args) if ERROR.match(t)]
            self.passed(f)
            if not srcs and not args:
                continue
            r.count('functions')
            try:
                # twice through loops where that is quick
                for loops, budget in ((2, 300000),) if self.deep else ((2, 200000 if not re.match(r"<?(?:impl at )?(gen|syntax)::|<impl at", f.name) else 10000), (1, 30000)):
                    try:
                        st = mir.State()
                        for i in args:
                            st.trace += (('call', '<argument>', (), ('arg', i)),)
                        it = self.interp(loops, budget)
                        outs = it.run(f, [('sym', ('arg', i)) for i in range(len(f.args))], st)
                        break
                    except mir.Budget:
                        if loops == 1 or self.deep:
                            raise
                bad = self.judge(it, outs, srcs | {'<argument>'})
            except mir.Budget:
                bad = self.piecewise(f, srcs)
            for callee, probe in sorted(bad.items()):
                why = self.excuse(f, callee, probe)
                if why:
                    r.count('failures that may be ignored')
                    r.sample('%s: %s in %s may be ignored: %s' % (self.name, bare(callee), f.name, why))
                else:
                    r.violation('dropped/%s/%s/%s' % (self.name, f.name, bare(callee)),
                                'on some way through %s (%s) the error of %s is dropped: the function goes on to return without it' % (f.name, self.name, callee))

    def judge(self, it, outs, srcs):
        """Calls whose error gets lost on a path: {callee: the state of such a path}"""
        bad = {}
        weak, strong = {}, set()
        self.r.count('paths', len(outs))
        for kind, v, st in outs:
            if kind != 'ret':
                continue
            while v[0] == 'ref':
                v = it.load(v[1], v[2], st)
            if v[0] == 'adt' and v[1] in ('Err', 'Break'):
                continue
            rt = it.term(v, st)
            tr = calls(st.trace)
            for i, e in enumerate(tr):
                if e[3] is None or e[1] not in srcs:
                    continue
                if failed(st, e) == 0:
                    continue
                later = tr[i + 1:]
                uses = [x for x in later if has(x[2], e[3])]
                if failed(st, e) == 1 and v[:2] == ('adt', 'Ok'):
                    if CONTENT.search(bare(e[1])) and not any(bare(x[1]) == bare(e[1]) for x in later):
                        bad.setdefault(e[1], e)
                    held = False
                else:
                    held = has(rt, e[3])
                if held or any(self.noting(x[1]) for x in later) or any(not LOOK.search(bare(x[1])) for x in uses):
                    strong.add(e[1])
                elif uses:
                    weak.setdefault(e[1], e)
                else:
                    bad.setdefault(e[1], e)
        # some ways may do nothing but look at the error (it has been reported before, for instance), but not all
        for k, e in weak.items():
            if k not in strong:
                bad.setdefault(k, e)
        return bad

    def noting(self, callee):
        g = self.c.resolve(callee)
        return g is not None and g in self.report()

    def report(self):
        """The methods of the error list that add to it."""
        if 'report' not in self.memo:
            self.memo['report'] = {f for f in self.c.fns.values() if f.kind == 'fn' and f.args and self.isErrors(f.args[0][1]) and f.ret == '()' and '<impl' in f.name}
        return self.memo['report']

    def isErrors(self, t):
        return bool(re.match(r'&(?:\'\w+ )?mut (?:[\w]+::)*Errors$', t))

    def piecewise(self, f, srcs):
        """Too many paths: from each such call to the end, or to the end of the iteration."""
        self.r.count('functions followed call by call')
        bad = {}
        for bb, d, callee, _, ret in self.c.calls(f):
            if callee not in srcs or ret is None or not re.match(r'_\d+$', d):
                continue
            R = ('call', bare(callee), ('at', bb))
            it = self.interp(self.deep, 1000000 if self.deep else 150000)
            st = mir.State()
            st.cells[((f.name, 1), d)] = ('sym', R)
            st.trace += (('call', callee, (), R),)
            try:
                outs = it.run(f, [('sym', ('arg', i)) for i in range(len(f.args))], st, ret)
            except mir.Budget:
                self.r.count('undecided')
                continue
            bad.update(self.judge(it, outs, {callee}))
        return bad

    def passed(self, f):
        """Functions that swallow errors, passed as values or applied to whole sequences."""
        for bb, d, callee, args, _ in self.c.calls(f):
            for a in args:
                if SWALLOW.search(a):
                    self.r.violation('swallowed/%s/%s' % (self.name, f.name), '%s is applied by %s: errors vanish' % (a, callee))
            m = FLATTEN.search(callee)
            if m and m.group(1) == 'flatten' and re.search(r'Result<.*Error>', f.types.get(d, '') + callee):
                self.r.violation('swallowed/%s/%s' % (self.name, f.name), 'flatten over results leaves the errors out: %s' % callee)

    def excuse(self, f, callee, e):
        b = bare(callee)
        own = self.name == 'cxx_build' and not re.match(r'<?(?:impl at )?(gen|syntax)::', f.name) and '/gen/src' not in f.name and not re.search(r'src/(gen|syntax)/', f.name)
        if PROBE.match(b):
            return 'it only looks something up or clears the way'
        if TERMINAL.search(b):
            return 'it is the report of an error, or help'
        if own and self.c.resolve(callee) is None and b.startswith(('std::fs::', 'std::os::')):
            return 'a file system operation of the build helper (C18)'
        g = self.c.resolve(callee)
        if own and g is not None and re.search(r'io::Error|fs::Error|gen::error::Error|[: ]Error', g.ret) and g.name not in self.generating():
            return 'a file system operation of the build helper (C18), or an optional setting'
        if own and re.search(r'(::parse|str::FromStr>::from_str)$', b):
            return 'an optional setting'
        if b.endswith('ParseBuffer::parse') and any(has(a, None) or 'ParseBuffer::fork' in repr(a) for a in e[2]):
            return 'looking ahead on a fork of the input'
        if g is not None and self.isPropagate(g) and f.ret == '()' and f.name not in self.generating() and not any(self.isErrors(t) for _, t in f.args):
            # a list of errors of its own: fine if what it tries is done again where errors count
            tried = self.trying(f)
            if all(any(x in self.trying(h) for h in self.c.fns.values() if h.kind == 'fn' and h.name in self.generating()) for x in tried):
                return 'what it tries is done again where errors count'
        return None

    def trying(self, f):
        """What f hands a list of errors to, except for the operations of the list."""
        out = set()
        for _, _, x, _, _ in self.c.calls(f):
            h = self.c.resolve(x)
            if h is not None and any(self.isErrors(t) for _, t in h.args) and not self.isPropagate(h) and h not in self.report():
                out.add(h.name)
        return out

    def generating(self):
        """Functions on the way to generated code."""
        if 'gen' not in self.reached:
            names = [f.name for f in self.c.fns.values() if f.kind == 'fn' and
                     (re.search(r'GeneratedCode\b', f.ret) or self.name == 'cxxbridge_macro' and any('Errors::new' in x for _, _, x, _, _ in self.c.calls(f)))]
            self.reached['gen'] = self.reaching(names)
        return self.reached['gen']

    # 2. lists of errors
    def lists(self):
        c, r = self.c, self.r
        for f in c.fns.values():
            if f.kind != 'fn' or not any(re.search(r'\bErrors(::<.*>)?::(new|default)$|Errors as std::default::Default>::default$', x) for _, _, x, _, _ in c.calls(f)):
                continue
            if f.name not in self.generating():
                continue
            r.count('error lists')
            try:
                outs = self.paths(f)
            except mir.Budget:
                r.violation('undecided/%s/%s' % (self.name, f.name), 'too many paths')
                continue
            for kind, v, st in outs:
                if kind != 'ret' or v[:2] in (('adt', 'Err'), ('adt', 'Break')):
                    continue
                tr = calls(st.trace)
                made = [e for e in tr if re.search(r'Errors(::|<| as )', e[1]) and re.search(r'::(new|default)$', e[1])]
                for m in made:
                    uses = [e for e in tr if has(e[2], m[3]) and any(a == m[3] for a in e[2])]
                    r.count('ways to success with a list of errors')
                    if not uses:
                        continue
                    last = uses[-1]
                    g = c.resolve(last[1])
                    if g is None or not self.settles(g):
                        r.violation('unpropagated/%s/%s' % (self.name, f.name),
                                    '%s can return success after %s, whose errors are never looked at' % (f.name, last[1]))
                    elif not (failed(st, last) == 0 or has(v, last[3])):
                        r.violation('unpropagated/%s/%s' % (self.name, f.name), '%s does not look at the result of %s' % (f.name, last[1]))
        # what the list itself does
        for f in self.report():
            r.count('operations of the error list')
            for kind, v, st in self.paths(f):
                if kind == 'ret' and not any(re.search(r'Vec::<.*>::(push|insert|extend\w*)$|Extend<.*>>::extend', e[1]) or self.noting(e[1]) for e in calls(st.trace)):
                    r.violation('unrecorded/%s/%s' % (self.name, f.name), 'an error reported to %s is not recorded on some path' % f.name)
        for f in c.fns.values():
            if f.kind != 'fn':
                continue
            if self.isPropagate(f):
                r.count('operations of the error list')
                self.propagate(f)
            elif f not in self.report():
                self.tamper(f)

    def settles(self, g, d=0):
        """Does success of g mean that the list of errors handed to it is empty?"""
        if self.isPropagate(g):
            return True
        at = [i for i, (_, t) in enumerate(g.args) if self.isErrors(t)]
        if not at or not ERROR.match(g.ret) or d > 4:
            return False
        if ('settles', g.name) not in self.memo:
            ok = True
            try:
                for kind, v, st in self.paths(g):
                    if kind != 'ret' or v[:2] in (('adt', 'Err'), ('adt', 'Break')):
                        continue
                    for i in at:
                        uses = [e for e in calls(st.trace) if any(a == ('arg', i) for a in e[2])]
                        h = self.c.resolve(uses[-1][1]) if uses else None
                        ok = ok and h is not None and self.settles(h, d + 1) and (failed(st, uses[-1]) == 0 or has(v, uses[-1][3]))
            except mir.Budget:
                ok = False
            self.memo['settles', g.name] = ok
        return self.memo['settles', g.name]

    def isPropagate(self, g):
        return bool(g.args) and '<impl' in g.name and bool(re.match(r'(&(\'\w+ )?(mut )?)?(\w+::)*Errors$', g.args[0][1])) and bool(ERROR.match(g.ret)) and len(g.args) == 1

    def propagate(self, f):
        r = self.r
        for kind, v, st in self.paths(f, 2):
            if kind != 'ret':
                continue
            tr = calls(st.trace)
            nexts = [e for e in tr if re.search(r'Iterator>::next$|Vec::<.*>::pop$|Option<.*>>::next$', e[1])]
            empty = [e for e in tr if e[1].endswith('::is_empty')]
            other = [e for e in tr if re.search(r'Iterator>::(skip|take|filter|step_by|nth|last|skip_while|take_while|find|filter_map)\b|::(truncate|swap_remove|remove|clear|dedup\w*)$', e[1])]
            for e in other:
                if re.search(r'::(remove|swap_remove)$', e[1]) and (has(v, e[3]) or any(has(x[2], e[3]) for x in tr)):
                    nexts = nexts or [e]
                    continue
                r.violation('incomplete/%s/%s' % (self.name, f.name), '%s leaves out some of the errors it returns: %s' % (f.name, e[1]))
            for e in nexts:
                if re.search(r'::pop$', e[1]):
                    continue
                some = ('f', e[3], 'Some', 0)
                if failed(st, e) == 1 and not has(v, some) and not any(has(x[2], some) for x in tr):
                    r.violation('incomplete/%s/%s' % (self.name, f.name), '%s loses one of the errors' % f.name)
            if v[:2] != ('adt', 'Err') and not (v[:1] == ('call',)):
                if [e for e in tr if re.search(r'Iterator>::r?fold\b', e[1])]:
                    r.count('undecided')
                    continue
                known = [e for e in tr if re.search(r'Iterator>::reduce\b', e[1]) and failed(st, e) == 0] or [e for e in nexts[:1] if failed(st, e) == 0] or [e for e in empty if which(st, e[3]) == 1]
                if not known:
                    r.violation('accepted/%s/%s' % (self.name, f.name), '%s can succeed without the list being empty' % f.name)
            tail = [e for e in tr if re.search(r'Iterator>::(fold|reduce|for_each)', e[1])]
            if v[:2] == ('adt', 'Err') and nexts and not tail:
                if failed(st, nexts[-1]) != 0 or re.search('::(swap_)?remove$', nexts[-1][1]):
                    r.violation('incomplete/%s/%s' % (self.name, f.name), '%s returns before it has seen every error' % f.name)

    def tamper(self, f):
        """Nobody else empties a list of errors or replaces it."""
        lists = {l for l, t in f.types.items() if self.isErrors(t)}
        for bb, ss in f.blocks.items():
            for s in ss:
                if re.search(r'std::mem::(take|replace|swap)::<(\w+::)*Errors>', s):
                    self.r.violation('emptied/%s/%s' % (self.name, f.name), 'a list of errors is replaced: %s' % s[:160])
                for l in lists:
                    if s.startswith('(*%s) = ' % l) or '((*%s).0:' % l in s:
                        self.r.violation('emptied/%s/%s' % (self.name, f.name), 'the list of errors is accessed past its own operations: %s' % s[:160])

    # 3. exit statuses
    def exits(self):
        for f in self.c.fns.values():
            if f.kind != 'fn' or not any(bare(x) == 'std::process::exit' for _, _, x, _, _ in self.c.calls(f)):
                continue
            for kind, v, st in self.paths(f):
                tr = calls(st.trace)
                ends = [e for e in tr if bare(e[1]) == 'std::process::exit']
                if not ends:
                    continue
                self.r.count('exits')
                code = ends[-1][2][0]
                errors = [e for e in tr if failed(st, e) == 1 and ERROR.search(self.rettype(f, e[1]))]
                takes = any(re.search(r'\bErrors?$', t) for _, t in f.args)
                reaches = f.name in self.generating() or re.search(r'error', f.name)
                if code == ('c', 0) and (errors or takes or self.name != 'cxxbridge'):
                    self.r.violation('exit/%s/%s' % (self.name, f.name), 'the process exits with status 0 after an error in %s' % f.name)
                elif code[:1] != ('c',) and reaches:
                    self.r.violation('exit/%s/%s' % (self.name, f.name), 'the exit status of %s is not a constant' % f.name)

    def rettype(self, f, callee):
        for _, d, x, _, _ in self.c.calls(f):
            if x == callee:
                return f.types.get(d, '')
        return ''

    def mainfn(self):
        """A failure of what main calls leads to a failing status."""
        f = self.c.fns.get('main')
        if f is None:
            return
        for kind, v, st in self.paths(f):
            for e in calls(st.trace):
                if not ERROR.search(self.rettype(f, e[1])) or TERMINAL.search(bare(e[1])) or failed(st, e) != 1:
                    continue
                self.r.count('ways main fails')
                ends = [x for x in calls(st.trace) if bare(x[1]) in ('std::process::exit', 'std::process::abort')]
                ok = kind == 'diverge' and (not ends or ends[-1][2] != (('c', 0),)) or kind == 'cut' or \
                    kind == 'ret' and (v[:2] == ('adt', 'Err') or has(v, e[3]) or 'FAILURE' in repr(v))
                if not ok:
                    self.r.violation('status/%s' % self.name, 'main succeeds although %s failed' % e[1])

    # 4. success means complete output
    def output(self):
        c, r = self.c, self.r
        self.flags = {}
        for f in c.fns.values():
            if f.kind == 'fn' and re.match(r'(std::result::)?Result<(\w+::)*GeneratedCode,', f.ret):
                self.generate(f)
        for f in c.fns.values():
            if f.kind != 'fn' or CLOSURE in f.name or 'GeneratedCode' in f.ret:
                continue
            makes = {callee for _, _, callee, _, _ in c.calls(f) for g in [c.resolve(callee)] if g and re.search(r'GeneratedCode$', g.ret)}
            if makes:
                self.consumer(f, makes)
        for f in c.fns.values():
            if f.kind == 'fn' and f.name in self.generating() and CLOSURE not in f.name:
                self.each(f)

    def generate(self, f):
        missing = [set(), set()]
        first = [True, True]
        for kind, v, st in self.paths(f):
            if kind != 'ret' or v[:2] != ('adt', 'Ok') or v[2][:2] != ('adt', 'GeneratedCode'):
                continue
            self.r.count('ways to generated code')
            for n in (0, 1):
                x = v[2][2 + n] if len(v[2]) > 2 + n else ('?',)
                made = x[:1] == ('call',) and self.c.resolve(x[1]) is not None
                if not made:
                    off = {t for t, a in st.assume.items() if a == 0 and t[:1] == ('f',) and t[1][:1] == ('arg',) and t[2] == ''}
                    missing[n] = off if first[n] else missing[n] & off
                    first[n] = False
                    if not off:
                        self.r.violation('ungenerated/%s/%s/%d' % (self.name, f.name, n), '%s can succeed without having generated the %s' % (f.name, ('header', 'implementation')[n]))
            a, b = v[2][2:4] if len(v[2]) > 3 else ((), ())
            if a[:1] == b[:1] == ('call',) and a[1:3] == b[1:3]:
                self.r.violation('ungenerated/%s/%s' % (self.name, f.name), 'header and implementation are generated alike')
        for n in (0, 1):
            if not first[n]:
                if not missing[n]:
                    self.r.violation('ungenerated/%s/%s/%d' % (self.name, f.name, n), 'no option says that the %s is not wanted' % ('header', 'implementation')[n])
                elif len(missing[n]) == 1:
                    self.flags[n] = next(iter(missing[n]))[3]
        if self.flags.get(0, -1) == self.flags.get(1, -2):
            self.r.violation('ungenerated/%s/%s' % (self.name, f.name), 'the same option leaves out the header and the implementation')

    def consumer(self, f, makes):
        """Who takes generated code and puts it somewhere: no success without."""
        r = self.r
        wanted = {}
        shown = {}
        try:
            outs = self.paths(f, 2, 600000)     # two outputs, if that is what it loops over
        except mir.Budget:
            outs = self.paths(f, 1)
        for kind, v, st in outs:
            tr = calls(st.trace)
            gens = [e for e in tr if e[1] in makes]
            if kind == 'ret' and v[:2] != ('adt', 'Err'):
                r.count('ways to written output')
                ws = [(i, e) for i, e in enumerate(tr) if ERROR.search(self.rettype(f, e[1])) and self.writes(e[1])]
                loop = [i for i, e in enumerate(tr) if re.search(r'Iterator>::next$', e[1])]
                used = set()
                for i, e in ws:
                    for n in (0, 1):
                        if any(has(e[2], ('f', g[3], '', n)) for g in gens) and (failed(st, e) == 0 or has(v, e[3])):
                            used.add(n)
                if self.name == 'cxx_build':
                    for n in (0, 1):
                        if gens and n not in used:
                            r.violation('unwritten/%s/%s/%d' % (self.name, f.name, n), '%s succeeds without the %s having been written' % (f.name, ('header', 'implementation')[n]))
                for i, e in ws:
                    # which variant of what it iterates over this content is for
                    src = [j for j in loop if j < i][-1:]
                    for j in src:
                        item = ('f', tr[j][3], 'Some', 0)
                        for t, a in st.assume.items():
                            if t[:1] == ('disc',) and has(t, item) and t[1] != tr[j][3] and t[1][0] == 'f' and t[1][3] == 1 and not isinstance(a, tuple):
                                for n in (0, 1):
                                    if any(has(e[2], ('f', g[3], '', n)) for g in gens):
                                        shown.setdefault(a, set()).add(n)
            for e in tr:
                if re.search(r'Vec::<.*>::push$', e[1]) and len(e[2]) > 1:
                    x = e[2][1]
                    if x[:2] == ('adt', '') and len(x) == 4 and x[3][:1] == ('adt',) and len(x[3]) == 2:
                        k = [vs.index(x[3][1]) for vs in self.c.enums.values() if x[3][1] in vs]
                        for g in gens:
                            for o in g[2]:
                                if o[:2] == ('adt', 'Opt') and k:
                                    on = {i for i, y in enumerate(o[2:]) if y == ('c', 1)}
                                    wanted[k[0]] = wanted.get(k[0], on) & on
        for k, ns in shown.items():
            for n in ns:
                if n in self.flags and k in wanted:
                    r.count('outputs asked for')
                    if self.flags[n] not in wanted[k]:
                        r.violation('unasked/%s/%s/%d' % (self.name, f.name, n), '%s writes the %s on some path on which it did not ask for it to be generated' %
                                    (f.name, ('header', 'implementation')[n]))

    def writes(self, callee):
        if 'w' not in self.reached:
            names = [f.name for f in self.c.fns.values() if f.kind == 'fn' and
                     any(re.match(r'std::fs::(write|File::create)$|<(std::io::Stdout|std::io::StdoutLock.*|std::fs::File) as std::io::Write>::write(_all)?$', bare(x)) for _, _, x, _, _ in self.c.calls(f))]
            self.reached['w'] = self.reaching(names)
        g = self.c.resolve(callee)
        return g is not None and g.name in self.reached['w']

    def each(self, f):
        """In a loop whose body generates or writes on some path, every iteration on the way to success does."""
        try:
            outs = self.paths(f)
        except mir.Budget:
            return
        does = {}
        rounds = []
        for kind, v, st in outs:
            tr = calls(st.trace)
            open_ = {}
            for i, e in enumerate(tr):
                if re.search(r'Iterator>::next$', e[1]):
                    src = e[2]
                    if src in open_:
                        rounds.append((src, open_.pop(src), kind, v))
                    if failed(st, e) == 1:
                        open_[src] = []
                else:
                    g = self.c.resolve(e[1])
                    what = None
                    if g and g.name in self.generating() and ('GeneratedCode' in g.ret or ERROR.match(g.ret) and self.name == 'cxx_build'):
                        what = 'generating'
                    elif ERROR.search(self.rettype(f, e[1])) and self.writes(e[1]):
                        what = 'writing'
                    if what:
                        for s in open_:
                            open_[s].append(what)
                            does.setdefault(s, set()).add(what)
        for src, did, kind, v in rounds:
            if src in does and kind == 'ret' and v[:2] != ('adt', 'Err'):
                self.r.count('iterations that must produce output')
                if does[src] - set(did):
                    self.r.violation('skipped/%s/%s' % (self.name, f.name), '%s can succeed although it left out %s for one of the items it iterates over' % (f.name, ', '.join(does[src] - set(did))))


CRATES = ('cxx_build', 'cxxbridge', 'cxx_gen', 'cxxbridge_macro')


def analyse(name, c, r, deep=False):
    a = Analysis(name, c, r, deep)
    a.results()
    a.lists()
    a.exits()
    a.mainfn()
    a.output()
    return a


def lines(b, path):
    """The lines the macro reports and the lines the generator reports."""
    out = b.path('stages', os.path.basename(path) + '.cc')
    p = b.run([b.cli, path, '-o', out], ok=False)
    text = re.sub(r'\x1b\[[0-9;]*m', '', p.err)
    cli = {int(x) for x in re.findall(r'┌─ [^\n]*?:(\d+):\d+', text)}
    lib = b.cxxlib()[1]
    q = b.run(['rustc', path, '--crate-name', 'stage', '--edition', '2021', '--crate-type', 'lib', '--extern', 'cxx=' + lib, '-L', b.deps, '--emit=metadata',
               '-o', out + '.rmeta', '--error-format=json'], ok=False)
    mac = set()
    for l in q.err.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') == 'error':
            mac |= {s['line_start'] for s in m['spans'] if s['is_primary']}
    return p.returncode, cli, mac, os.path.exists(out)


def stages(b, r):
    """Each stage reports everything it finds, in one go."""
    b.tools()
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stages')
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n)) as f:
            text = f.read()
        path = b.write('stages/' + n, text)
        want = {i: l for i, l in enumerate(text.split('\n'), 1) if l.endswith('// !')}
        code, cli, mac, written = lines(b, path)
        r.count('errors of one stage reported together', len(want))
        for i, l in want.items():
            for who, got in (('the command line tool', cli), ('the macro', mac)):
                if i not in got:
                    r.violation('together/%s/%s/%s' % (n[:-3], who, l[:-5].strip()), 'with %d errors of one stage, %s does not report this one: %s' % (len(want), who, l))
        if code in (0, 101) or code < 0:
            r.violation('together/%s/status' % n[:-3], 'the command line tool finishes with status %d' % code)
        if written:
            r.violation('together/%s/output' % n[:-3], 'the command line tool writes its output although there are errors')


def check(b, r, tier):
    for name in CRATES:
        analyse(name, b.mir(name), r, tier == 'thorough')
    stages(b, r)
    for what, least in (('functions', 300), ('paths', 10000), ('error lists', 4), ('ways to success with a list of errors', 20), ('operations of the error list', 8),
                        ('exits', 6), ('ways to generated code', 12), ('ways to written output', 4), ('errors of one stage reported together', 100)):
        r.floor(what, least)
    r.rules = ['every path through every function of the four generator crates (MIR): where a call that returns an error is assumed to have failed, the function fails too, or '
               'uses the error, or adds to the list of errors; what may be ignored is looking things up, reporting on the terminal, and the file system operations C18 decides on',
               'no success with a list of errors unless the last thing done with it was to find it empty; nothing else empties a list; adding to it adds on every path, and '
               'turning it into one error leaves none out',
               'every exit after a failure has a failing status; generated code is complete according to the options; whoever takes it writes it, for each output, or fails',
               'witness bridges with about 110 independent errors, by stage: the tool and the macro report each of them, and the tool writes nothing']
    r.assumptions = ['std and syn return errors as documented; loops are followed once or twice; where the paths are too many, each call is followed to the end of the iteration',
                     'an error counts as used when it is passed on to anything']
