"""C02-C05: every bridged function of the witness, every way it can finish."""
import os
import re
import sys
import multiprocessing

import flow
import llir
import wit
import xwit
from flow import sym

BAD = ('mismatch', 'bad-consume', 'called-twice', 'use-after-free', 'double-free', 'bad-deref', 'undef-deref',
       'branch-on-undef', 'unwind-through-nounwind', 'unwind-through-nounwind-call')


def load(w, rust=True):
    mods = [llir.Module(w['wit'], 'wit.cc'), llir.Module(w['probe'], 'probe.cc'), llir.Module(w['cxxcc'], 'cxx.cc')]
    if rust:
        mods += [llir.Module(w['witrs'], 'wit.rs'), llir.Module(w['cxx'], 'cxx')]
    return flow.Program(mods)


def strings_reachable(p, vals, depth=7):
    """Constant text reachable from these values through the path's memory."""
    out = []
    seen = set()
    todo = [(v, 0) for v in vals]
    while todo:
        v, d = todo.pop()
        if isinstance(v, int) or v is None or d > depth:
            continue
        if v[0] == 'agg':
            todo += [(x, d) for x in v[1]]
            continue
        if v[0] == 'cat':
            todo += [(x[0], d) for x in v[1]]
            continue
        if v[0] != 'p' or v[1] in seen:
            continue
        seen.add(v[1])
        try:
            o = p.obj(v[1])
        except Exception:
            continue
        for k, (s, x) in sorted(o.cells.items(), key=lambda i: str(i[0])):
            if isinstance(x, int):
                if s > 3:
                    out.append(x.to_bytes(s, 'little').decode('latin1'))
            else:
                todo.append((x, d + 1))
    return out


def analyse(prog, h, f):
    """-> (list of (property, rule, detail), counts)"""
    out = []
    n = dict(paths=0, owned=0, steps=0)

    def add(props, rule, detail, p=None):
        tr = ''
        if p is not None:
            tr = '\n' + '\n'.join('  %s' % (str(e)[:400],) for e in p.events)
        for q in props:
            out.append((q, '%s/%s' % (f.name, rule), detail + tr))

    seen = set()
    try:
        for p, outcome, res in h.run(f):
            n['paths'] += 1
            n['steps'] += getattr(p, 'steps', 0)
            user = p.data.get('outcome')
            seen.add(user)
            ev = p.events
            n['owned'] += len(p.data.get('res', {}))
            for e in ev:
                if e[0] == 'mismatch':
                    add(['C02', 'C03'], 'arrives-changed', e[1], p)
                elif e[0] == 'bad-consume':
                    add(['C03'], 'bad-destruction', str(e[1:])[:500], p)
                elif e[0] == 'called-twice':
                    add(['C03', 'C02'], 'called-twice', str(e[1:]), p)
                elif e[0] in ('use-after-free', 'double-free', 'bad-deref', 'undef-deref', 'branch-on-undef'):
                    add(['C03', 'C02'], e[0], str(e[1:])[:500], p)
            sinks = p.data.get('sinks', [])
            if p.data.get('calls', 0) == 0 and outcome == 'return':
                add(['C02'], 'callee-not-reached', 'the probe finished without reaching the other side', p)
            if outcome == 'unwind' or any(e[0].startswith('unwind-through') for e in ev):
                kind = 'C04' if user in ('panic', 'cb-panic') else 'C05'
                add([kind], 'unwinds-out', 'an unwinding %s leaves generated code (callee outcome %s)' % (
                    'panic' if kind == 'C04' else 'exception', user), p)
            elif outcome not in ('return', 'abort', 'terminate'):
                add(['C02'], 'path-' + outcome, 'path ends in %s %s' % (outcome, res), p)
            if outcome == 'return':
                for k, r in p.data.get('res', {}).items():
                    c = len(r['consumed'])
                    if c != 1:
                        add(['C03'], 'destroyed-%d-times' % c, 'callee outcome %s: %s owned by %s is destroyed %d times: %s' % (
                            user, r['kind'], k, c, r['consumed']), p)
                for o in p.objs.values():
                    if o.kind == 'cxxnew' and o.alive and not p.data.get('escaped', {}).get(o.id):
                        add(['C03', 'C05'], 'leak', 'callee outcome %s: an allocation made for the call is never freed' % user, p)
            if user in ('panic', 'cb-panic', 'drop-panic', 'display-panic'):
                if outcome != 'abort':
                    add(['C04'], 'panic-not-contained', 'after a panic in the Rust function the path ends in %s' % outcome, p)
                else:
                    last = [e for e in ev if e[0] in ('panic', 'abort')]
                    text = []
                    for e in last:
                        text += strings_reachable(p, e[2])
                    name = f.name
                    if f.lang == 'c':
                        name = f.name      # callback: the label names the bridged function
                    if user in ('panic', 'cb-panic', 'drop-panic', 'display-panic') and not any(re.search(r'\b%s\b' % re.escape(name), t) for t in text):
                        add(['C04'], 'label', 'what is reported before aborting does not name %s: %s' % (name, text[:4]), p)
                post = []
                started = False
                for e in ev:
                    if e[0] == 'user-panic':
                        started = True
                    elif started and e[0] in ('sink', 'sink_unit', 'sink_err', 'sink_other'):
                        post.append(e)
                if post:
                    add(['C04'], 'panic-continues', 'execution continues in the caller after a panic: %s' % (post,), p)
            elif user == 'return':
                if outcome != 'return':
                    add(['C05', 'C02'], 'success-lost', 'the callee returned but the caller sees %s (%s)' % (outcome, res), p)
                elif any(s in ('sink_err', 'sink_other') for s in sinks):
                    add(['C05'], 'success-as-failure', 'the callee returned but the caller sees an error', p)
                elif len([s for s in sinks if s.startswith('sink')]) < 1:
                    add(['C05', 'C02'], 'return-lost', 'the caller never receives the return value', p)
            elif user in ('throw-std', 'throw-other', 'throw-text'):
                if outcome == 'return':
                    if not f.fallible:
                        add(['C05'], 'exception-swallowed', 'infallible function: a thrown exception is swallowed', p)
                    elif 'sink_err' not in sinks or sinks[-1] != 'sink_err':
                        add(['C05'], 'failure-as-success', 'the callee threw but the caller sees success', p)
                    elif user == 'throw-std' or h.custom:
                        ptr, ln = p.data['err_args'][:2]
                        c = p.data.get('content', {}).get(ptr)
                        what = sym({'throw-std': 'what', 'throw-other': 'text', 'throw-text': 'textdata'}[user], 0, 8)
                        size = ('x', 'textlen') if user == 'throw-text' else ('x', 'strlen', what)
                        if c is None or c[0] not in ('lossy', 'copy') or c[1] != what or c[2] != size:
                            add(['C05'], 'message', 'the error message is %s %s, not the text of what()' % (ptr, c), p)
                elif outcome == 'terminate':
                    if f.fallible and (user == 'throw-std' or h.custom):
                        add(['C05'], 'exception-terminates', 'fallible function: a std::exception terminates instead of becoming an error', p)
                else:
                    add(['C05'], 'exception-' + outcome, 'a thrown exception ends the path with %s' % outcome, p)
                if outcome == 'terminate' and any(e[0] == 'catch' for e in ev) and user == 'throw-std' and f.fallible:
                    add(['C05'], 'catch-terminates', 'terminates while handling', p)
            elif user == 'err':
                if outcome != 'return':
                    add(['C05'], 'error-' + outcome, 'the Rust function returned an error and the path ends in %s' % outcome, p)
                elif sinks != ['sink_err']:
                    add(['C05'], 'failure-as-success', 'the Rust function returned an error; the C++ caller observes %s' % (sinks,), p)
                else:
                    q = p.data['err_args'][0]
                    ok = False
                    if not isinstance(q, int) and q[0] == 'p':
                        cell = p.obj(q[1]).cells.get(q[2])
                        want = sym('errmsg', 8, 8)
                        ok = cell is not None and cell[1] not in (None,) and not isinstance(cell[1], int) \
                            and cell[1][:3] == ('x', 'memcpy', want) and \
                            cell[1][3] in (flow.mk_lin(1, {sym('errmsg', 16, 8): 1}), sym('errmsg', 16, 8))
                        # the text is NUL terminated: the copied range includes the pushed 0
                        if ok:
                            src = p.objs.get(('*', want))
                            if cell[1][3] == sym('errmsg', 16, 8):
                                ok = False
                            else:
                                z = src and src.cells.get(sym('errmsg', 16, 8))
                                ok = bool(z) and z == (1, 0)
                    if not ok:
                        add(['C05'], 'message', 'the text of the thrown rust::Error is not the NUL-terminated text of the error: %s' % (q,), p)
            elif user is None and outcome != 'return':
                add(['C02'], 'never-called', 'the path ends in %s before the callee is reached' % outcome, p)
        want = {'return'}
        if f.lang == 'r':
            want.add('panic')
            if f.fallible:
                want.add('err')
        else:
            want |= {'throw-std', 'throw-other'}
        if not want <= seen:
            add(['C02', 'C03', 'C04', 'C05'], 'outcomes', 'outcomes %s never reached' % sorted(want - seen))
    except flow.AnalysisError as e:
        add(['C02', 'C03', 'C04', 'C05'], 'unanalysable', str(e))
    return out, n


_G = {}


def _init(w):
    pass


def _work(names):
    prog, h, fns = _G['x']
    res = []
    for f in fns:
        if f.name in names:
            res.append((f.name,) + analyse(prog, h, f))
    return res


def run(w, fns, custom=False):
    prog = load(w)
    h = xwit.Harness(prog, fns)
    h.custom = custom
    _G['x'] = (prog, h, fns)
    names = [f.name for f in fns]
    k = 32
    chunks = [set(names[i::k]) for i in range(k)]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8) as pool:
        parts = pool.map(_work, chunks, chunksize=1)
    return prog, [x for p in parts for x in p]
