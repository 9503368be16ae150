"""Tables of witness bridges: each row says what must happen to it. Refused rows come with a twin that differs only by the
offence and must be accepted, so that a row cannot pass for the wrong reason."""
from matrix import Case
from tygrid import HDR

ROWS = []


class Row:
    pass


def row(prop, name, want, bridge, rust='', hdr=None, user='', attr=None, args=(), extra='', vis='pub', header=False):
    r = Row()
    r.prop, r.name, r.want = prop, name, want
    r.bridge, r.rust, r.hdr, r.user, r.attr, r.args, r.vis, r.header = bridge, rust, HDR if hdr is None else hdr, user, attr, args, vis, header
    ROWS.append(r)


def pair(prop, name, want, bad, good, **kw):
    """bad and good are bridges, or (bridge, rust) or (bridge, rust, hdr)."""
    def split(x):
        x = (x,) if isinstance(x, str) else x
        return dict(zip(('bridge', 'rust', 'hdr'), x))
    a, b = dict(kw), dict(kw)
    a.update(split(bad))
    b.update(split(good))
    row(prop, name, want, **a)
    row(prop, name + '/twin', 'ok', **b)


def user(prop, name, code, bad, good, bridge, rust='', **kw):
    """The same bridge, used by Rust code that must not compile, and by a twin that must."""
    row(prop, name, 'rust:' + code, bridge, rust + '\n' + bad, **kw)
    row(prop, name + '/twin', 'ok', bridge, rust + '\n' + good, **kw)


def cases(prop):
    import rowdefs  # noqa: F401
    import rowdefs2  # noqa: F401
    import rowdefs3  # noqa: F401
    import rowdefs4  # noqa: F401
    import rowdefs5  # noqa: F401
    import rowdefs6  # noqa: F401
    import rowdefs7  # noqa: F401
    out = []
    for i, r in enumerate(x for x in ROWS if x.prop == prop):
        id = 'w%d' % i
        inc = 'include!("%s.h");' % id
        f = lambda s: s.replace('%I', inc).replace('%N', id)
        c = Case(id, f(r.bridge), f(r.rust), f(r.hdr), attr=r.attr and f(r.attr), user=f(r.user), cli_args=r.args, vis=r.vis, header=r.header)
        c.name, c.want = r.name, r.want
        out.append(c)
    return out


def verdict(c):
    """None, or what is wrong."""
    def got():
        return 'C++ generator: %s; macro and rustc: %s; C++ compiler: %s' % (c.cli_got, c.rust_got, c.cxx_got)
    bad = None
    w = c.want
    if c.cli_got not in ('ok', 'error') or 'panic' in str(c.rust_got).split():
        bad = 'not handled'
    elif w == 'ok':
        if (c.cli_got, c.rust_got, c.cxx_got) != ('ok', 'ok', 'ok'):
            bad = 'refused, should be accepted and compile'
    elif w == 'reject':
        if c.cli_got != 'error':
            bad = 'accepted by the C++ generator, should be refused by both'
        elif c.rust_got == 'ok':
            bad = 'accepted by the macro, should be refused by both'
    elif w == 'any':
        if (c.cli_got, c.rust_got, c.cxx_got) == ('ok', 'ok', 'ok'):
            bad = 'accepted by everything, should be refused'
    elif w == 'cli':
        if c.cli_got != 'error':
            bad = 'accepted by the C++ generator, should be refused'
    elif w.startswith('rust:'):
        codes = w[5:].split('|')
        if c.rust_got == 'ok':
            bad = 'compiles, should be refused by rustc (%s)' % w[5:]
        elif codes != ['*'] and not set(codes) & set(c.rust_got.split()):
            bad = 'refused for another reason than %s' % w[5:]
    elif w.startswith('rust&cxx:'):
        codes = w[9:].split('|')
        if c.rust_got == 'ok' or not set(codes) & set(c.rust_got.split()):
            bad = 'should be refused by rustc (%s)' % w[9:]
        elif c.cxx_got != 'error':
            bad = 'should be refused by the C++ compiler'
    elif w == 'cxx':
        if c.rust_got != 'ok' or c.cli_got != 'ok':
            bad = 'should get as far as the C++ compiler'
        elif c.cxx_got != 'error':
            bad = 'compiles as C++, should be refused by the C++ compiler'
    else:
        raise ValueError(w)
    if bad:
        return '%s\n%s\nbridge:\n%s\n%s\nmessages:\n%s\n%s\n%s' % (bad, got(), c.bridge, c.rust, c.cli_msg, c.rust_msg, c.cxx_msg)


def check(b, r, prop, tier, floor):
    import matrix
    cs = cases(prop)
    for c in cs:
        if c.want in ('cxx', 'any') or c.want.startswith('rust&cxx'):
            c.cxx_want = 'error'
            c.alone = True
    full = tier == 'thorough'
    matrix.run(b, cs, 'rows', cxx=('clang++', 'g++') if full else ('clang++',), stds=('c++11', 'c++17', 'c++20') if full else ('c++17',))
    for c in cs:
        r.count('witness_programs')
        r.count('must_be_refused' if c.want != 'ok' else 'must_compile')
        v = verdict(c)
        if v:
            r.violation(c.name, v)
    r.floor('witness_programs', floor)
    r.sample({'programs': ['%s: %s' % (c.name, c.want) for c in cs[:400:23]]}, 20)
    return cs
