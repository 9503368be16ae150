import drobs  # noqa: F401
import rows
import rt
import rtobs


def check(b, r, tier):
    r.rules = ['for every combination of derives, the C++ compiler and rustc must find exactly the operators, hash and traits that were asked for']
    stds = ('c++17',) if tier == 'quick' else ('c++11', 'c++14', 'c++17', 'c++20')
    rows.check(b, r, 'C23', tier, 10)
    rt.check(b, r, 'C23', 400, stds, 'dr')
    depends(b, r)


def depends(b, r):
    """A hash covers all fields."""
    import rel
    from flow import explore
    w = rt.build(b, 'c++17', 'dr')
    prog, h = rt.load(w), rt.hooks()
    for o in rtobs.OBS:
        if o.wit != 'dr' or not o.name.endswith((': std::hash', ': Rust hash')) or o.name.split(':')[0] not in ('All', 'SK2', 'SK5', 'Ns'):
            continue

        def go(p):
            return rel.one(p, prog.defs['i_%s' % o.num], [v for v, _ in rt.setup(o, {})(p).values()], False)
        for p, out, res in explore(prog, h, go, 50, cls=rt.Path):
            r.count('hash_dependences')
            text = repr(res)
            for off in 0, 8, 16:
                if "('id', ('s', 'a', %d, 8))" % off not in text:
                    r.violation(o.name + ' depends on every field', 'the result %s does not depend on the field at byte %d' % (text[:500], off))
    r.floor('hash_dependences', 8)
