"""Shared by C02-C05."""
import crossing
import wit


def crossing_check(b, r, tier, prop):
    b.tools()
    fns = wit.functions()
    files = wit.gen(fns)
    stds = ['c++17'] if tier == 'quick' else ['c++11', 'c++14', 'c++17', 'c++20']
    prog = None
    for std in stds:
        w = b.witness(files, 'wit', std)
        prog, res = crossing.run(w, fns)
        for name, found, n in res:
            r.count('functions')
            r.count('paths', n['paths'])
            r.count('owned_values', n['owned'])
            r.count('ir_instructions_followed', n['steps'])
            for q, key, detail in found:
                if q == prop:
                    r.violation('%s' % key, '[%s] %s' % (std, detail))
    r.floor('functions', 850)
    r.floor('paths', 3400)
    if prop in ('C02', 'C05'):
        # the same with user-provided exception translation
        fal = [f for f in fns if f.lang == 'c' and f.fallible and not any(a.fn for a in f.args)]
        if tier == 'quick':
            fal = fal[::6]
        w = b.witness(wit.gen(fal, True), 'witc')
        p2, res = crossing.run(w, fal, True)
        for name, found, n in res:
            r.count('functions')
            r.count('custom_trycatch_functions')
            r.count('paths', n['paths'])
            for q, key, detail in found:
                if q == prop:
                    r.violation('custom/%s' % key, '[custom trycatch] %s' % detail)
        r.floor('custom_trycatch_functions', 30)
    r.sample({'standard': stds, 'functions': [f.name for f in fns[::97]]})
    return prog, fns
