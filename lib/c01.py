import llir
import rt
import sigs


class Prog:
    pass


def check(b, r, tier):
    r.rules = ['every symbol one half of the runtime library declares is defined exactly once in the other with the same machine-level signature, '
               'in every feature configuration and C++ standard']
    stds = ('c++11', 'c++14', 'c++17', 'c++20')
    configs = {'std': ('std', 'alloc', 'default'), 'alloc': ('alloc',)}
    b.tools()
    b.parallel([lambda s=s: b.cxxcc(s, 'cxxcc-' + s) for s in stds] +
               [lambda: b.cxxcc('c++17', 'cxxcc-noexc', ['-fno-exceptions', '-DRUST_CXX_NO_EXCEPTIONS'])] +
               [lambda n=n, f=f: b.cxxlib('cxx' if n == 'std' else 'cxx-' + n, f) for n, f in configs.items()])
    libs = {n: llir.Module(b.cxxlib('cxx' if n == 'std' else 'cxx-' + n, f)[0], 'cxx(%s)' % n) for n, f in configs.items()}
    for s in stds + ('noexc',):
        cc = llir.Module(b.cxxcc(s, 'cxxcc-' + s), 'cxx.cc(%s)' % s)
        for n, lib in libs.items():
            p = Prog()
            p.modules = [cc, lib]
            for name, problem, detail in sigs.link_check(p, lambda x: 'cxxbridge1$' in x, sigs.alike):
                if problem:
                    r.violation('symbol/%s/%s' % (name, problem), detail)
                else:
                    r.count('symbols_matched')
    r.floor('symbols_matched', 2000)
    rt.check(b, r, 'C01', 750, ('c++17',) if tier == 'quick' else stds)
