"""Rebuild what the analyses read, from /repo's current working tree, in a throwaway directory."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
TOOLCHAIN = 'nightly-2025-04-08'
CODEGEN = ['-C', 'symbol-mangling-version=v0', '-C', 'opt-level=0', '-C', 'debuginfo=0', '-C', 'debug-assertions=off',
           '-C', 'overflow-checks=off', '-C', 'codegen-units=1']


class BuildError(Exception):
    """The tree, or something generated from it, does not compile."""

    def __init__(self, what, text=''):
        Exception.__init__(self, what)
        self.what = what
        self.text = text


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')
        self.src = os.path.join(self.dir, 'src')
        self.env = dict(os.environ)
        for k in ('RUSTFLAGS', 'CXX', 'CXXFLAGS', 'CC', 'CFLAGS', 'CARGO_TARGET_DIR', 'TRYBUILD', 'RUST_BACKTRACE', 'TERM'):
            self.env.pop(k, None)
        self.env.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
                        CARGO_INCREMENTAL='0', CARGO_TARGET_DIR=os.path.join(self.dir, 'target'), CARGO_PROFILE_DEV_DEBUG='0',
                        PATH=os.path.expanduser('~/.cargo/bin') + ':' + os.environ.get('PATH', ''))
        shutil.copytree(REPO, self.src, symlinks=True, ignore=self.ignore)
        self.done = {}

    @staticmethod
    def ignore(d, names):
        if os.path.abspath(d) == os.path.abspath(REPO):
            return [n for n in names if n in ('.git', 'target', 'buck-out')]
        return [n for n in names if n == 'target' and os.path.isdir(os.path.join(d, n))]

    def close(self):
        if self.dir and os.path.basename(self.dir).startswith('verif-'):
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if not os.environ.get('VERIF_KEEP'):
            self.close()
        else:
            print('kept', self.dir, file=sys.stderr)

    def path(self, *p):
        q = os.path.join(self.dir, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q

    def write(self, name, text):
        q = self.path(name)
        with open(q, 'w') as f:
            f.write(text)
        return q

    def run(self, cmd, ok=True, env=None, cwd=None, stdin=None, timeout=600):
        e = dict(self.env)
        e.update(env or {})
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or self.dir,
                           stdin=subprocess.DEVNULL, timeout=timeout)
        r.out = r.stdout.decode('utf8', 'replace')
        r.err = r.stderr.decode('utf8', 'replace')
        if ok and r.returncode:
            raise BuildError(' '.join(cmd)[:300], r.err[-6000:])
        return r

    def parallel(self, jobs, n=8):
        with ThreadPoolExecutor(n) as ex:
            return list(ex.map(lambda j: j(), jobs))

    # ---- the code generators and the library ---------------------------------
    def tools(self):
        if 'tools' not in self.done:
            self.run(['cargo', 'build', '--offline', '--manifest-path', self.src + '/Cargo.toml', '-p', 'cxx', '-p', 'cxxbridge-cmd'])
            self.done['tools'] = 1
        self.deps = self.dir + '/target/debug/deps'
        self.cli = self.dir + '/target/debug/cxxbridge'
        self.macro = self.newest('libcxxbridge_macro-*.so')
        self.foldhash = self.newest('libfoldhash-*.rlib')
        return self

    MIR = {'cxx_build': ('cxx-build', ['--lib'], 'gen/build/src'), 'cxxbridge': ('cxxbridge-cmd', ['--bin', 'cxxbridge'], 'gen/cmd/src'),
           'cxxbridge_macro': ('cxxbridge-macro', ['--lib'], 'macro/src'), 'cxx_gen': ('cxx-gen', ['--lib'], 'gen/lib/src')}

    def mir(self, crate):
        """The unoptimised MIR of one of the generators' crates, parsed."""
        import mir
        if ('mir', crate) not in self.done:
            pkg, target, src = self.MIR[crate]
            self.run(['cargo', 'rustc', '--offline', '--manifest-path', self.src + '/Cargo.toml', '-p', pkg] + target +
                     ['--', '--emit=mir', '-Zmir-opt-level=0', '-Ztrim-diagnostic-paths=no', '--cap-lints', 'allow'])
            with open(self.newest(crate + '-*.mir')) as f:
                c = mir.Crate(f.read(), self.src)
            c.add_enums(src)
            self.done['mir', crate] = c
        return self.done['mir', crate]

    def newest(self, pat):
        x = sorted(glob.glob(os.path.join(self.dir, 'target/debug/deps', pat)), key=os.path.getmtime)
        if not x:
            raise BuildError('no ' + pat)
        return x[-1]

    def cxxlib(self, name='cxx', features=('std', 'alloc', 'default'), extra=()):
        """The cxx crate: LLVM IR and a library to link witnesses against."""
        if name in self.done:
            return self.done[name]
        self.tools()
        out = self.path(name + '.d', 'x')[:-2]
        cmd = ['rustc', self.src + '/src/lib.rs', '--crate-name', 'cxx', '--edition', '2021', '--crate-type', 'rlib',
               '--cap-lints', 'allow', '--cfg', 'seek_relative', '--cfg', 'error_in_core']
        for f in features:
            cmd += ['--cfg', 'feature="%s"' % f]
        cmd += ['--extern', 'cxxbridge_macro=' + self.macro, '--extern', 'foldhash=' + self.foldhash, '-L', self.deps,
                '--emit=llvm-ir,link,metadata'] + CODEGEN + list(extra) + ['--out-dir', out]
        self.run(cmd)
        self.done[name] = (out + '/cxx.ll', out + '/libcxx.rlib')
        return self.done[name]

    def cxxcc(self, std='c++17', name='cxxcc', flags=()):
        if name in self.done:
            return self.done[name]
        out = self.path(name + '.ll')
        self.clang(self.src + '/src/cxx.cc', out, std, ['-DCXX_RS_EXPORT=', '-I', self.src + '/src'] if 0 else [], flags)
        self.done[name] = out
        return out

    def clang(self, src, out, std='c++17', inc=(), flags=(), ok=True):
        return self.run(['clang++', '-std=' + std, '-O0', '-S', '-emit-llvm', '-Xclang', '-disable-O0-optnone',
                         '-fno-discard-value-names', '-w', *inc, *flags, '-o', out, src], ok=ok)

    def bridge(self, rs, base, cli_args=()):
        """Run the C++ generator on rs -> base.rs.h, base.cc"""
        for a, o in (['--header'], '.rs.h'), ([], '.cc'):
            r = self.run([self.cli, rs] + a + list(cli_args))
            with open(base + o, 'w') as f:
                f.write(r.out)

    def witness(self, files, name='wit', std='c++17', lib='cxx', rust=True):
        """files: wit.rs, wit.h, probe.cc -> {wit.ll, probe.ll, witrs.ll}"""
        key = ('witness', name, std, lib)
        if key in self.done:
            return self.done[key]
        self.tools()
        d = self.path(name + '-' + std + '.d', 'rust', 'cxx.h')
        shutil.copy(self.src + '/include/cxx.h', d)
        d = os.path.dirname(os.path.dirname(d))
        for k, v in files.items():
            with open(os.path.join(d, k), 'w') as f:
                f.write(v)
        self.bridge(d + '/wit.rs', d + '/wit')
        jobs = [lambda: self.clang(d + '/wit.cc', d + '/wit.ll', std, ['-I', d]),
                lambda: self.clang(d + '/probe.cc', d + '/probe.ll', std, ['-I', d]),
                lambda: self.cxxcc(std, 'cxxcc-' + std)]
        if rust:
            def rs():
                rlib = self.cxxlib(lib)[1]
                self.rustc(d + '/wit.rs', 'wit', rlib, ['--emit=llvm-ir=' + d + '/witrs.ll', '--out-dir', d] + CODEGEN)
            jobs.append(rs)
        self.parallel(jobs)
        r = dict(dir=d, wit=d + '/wit.ll', probe=d + '/probe.ll', witrs=d + '/witrs.ll', cxxcc=self.done['cxxcc-' + std],
                 cxx=self.cxxlib(lib)[0])
        self.done[key] = r
        return r

    def rustc(self, src, crate, rlib, args, ok=True):
        return self.run(['rustc', src, '--crate-name', crate, '--edition', '2021', '--crate-type', 'rlib', '--cap-lints', 'allow',
                         '--extern', 'cxx=' + rlib, '-L', self.deps] + list(args), ok=ok)
