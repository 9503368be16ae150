"""Generated code depends on nothing but the bridge and the options: where hash order, environment, time, addresses and global
state could enter, and whether they can influence anything."""
import re

import mir
from mir import bare

HASHED = r'(?:std::collections::(?:hash::)?(?:hash_map::|hash_set::|map::|set::)?Hash(?:Map|Set)\b|hash_map::|hash_set::|Unordered(?:Map|Set)\b)'
HASH = re.compile(HASHED)
SETLIKE = re.compile(HASHED + r'|BTree(?:Map|Set)\b')
# operations of hash containers whose result does not depend on the order
POINT = re.compile(r'::(new|with_capacity|default|insert|contains|contains_key|get|get_mut|get_key_value|get_or_insert_with|entry|remove|remove_entry|take|replace|is_empty|len|'
                   r'reserve|clear|extend|from|from_iter|clone|eq|ne|is_subset|is_superset|is_disjoint|capacity|shrink_to_fit|index|with_hasher|drop|try_insert|'
                   r'or_insert|or_insert_with|or_insert_with_key|or_default|and_modify|key|into_key|into_mut|insert_entry|hasher|borrow|borrow_mut|as_ref|deref|deref_mut)$')
WALK = re.compile(r'::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|union|intersection|difference|symmetric_difference|extract_if|bitor|bitand|'
                  r'bitxor|sub|fmt)$')
NEUTRAL = re.compile(r'Iterator>::(any|all|count|min|max|sum|eq|size_hint|is_sorted)$|::(len|is_empty)$')
SOURCES = (
    (re.compile(r'std::env::(?!args|Args|consts)'), 'the environment or the working directory'),
    (re.compile(r'std::time::|SystemTime|Instant::'), 'the time'),
    (re.compile(r'std::process::id\b|std::process::Command|std::thread::|std::net::|std::os::unix::process'), 'the process, threads or the network'),
    (re.compile(r'RandomState|DefaultHasher|BuildHasher|std::hash::Hasher::finish|getrandom|\brand::'), 'the hash seed'),
    (re.compile(r'fmt::Pointer\b|Argument.*::new_pointer|::expose_provenance|::addr$|::expose_addr|std::ptr::hash\b'), 'an address'),
    (re.compile(r'std::fs::(metadata|symlink_metadata|canonicalize|read_dir|read_link|try_exists|File::open|DirEntry|ReadDir)|std::path::Path::(exists|is_file|is_dir|canonicalize|'
                r'metadata|read_dir|try_exists|symlink_metadata|read_link|is_symlink)\b'), 'what is in the file system'),
    (re.compile(r'Span::(file|local_file|source_file|source_text)\b|std::panic::Location::caller|std::any::type_name'), 'where the source is'),
    (re.compile(r'std::sync::atomic::|Atomic\w+::(fetch_|load|store|swap|compare_)'), 'global state'),
)
MUTABLE = re.compile(r'Atomic\w*\b|\bMutex\b|RwLock|\bCell<|RefCell|UnsafeCell')
INTERIOR = re.compile(r'(RefCell|Cell|UnsafeCell|Mutex|RwLock|Atomic\w+|OnceLock|OnceCell)(<.*>)?::(borrow_mut|try_borrow_mut|replace|swap|take|set|update|get|lock|write|store|fetch_\w+|'
                      r'compare_exchange\w*|get_or_init|replace_with)$|LocalKey(<.*>)?::\w+$')
ITER = re.compile(r'(Iter|IterMut|IntoIter|Iterator|Keys|Values|Drain|Chars|Split\w*|Pairs|Lines|Range|RangeInclusive|Peekable|Map|Filter|FilterMap|Enumerate|Rev|Zip|Chain|Take|Skip)\b')


def local(s):
    m = re.match(r'(?:move |copy |&mut |&|\()*(?:\*)?\(?\*?(_\d+)\b', s)
    return m.group(1) if m else None


def locs(s):
    return set(re.findall(r'\b_\d+\b', s))


class Order:
    """Traversals in hash order, and what becomes of what they yield."""

    def __init__(self, name, c, r):
        self.name, self.c, self.r = name, c, r
        self.shared = self.writers()    # functions which change something through a shared reference
        self.sources = {}               # functions of the crate which return something in hash order
        fns = [f for f in c.fns.values() if f.kind == 'fn']
        self.changed = True
        while self.changed:
            self.changed = False
            for f in fns:
                self.function(f, False)
        for f in fns:
            self.function(f, True)

    def writers(self):
        callers, work = {}, []
        for f in self.c.fns.values():
            if f.kind != 'fn':
                continue
            for _, _, callee, _, _ in self.c.calls(f):
                if INTERIOR.search(bare(callee)):
                    work.append(f.name)
                g = self.c.resolve(callee)
                if g is not None:
                    callers.setdefault(g.name, set()).add(f.name)
            if '::{closure#' in f.name:
                callers.setdefault(f.name, set()).add(f.name[:f.name.rindex('::{closure#')])
        seen = set(work)
        while work:
            for x in callers.get(work.pop(), ()):
                if x not in seen:
                    seen.add(x)
                    work.append(x)
        return seen

    def typ(self, f, a):
        l = local(a)
        return f.types.get(l, '') if l else ''

    def walks(self, f, callee, args):
        """Is this call a traversal in hash order (of std's containers, or by a function which returns one)?"""
        g = self.c.resolve(callee)
        if g is not None:
            return g.name in self.sources
        b = bare(callee)
        recv = self.typ(f, args[0]) if args else ''
        if not HASH.search(b.split('>::')[0] if b.startswith('<') else b) and not (HASH.search(recv) and WALK.search(b)):
            return False
        return bool(WALK.search(b)) and not POINT.search(b) and not re.search(r'Entry|Iterator>::next', b)

    def function(self, f, report):
        c = self.c
        start = {}
        for bb, d, callee, args, ret in c.calls(f):
            if self.walks(f, callee, args):
                if report:
                    self.r.count('traversals in hash order')
                if bare(callee).endswith('::retain'):
                    if report:
                        self.closure(f, args[1], callee)
                    continue
                if bare(callee).endswith('::fmt'):
                    if report:
                        self.bad(f, callee, 'is printed')
                    continue
                l = local(d)
                if l:
                    start[l] = callee
            elif report and HASH.search(callee) and c.resolve(callee) is None and not POINT.search(bare(callee)) and not re.search(r'Iterator>::|>::into_iter$', callee):
                if re.search(r'(HashMap|HashSet)', callee) and re.search(r'Argument.*new_debug|fmt::Debug', callee):
                    self.bad(f, callee, 'is printed')
        if not start:
            return
        taint = dict(start)
        elements = {}
        sorted_ = {x for _, _, callee, args, _ in c.calls(f) if re.search(r'::sort(_unstable)?$', bare(callee)) and args
                   for x in self.origin(f, local(args[0]))}
        for _ in range(12):
            n = len(taint) + len(elements)
            for bb, ss in f.blocks.items():
                for s in ss:
                    pc = mir.parse_call(s)
                    if pc:
                        d, callee, args, ret = pc
                        hit = [a for a in args if local(a) in taint]
                        ehit = [a for a in args if local(a) in elements]
                        l = local(d)
                        if l in start and not hit and not ehit:
                            continue
                        b = bare(callee)
                        if hit:
                            if re.search(r'Iterator>::(next|next_back|nth|last|find|position|find_map|reduce|fold|max_by|min_by|min_by_key|max_by_key|rposition|step_by)$', b):
                                if re.search(r'::next$', b):
                                    elements.setdefault(l, callee)
                                elif report:
                                    self.bad(f, callee, 'is consumed in its order')
                            elif NEUTRAL.search(b):
                                pass
                            elif re.search(r'Iterator>::(collect|partition|unzip)$|FromIterator<.*>>::from_iter$', b):
                                ty = f.types.get(l, '')
                                if SETLIKE.match(re.sub(r'^(&mut |&|(\w+::)*)', '', ty)) or SETLIKE.search(ty.split('<')[0]):
                                    pass
                                elif l in sorted_:
                                    if report:
                                        self.r.count('sorted afterwards')
                                else:
                                    taint.setdefault(l, callee)
                            elif re.search(r'::(extend|append)$', b) and local(args[0]) not in taint:
                                if SETLIKE.search(self.typ(f, args[0]) or b):
                                    pass
                                elif self.origin(f, local(args[0])) & sorted_:
                                    pass
                                elif report:
                                    self.bad(f, callee, 'is appended in its order')
                            elif re.search(r'::for_each$|::try_for_each$', b):
                                if report:
                                    self.closure(f, args[1], callee)
                            elif re.search(r'::(drop|clone)$', b) or re.search(r'::(insert|contains|contains_key|get|remove|is_empty|len|retain)$', b) and SETLIKE.search(self.typ(f, args[0])):
                                pass
                            elif l and (re.search(r'Iterator>::\w+$|IntoIterator>::into_iter$|::(iter|as_ref|deref|copied|cloned|by_ref)$|Deref.*>::deref(_mut)?$', b)):
                                taint.setdefault(l, callee)
                            elif report and not re.search(r'::(drop|sort\w*)$', b):
                                self.bad(f, callee, 'is passed on')
                    elif ' = ' in s:
                        d, rhs = s.split(' = ', 1)
                        l = local(d)
                        for x in locs(rhs):
                            if x in taint and l and not rhs.startswith(('Len(', 'discriminant(')):
                                taint.setdefault(l, taint[x])
                            if x in elements and l and not rhs.startswith('discriminant('):
                                elements.setdefault(l, elements[x])
            if len(taint) + len(elements) == n:
                break
        if '_0' in taint:
            if f.name not in self.sources:
                self.sources[f.name] = taint['_0']
                self.changed = True
            if report and not self.known(f):
                self.bad(f, taint['_0'], 'is returned to something that is not analysed')
        if '_0' in elements and report and f.ret not in ('bool', '()'):
            self.bad(f, elements['_0'], 'decides what is returned')
        if elements and report:
            for blocks in self.loops(f, {bb for bb, ss in f.blocks.items() for pc in [mir.parse_call(ss[-1])] if pc and local(pc[0]) in elements and
                                         any(local(a) in taint for a in pc[2])}):
                self.body(f, blocks, 'a loop')
                self.left(f, blocks, elements)

    def known(self, f):
        """Is it called by name in this crate (and so looked at there)?"""
        return any(self.c.resolve(x) is f for g in self.c.fns.values() if g.kind == 'fn' for _, _, x, _, _ in self.c.calls(g)) or f.ret.startswith('&')

    def origin(self, f, l, d=0):
        """Locals that this one is a reference to."""
        out = {l}
        if d > 4 or l is None:
            return out
        for ss in f.blocks.values():
            for s in ss:
                if s.startswith(l + ' = '):
                    rhs = s.split(' = ', 1)[1]
                    pc = mir.parse_call(s)
                    if pc:
                        if re.search(r'deref(_mut)?$|as_mut_slice$|as_mut$', bare(pc[1])):
                            out |= self.origin(f, local(pc[2][0]), d + 1)
                    else:
                        for x in locs(rhs):
                            out |= self.origin(f, x, d + 1)
        return out

    def succ(self, f, bb):
        ss = f.blocks[bb]
        return [int(x) for x in re.findall(r'bb(\d+)', ss[-1].split(' -> ', 1)[1] if ' -> ' in ss[-1] else '') if int(x) in f.blocks]

    def loops(self, f, heads):
        for h in heads:
            def fwd(a, avoid=None):
                seen, work = set(), [a]
                while work:
                    x = work.pop()
                    for y in self.succ(f, x):
                        if y not in seen:
                            seen.add(y)
                            work.append(y)
                return seen
            body = {x for x in fwd(h) if h in fwd(x)}
            yield body | {h}

    def body(self, f, blocks, what):
        """Does nothing in these blocks depend on the order in which they are executed for different elements?"""
        c = self.c
        self.r.count('bodies of traversals')
        inner = set()
        for bb in blocks:
            for s in f.blocks[bb]:
                pc = mir.parse_call(s)
                if pc:
                    d, callee, args, _ = pc
                    for a in args:
                        t = self.typ(f, a)
                        m = re.match(r"&(?:'\w+ )?mut (.*)$", t)
                        if m and not SETLIKE.search(m.group(1).split('<')[0]) and not ITER.search(m.group(1)):
                            self.bad(f, callee, 'decides in which order %s acts on %s' % (what, m.group(1)[:80]))
                    g = c.resolve(callee)
                    if g is not None and g.name in self.shared or INTERIOR.search(bare(callee)):
                        self.bad(f, callee, 'decides in which order %s changes something' % what)
                    if re.search(r'std::(io|fs|process)::', callee) and 'exit' not in callee:
                        self.bad(f, callee, 'decides the order of input or output')
                elif ' = ' in s:
                    d, rhs = s.split(' = ', 1)
                    if '(*' in d and not rhs.startswith('const '):
                        self.bad(f, d, 'decides what is left in a variable outside')

    def left(self, f, blocks, elements):
        """No variable keeps one of the elements after the loop."""
        kept = {}
        sums = {local(s.split(' = ')[0]) for bb in blocks for s in f.blocks[bb] if re.search(r' = (Add|Mul|BitOr|BitAnd|BitXor)(WithOverflow)?\(', s)}
        for bb in blocks:
            for s in f.blocks[bb]:
                pc = mir.parse_call(s)
                d, rhs = s.split(' = ', 1) if ' = ' in s else ('', '')
                l = local(d)
                if l in elements and d == l and (not pc or not re.search(r'::(max|min|next|drop)$', bare(pc[1]))) and not rhs.startswith('discriminant(') and \
                        not (locs(rhs) | {l}) & sums:
                    kept[l] = s
        for bb, ss in f.blocks.items():
            if bb in blocks:
                continue
            for s in ss:
                pc = mir.parse_call(s)
                rhs = ' '.join(pc[2]) if pc else s.split(' = ', 1)[1] if ' = ' in s else ''
                if pc and bare(pc[1]).endswith('::drop'):
                    continue
                for l in locs(rhs) & set(kept):
                    self.bad(f, elements[l], 'decides which element is left in a variable (%s)' % kept[l][:60])

    def closure(self, f, a, callee):
        t = self.typ(f, a)
        m = re.search(r'\{closure@[^}]*\}', t)
        g = self.c.closures.get(m.group(0)) if m else None
        if g is None:
            gs = [x for x in f.args if x[0] == local(a)]
            if (gs or self.param(f, a)) and f.name not in self.sources:
                # passes its own parameter on: the callers' closures count
                for h in self.c.fns.values():
                    if h.kind != 'fn':
                        continue
                    for _, _, x, args, _ in self.c.calls(h):
                        if self.c.resolve(x) is f and len(args) > 1:
                            self.closure(h, args[-1], x)
                return
            self.bad(f, callee, 'is handed to an unknown function')
            return
        self.body(g, set(g.blocks), 'a closure')

    def param(self, f, a):
        return any(l in dict(f.args) for l in self.origin(f, local(a)))

    def bad(self, f, callee, how):
        self.r.violation('order/%s/%s/%s' % (self.name, f.name, bare(callee)[-60:]), 'in %s (%s), the order of a hash container %s: %s' % (f.name, self.name, how, callee[:200]))


def generator(name, f):
    """Part of what turns a bridge into code?"""
    if name == 'cxx_build':
        return bool(re.search(r'^(<impl at )?(gen|syntax)::|^(gen|syntax)::', f.name)) and not f.name.startswith('gen::fs::')
    return not f.name.startswith('gen::fs::')


def sources(name, c, r):
    fns = [f for f in c.fns.values() if f.kind == 'fn']
    work = [f for f in fns if generator(name, f)]
    seen = {f.name: None for f in work}
    while work:
        f = work.pop()
        r.count('functions')
        for bb, d, callee, args, ret in c.calls(f):
            r.count('calls')
            g = c.resolve(callee)
            if g is not None:
                if g.name not in seen:
                    seen[g.name] = f.name
                    work.append(g)
            else:
                check1(name, c, r, f, callee, seen)
        for x in c.consts(f):
            g = c.resolve(x)
            if g is not None and g.name not in seen:
                seen[g.name] = f.name
                work.append(g)
            elif g is None:
                check1(name, c, r, f, x, seen)
        for ss in f.blocks.values():
            for s in ss:
                if 'PointerExpose' in s:
                    r.violation('source/%s/%s/address' % (name, f.name), 'an address is turned into a number: %s' % s[:160])
                m = re.search(r'const \{alloc\d+: (?:&|\*mut |\*const )([^}]*)\}', s)
                if m and MUTABLE.search(m.group(1)):
                    r.violation('source/%s/%s/state' % (name, f.name), 'global mutable state is used: %s' % s[:160])
    for f in c.fns.values():
        if f.kind != 'fn' and 'static' in f.kind and MUTABLE.search(f.ret) and (name != 'cxx_build' or re.match(r'(gen|syntax)::', f.name)):
            r.violation('source/%s/%s/state' % (name, f.name), 'global mutable state: %s' % f.ret)


def check1(name, c, r, f, callee, seen):
    b = bare(callee)
    for rx, what in SOURCES:
        if rx.search(b):
            if what == 'what is in the file system' and f.name == 'gen::fs::exists' or TEST.search(f.name):
                continue
            r.violation('source/%s/%s/%s' % (name, f.name, b[-60:]), '%s, which is part of the generator (reached from %s), depends on %s: %s' % (f.name, seen.get(f.name), what, callee[:160]))


TEST = re.compile(r'^gen::fs::tests?::')


CRATES = ('cxx_build', 'cxxbridge', 'cxx_gen', 'cxxbridge_macro')


def analyse(name, c, r):
    sources(name, c, r)
    Order(name, c, r)


def check(b, r, tier):
    for name in CRATES:
        analyse(name, b.mir(name), r)
    for what, least in (('functions', 1500), ('calls', 15000), ('traversals in hash order', 4), ('bodies of traversals', 4)):
        r.floor(what, least)
    r.rules = ['every traversal of a hash container in the four generator crates (MIR, through functions that return one): what it yields is consumed by something that does not '
               'depend on its order, or acts only on sets and maps or by constant assignments',
               'no function of the generators, nor anything they call, asks for environment, working directory, time, hash values, addresses, source locations, threads or the '
               'file system (except to read the bridge), or uses global mutable state']
    r.assumptions = ['syn, quote, proc-macro2, clap and std are deterministic apart from the functions named', 'options (for the build helper: CFG and the cfg variables Cargo sets) are input',
                     'ordered containers are ordered by what their elements mean, not where they are (no addresses are taken)']
