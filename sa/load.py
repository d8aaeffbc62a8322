"""Builds the LLVM IR of /repo's library sources (both decoder variants) and loads it.

The tree is copied to a scratch directory, the Makefile is asked (make -n) which units it compiles with
which flags, each unit is compiled with clang -O0 -g, linked, run through sroa (register promotion only),
and exported by tool/irdump.  Nothing of the library is executed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

LLVM = '/usr/lib/llvm-18/bin'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisError(Exception):
    """the analysis itself is broken (vanished anchor, failed build): neither pass nor violation"""


def _run(cmd, cwd, **kw):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    return r.stdout


def tree_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    for n in sorted(os.listdir(repo)):
        p = os.path.join(repo, n)
        if os.path.isfile(p) and (n.endswith(('.c', '.h', '.S', '.asm')) or n == 'Makefile'):
            h.update(n.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    for t in ('tool/irdump.cpp', 'sa/load.py'):
        h.update(open(os.path.join(HERE, t), 'rb').read())
    return h.hexdigest()[:24]


def keep_types(files):
    """the linker merges structure types of one layout: make them differ (by a trailing member without size)"""
    txt = {f: open(f).read() for f in files}
    names, const = set(), set()
    for t in txt.values():
        names |= set(re.findall(r'^%struct\.(\w+) = type \{', t, re.M))
        for l in t.splitlines():
            if l.startswith('@') or ' store ' in l or 'insertvalue' in l or 'ret %' in l:
                const |= set(re.findall(r'%struct\.(\w+)(?= [<{])', l))
    mark = {n: k for k, n in enumerate(sorted(names - const), 1)}
    for f, t in txt.items():
        def sub(m):
            k = mark.get(m.group(1))
            return m.group(0) if k is None or m.group(2).startswith('<') else '%%struct.%s = type { %s, [0 x [%d x i8]] }' % (m.group(1), m.group(2), k)
        open(f, 'w').write(re.sub(r'^%struct\.(\w+) = type \{ (.*) \}$', sub, t, flags=re.M))


def build(variant='asm', repo=None, extra=()):
    repo = repo or REPO
    exe = os.path.join(HERE, 'build', 'irdump')
    if not os.path.exists(exe):
        _run(['bash', os.path.join(HERE, 'setup.sh')], HERE)
    key = tree_hash(repo) + '-' + variant
    cache = os.path.join(HERE, 'build', 'cache')
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, key + '.json')
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix='sa-ir-')
    try:
        for n in os.listdir(repo):
            p = os.path.join(repo, n)
            if os.path.isfile(p) and (n.endswith(('.c', '.h', '.S', '.asm')) or n == 'Makefile'):
                shutil.copy(p, os.path.join(tmp, n))
        env = {k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MFLAGS', 'CFLAGS', 'CC', 'AR', 'ASFLAGS', 'OS')}
        args = ['make', '-n', '-B'] + (['x86_64=0'] if variant == 'noasm' else []) + ['libfast-lzma2']
        txt = _run(args, tmp, env=env)
        units = []
        for line in txt.splitlines():
            t = line.split()
            if t and t[0] in ('gcc', 'cc') and '-c' in t and t[-1].endswith('.c'):
                fl = [x for x in t[1:-1] if x.startswith(('-D', '-I', '-U', '-std', '-f', '-pthread')) and x not in ('-fPIC',)]
                units.append((t[-1], fl))
        if not units:
            raise AnalysisError('no compilation units found in make -n output')

        def cc(u):
            src, fl = u
            _run([LLVM + '/clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-emit-llvm', '-S'] + fl +
                 [src, '-o', src + '.ll'], tmp)
            return src + '.ll'
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(cc, units))
        keep_types([os.path.join(tmp, b) for b in bcs])
        _run([LLVM + '/llvm-link', '-o', 'all.bc'] + bcs, tmp)
        _run([LLVM + '/opt', '-passes=function(sroa),globaldce', 'all.bc', '-o', 'all2.bc'], tmp)
        _run([exe, 'all2.bc', 'out.json'], tmp)
        d = json.load(open(os.path.join(tmp, 'out.json')))
        d['units'] = [u[0] for u in units]
        d['flags'] = sorted({f for u in units for f in u[1]})
        d['variant'] = variant
        t2 = out + '.%d' % os.getpid()
        json.dump(d, open(t2, 'w'))
        os.replace(t2, out)
        # bounded cache
        fs = sorted((os.path.getmtime(os.path.join(cache, f)), f) for f in os.listdir(cache))
        for _, f in fs[:-12]:
            os.unlink(os.path.join(cache, f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'file', 'line', 'd', 'fn', 'bb', 'idx')

    def where(self):
        return '%s:%s (%s)' % (self.file, self.line, self.fn.name)

    def __repr__(self):
        return '<%s %%%d %s>' % (self.op, self.id, self.where())


class Function:
    def __init__(self, name, d, mod):
        self.name, self.d, self.mod = name, d, mod
        self.decl = d['decl']
        self.args = d['args']
        self.file, self.line = d.get('file', '?'), d.get('line', 0)
        self.internal = d['internal']
        self.blocks = []
        self.insts = {}
        if not self.decl:
            for bi, b in enumerate(d['blocks']):
                L = []
                for k, x in enumerate(b):
                    i = Inst()
                    i.id, i.op, i.ty, i.ops, i.d, i.fn, i.bb, i.idx = x['id'], x['op'], x['ty'], x['ops'], x, self, bi, k
                    i.file, i.line = x.get('loc', [self.file, self.line])
                    L.append(i)
                    self.insts[i.id] = i
                self.blocks.append(L)
            self.vars = d.get('vars', {})
            self.succ = [self._succ(b) for b in self.blocks]
            self.pred = [[] for _ in self.blocks]
            for a, ss in enumerate(self.succ):
                for s in ss:
                    if a not in self.pred[s]:
                        self.pred[s].append(a)
            self._rpo()

    def _succ(self, b):
        t = b[-1]
        if t.op == 'br':
            return list(t.d['succ'])
        if t.op == 'switch':
            r = []
            for x in [c[1] for c in t.d['cases']] + [t.d['default']]:
                if x not in r:
                    r.append(x)
            return r
        return []

    def _rpo(self):
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        self.rpo = order
        self.rpoi = {b: i for i, b in enumerate(order)}
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while self.rpoi[a] > self.rpoi[c]:
                            a = idom[a]
                        while self.rpoi[c] > self.rpoi[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        # natural loops: header -> body set
        self.loops = {}
        for a in order:
            for s in self.succ[a]:
                if self.dominates(s, a):
                    body = self.loops.setdefault(s, {s})
                    wl = [a]
                    while wl:
                        x = wl.pop()
                        if x in body:
                            continue
                        body.add(x)
                        wl += [p for p in self.pred[x] if p in self.rpoi]

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def calls(self):
        for b in self.blocks:
            for i in b:
                if i.op == 'call':
                    yield i


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.structs, self.globals, self.enums = d['structs'], d['globals'], d['enums']
        self.units, self.flags, self.variant = d['units'], d['flags'], d['variant']
        self.fns = {n: Function(n, f, self) for n, f in d['functions'].items()}
        self.fieldcache = {}

    def fn(self, name):
        f = self.fns.get(name)
        if f is None or f.decl:
            raise AnalysisError('anchor function %s not found (variant %s)' % (name, self.variant))
        return f

    def struct(self, name):
        s = self.structs.get(name)
        if s is None:
            raise AnalysisError('anchor type %s not found' % name)
        return s

    def field(self, s, name):
        for f in self.struct(s)['fields']:
            if f['name'] == name:
                return f
        raise AnalysisError('anchor field %s.%s not found' % (s, name))

    def field_at(self, s, off):
        """(fieldname, fielddesc) of struct s at byte offset off (innermost-first not resolved)"""
        st = self.structs.get(s)
        if st is None:
            return None
        best = None
        for f in st['fields']:
            if f['off'] <= off < f['off'] + max(1, (f['bits'] + 7) // 8):
                best = f
                break
        return best

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisError('anchor enumerator %s not found' % name)
        return self.enums[name]

    def defined(self):
        return [f for f in self.fns.values() if not f.decl]


_mods = {}


def module(variant='asm', repo=None):
    k = (variant, repo)
    if k not in _mods:
        _mods[k] = Module(build(variant, repo))
    return _mods[k]


if __name__ == '__main__':
    for v in ('asm', 'noasm'):
        m = module(v)
        print(v, len(m.units), m.flags, len(m.defined()), sum(len(b) for f in m.defined() for b in f.blocks))
