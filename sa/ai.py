"""Abstract interpreter over the exported IR.

Domain: finite disjunctions of (linear-inequality facts over symbolic atoms, symbolic register and memory values,
property typestate).  Calls are analysed by inlining the callee's body (or by a policy's contract), loops by
counterexample-free candidate-invariant filtering (every kept candidate is re-proved at the entry and at each back
edge in the reporting pass), merges by disjunct grouping and joins.  Nothing is executed and no path is handed to a
solver; the only decision procedure is bounded Fourier-Motzkin entailment inside the domain (lin.py).
"""
import sys
import lin as L
from lin import const, var, add, sub, scale, addc, isconst, ATOMS, new_atom, op_atom
from load import AnalysisError
from effects import gep_tag

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1


class V:
    __slots__ = ('lin', 'pred', 'fn', 'agg', 'tag')

    def __init__(self, lin=None, pred=None, fn=None, agg=None, tag=None):
        self.lin, self.pred, self.fn, self.agg, self.tag = lin, pred, fn, agg, tag

    def same(self, o):
        return self.lin == o.lin and self.pred == o.pred and self.fn == o.fn and (self.agg is o.agg or (
            self.agg is not None and o.agg is not None and len(self.agg) == len(o.agg) and all(
                (a is b) or (a is not None and b is not None and a.same(b)) for a, b in zip(self.agg, o.agg))))

    def __repr__(self):
        return 'V(%s%s%s)' % (L.show(self.lin) if self.lin is not None else '?', ' P%s' % (self.pred,) if self.pred else '',
                              ' F' + self.fn if self.fn else '')


VZ = V(L.ZERO)


def C(c):
    return V(const(c))


# predicates --------------------------------------------------------------
def p_ge(a, b):
    return ('ge', sub(a, b))


def p_gt(a, b):
    return ('ge', addc(sub(a, b), -1))


def p_not(p):
    k = p[0]
    if k == 'ge':
        return ('ge', addc(scale(p[1], -1), -1))
    if k == 'eq':
        return ('ne', p[1])
    if k == 'ne':
        return ('eq', p[1])
    if k == 'not':
        return p[1]
    if k == 'and':
        return ('or', p_not(p[1]), p_not(p[2]))
    if k == 'or':
        return ('and', p_not(p[1]), p_not(p[2]))
    if k == 'T':
        return ('F',)
    if k == 'F':
        return ('T',)
    raise AssertionError(p)


def pred_lins(p):
    if p[0] in ('ge', 'eq', 'ne'):
        yield p[1]
    else:
        for x in p[1:]:
            yield from pred_lins(x)


def pred_map(p, fn):
    if p[0] in ('ge', 'eq', 'ne'):
        return (p[0], fn(p[1]))
    return (p[0],) + tuple(pred_map(x, fn) for x in p[1:])


class State:
    __slots__ = ('frames', 'mem', 'facts', 'idx', 'ne', 'ts', 'reg', 'zero', 'trail', 'dead', 'old')

    def __init__(self):
        self.frames = ({},)
        self.mem, self.facts, self.idx, self.ne, self.ts, self.reg = {}, {}, None, frozenset(), {}, {}
        self.zero, self.trail, self.dead = frozenset(), None, False
        self.old = {}

    def copy(self):
        s = State.__new__(State)
        s.frames = self.frames[:-1] + (dict(self.frames[-1]),)
        s.mem, s.facts, s.idx, s.ne, s.ts, s.reg = dict(self.mem), dict(self.facts), self.idx, self.ne, dict(self.ts), self.reg
        s.zero, s.trail, s.dead, s.old = self.zero, self.trail, self.dead, self.old
        return s

    def index(self):
        if self.idx is None:
            ix = {}
            for t, c in self.facts.items():
                f = (c, t)
                for a, _ in t:
                    ix.setdefault(a, []).append(f)
            self.idx = ix
        return self.idx

    def add(self, f):
        """assert f >= 0"""
        f = L.normfact(f)
        if not f[1]:
            if f[0] < 0:
                self.dead = True
            return
        c = self.facts.get(f[1])
        if c is not None and c <= f[0]:
            return
        if L.entails_cheap(f):
            return
        nt = tuple((a, -k) for a, k in f[1])
        o = self.facts.get(nt)
        if o is not None and o + f[0] < 0:
            self.dead = True
            return
        if o is not None and self.ne and o + f[0] == 0 and ((f[0], f[1]) in self.ne or (o, nt) in self.ne):
            self.dead = True
            return
        # strengthen with a matching disequality
        if self.ne:
            while (f[0], f[1]) in self.ne or (-f[0], nt) in self.ne:
                f = (f[0] - 1, f[1])
        self.facts = dict(self.facts) if False else self.facts
        self.facts[f[1]] = f[0]
        self.idx = None

    def add_eq(self, f):
        self.add(f)
        if not self.dead:
            self.add(scale(f, -1))

    def add_ne(self, f):
        if isconst(f):
            if f[0] == 0:
                self.dead = True
            return
        if self.entails(f):
            self.add(addc(f, -1))
        elif self.entails(scale(f, -1)):
            self.add(addc(scale(f, -1), -1))
        else:
            self.ne = self.ne | {L.normeq(f)}

    def entails(self, g):
        if not g[1]:
            return g[0] >= 0
        if self.dead:
            return True
        if L.entails(self.index(), g):
            return True
        return False

    def is_ne(self, f):
        f = L.normeq(f)
        return f in self.ne or (-f[0], tuple((a, -k) for a, k in f[1])) in self.ne

    def eq(self, a, b):
        d = sub(a, b)
        if isconst(d):
            return d[0] == 0
        return self.entails(d) and self.entails(scale(d, -1))

    def decide(self, p):
        k = p[0]
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'ge':
            if self.entails(p[1]):
                return True
            if self.entails(addc(scale(p[1], -1), -1)):
                return False
            return None
        if k in ('eq', 'ne'):
            d = p[1]
            if isconst(d):
                return (d[0] == 0) == (k == 'eq')
            if self.is_ne(d):
                return k == 'ne'
            ge, le = self.entails(d), self.entails(scale(d, -1))
            if ge and le:
                return k == 'eq'
            if self.entails(addc(d, -1)) or self.entails(addc(scale(d, -1), -1)):
                return k == 'ne'
            return None
        if k == 'not':
            r = self.decide(p[1])
            return None if r is None else not r
        a, b = self.decide(p[1]), self.decide(p[2])
        if k == 'and':
            if a is False or b is False:
                return False
            return True if a and b else None
        if a or b:
            return True
        return False if a is False and b is False else None

    def assume(self, p):
        """list of states (copies are made only when forking) in which p holds"""
        k = p[0]
        if k == 'T':
            return [self]
        if k == 'F':
            return []
        if k == 'not':
            return self.assume(p_not(p[1]))
        if k == 'and':
            r = []
            for s in self.assume(p[1]):
                r += s.assume(p[2])
            return r
        if k == 'or':
            d = self.decide(p[1])
            if d is True:
                return [self]
            if d is False:
                return self.assume(p[2])
            d = self.decide(p[2])
            if d is True:
                return [self]
            if d is False:
                return self.assume(p[1])
            o = self.copy()
            r = self.assume(p[1])
            for s in o.assume(p_not(p[1])):
                r += s.assume(p[2])
            return r
        d = self.decide(p)
        if d is True:
            if k == 'eq':
                self.subst_eq(p[1])
            return [] if self.dead else [self]
        if d is False:
            return []
        if k == 'ge':
            self.add(p[1])
        elif k == 'eq':
            self.add_eq(p[1])
            if not self.dead:
                self.subst_eq(p[1])
        else:
            self.add_ne(p[1])
        return [] if self.dead else [self]

    def subst_eq(self, d):
        """an atom found equal to a constant (or to another single atom with offset) is replaced everywhere"""
        if len(d[1]) == 1 and abs(d[1][0][1]) == 1:
            a, k = d[1][0]
            c = -d[0] * k
            self.subst({a: const(c)})
            if not self.dead:
                self.facts[((a, 1),)] = -c
                self.facts[((a, -1),)] = c
                self.idx = None

    def subst(self, m):
        memo = {}

        def sl(x):
            for a, _ in x[1]:
                if a in m or ATOMS[a].parts:
                    return L.subst(x, m, memo)
            return x
        self.remap(sl)

    def remap(self, sl):
        def sv(v):
            if v is None:
                return v
            l, p, ag = v.lin, v.pred, v.agg
            if l is not None:
                l = sl(l)
            if p is not None:
                p = pred_map(p, sl)
            if ag is not None:
                ag = tuple(sv(z) for z in ag)
            if l is v.lin and p == v.pred and ag == v.agg:
                return v
            return V(l, p, v.fn, ag, v.tag)
        fr = []
        for f in self.frames:
            ch = None
            for k, v in f.items():
                if isinstance(v, V):
                    n = sv(v)
                    if n is not v:
                        if ch is None:
                            ch = dict(f)
                        ch[k] = n
            fr.append(ch if ch is not None else f)
        self.frames = tuple(fr)
        mem = {}
        for a, (v, n, t) in self.mem.items():
            mem[sl(a)] = (sv(v), n, t)
        self.mem = mem
        old = self.facts
        self.facts, self.idx = {}, None
        ne = self.ne
        self.ne = frozenset()
        for t, c in old.items():
            self.add(sl((c, t)))
            if self.dead:
                return
        for f in ne:
            f = sl(f)
            if isconst(f):
                if f[0] == 0:
                    self.dead = True
                    return
            else:
                self.ne = self.ne | {L.normeq(f)}
        self.reg = {k: (sl(sz), kd) for k, (sz, kd) in self.reg.items()}
        self.ts = {k: (sv(v) if isinstance(v, V) else v) for k, v in self.ts.items()}

    def note(self, what):
        self.trail = (what, self.trail)

    def trace(self, n=40):
        r = []
        t = self.trail
        while t and len(r) < n:
            r.append(t[0])
            t = t[1]
        return list(reversed(r))


class Policy:
    """hooks; every method may be overridden"""
    cap = 24
    max_depth = 30
    live_ts = ()

    def inline(self, eng, name):
        return True

    def call(self, eng, st, inst, name, args):
        return None

    def ret(self, eng, st, fn, v):
        return None

    def load(self, eng, st, inst, addr, size, tag):
        pass

    def store(self, eng, st, inst, addr, size, tag, v):
        pass

    def fresh_load(self, eng, st, inst, addr, size, tag, v):
        pass

    def key(self, st):
        return tuple(sorted(((k, v) for k, v in st.ts.items() if not isinstance(v, V)), key=repr))

    def cap_for(self, fn):
        return self.cap

    def fkey(self, fn, st):
        """like key, inside one function only"""
        return None

    def valsig(self, st, v):
        """states in which a result has different signatures are not merged (unless there are too many)"""
        return 'x'

    def hints(self, eng, fn, header, slots):
        return []

    coarse_sig = False
    join_bounds = ()     # terms which joined values are compared with

    def loop_key(self, eng, fn, st):
        """states which differ in it are not joined at the entry of a loop"""
        return None

    def enter(self, eng, st, fn, args):
        pass

    def cut(self, eng, f, h, items):
        """analyse the loop with an invariant of the policy's own"""
        return None

    def branch(self, eng, st, inst, taken):
        pass


class Engine:
    def __init__(self, mod, policy, eff=None):
        self.mod, self.pol, self.eff = mod, policy, eff
        self.rec = 1          # recording level: obligations only recorded when > 0
        self.obl = {}
        self.depth = 0
        self.stack = []
        self.live_cache = {}
        self.steps = 0
        self.maxsteps = 3000000
        self.fresh_n = 0
        self.fns_seen = set()
        self.calls_seen = 0
        self.inv_cache = {}
        self.forks = 0
        self.join_count = 0
        self.debug = None
        self.coarse = getattr(policy, 'coarse', None)

    COARSE_OPS = frozenset(('zext', 'sext', 'trunc', 'ptrtoint', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'))

    # ---- obligations ----
    def where(self, inst):
        return inst.where()

    def check(self, st, inst, kind, ok, msg, extra=None):
        """ok: bool or zero-argument callable"""
        if self.rec <= 0 or st.dead:
            return
        k = (inst.fn.name, inst.id, kind)
        o = self.obl.get(k)
        if o is None:
            o = self.obl[k] = {'kind': kind, 'file': inst.file, 'line': inst.line, 'fn': inst.fn.name, 'n': 0, 'fail': None}
        o['n'] += 1
        if o['fail'] is not None:
            return
        r = ok() if callable(ok) else ok
        if not r:
            o['fail'] = {'msg': msg() if callable(msg) else msg, 'trail': st.trace(60), 'stack': [f for f in self.stack],
                         'extra': extra}

    def check_ge(self, st, inst, kind, lin, msg):
        self.check(st, inst, kind, lambda: st.entails(lin), lambda: '%s: cannot show %s >= 0' % (msg, L.show(lin)))

    def fails(self):
        return [o for o in self.obl.values() if o['fail']]

    # ---- values ----
    def fresh(self, desc, bits=None, signed=False):
        if bits is None:
            return V(var(new_atom(desc)))
        if signed:
            return V(var(new_atom(desc, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)))
        return V(var(new_atom(desc, 0, (1 << bits) - 1)))

    def fresh_ptr(self, desc, nonnull=False):
        return V(var(new_atom(desc, 4096 if nonnull else 0, (1 << 63) - (1 << 40), 'ptr')))

    def fresh_ty(self, desc, ty):
        if ty == 'ptr':
            return self.fresh_ptr(desc)
        if ty == 'i1':
            return V(pred=('eq', addc(var(new_atom(desc, 0, 1)), -1)))
        if ty.startswith('i') and ty[1:].isdigit():
            return self.fresh(desc, int(ty[1:]))
        if ty.startswith('{') or ty.startswith('%') or ty.startswith('['):
            return V(agg=())
        return V()

    def val(self, st, op, inst=None):
        k = op[0]
        if k == 'i':
            v = st.frames[-1].get(op[1])
            if v is None:
                v = self.fresh_ty(('undef', op[1]), inst.fn.insts[op[1]].ty if inst is not None else 'i64')
                st.frames[-1][op[1]] = v
            return v
        if k == 'a':
            return st.frames[-1][('a', op[1])]
        if k == 'c':
            if op[2] == 1:
                return V(pred=('T',) if op[1] else ('F',))
            return C(op[1])
        if k == 'n':
            return VZ
        if k == 'f':
            return V(var(self.global_atom('&' + op[1])), fn=op[1])
        if k == 'g':
            return V(var(self.global_atom(op[1])), tag=('global', op[1]))
        if k == 'ge':
            b = self.val(st, op[1], inst)
            return V(addc(b.lin, op[2]), tag=b.tag)
        if k == 'u':
            return self.fresh(('undef',), 64)
        return V()

    _globals = {}

    def global_atom(self, n):
        a = Engine._globals.get(n)
        if a is None:
            a = Engine._globals[n] = new_atom(('global', n), 4096, (1 << 63) - (1 << 40), 'ptr')
        return a

    def lin(self, st, v, desc='x', bits=64):
        if v.lin is not None:
            return v.lin
        if v.pred is not None:
            d = st.decide(v.pred)
            if d is not None:
                return const(1 if d else 0)
        return var(new_atom(('opaque', desc), 0, (1 << bits) - 1))

    # ---- region bookkeeping ----
    def set_region(self, st, v, size, kind='obj'):
        """declare that pointer value v (a single atom) points at `size` (Lin) valid bytes"""
        a = v.lin[1][0][0]
        st.reg = dict(st.reg)
        st.reg[a] = (size, kind)

    def region_of(self, st, addr):
        for a, k in addr[1]:
            if k == 1 and a in st.reg:
                return a, st.reg[a]
        for a, k in addr[1]:
            if k == 1:
                d = ATOMS[a].desc
                if isinstance(d, tuple) and d[0] == 'global':
                    g = self.mod.globals.get(d[1])
                    if g:
                        return a, (const(g['bytes']), 'global')
        return None

    # ---- memory ----
    def may_overlap(self, st, a, n, ta, b, m, tb):
        """may [a,a+n) and [b,b+m) overlap?  n/m: byte counts or None (unknown)"""
        d = sub(b, a)
        if isconst(d):
            if n is None or m is None:
                return True
            return not (d[0] >= n or -d[0] >= m)
        ra, rb = self.base_atom(st, a), self.base_atom(st, b)
        if ra is not None and rb is not None and ra != rb:
            if self.distinct(ra, rb):
                return False
        if ta is not None and tb is not None and ta != tb:
            return False
        if (ta is None) != (tb is None):
            # plain buffers and fields of the library's structures do not overlap (documented assumption)
            return False
        if ra is not None and ra == rb and n is not None and m is not None:
            if st.entails(addc(d, -n)) or st.entails(addc(scale(d, -1), -m)):
                return False
        return True

    def base_atom(self, st, a):
        for x, k in a[1]:
            if k == 1 and ATOMS[x].kind in ('ptr', 'alloca', 'heap'):
                return x
        return None

    def distinct(self, a, b):
        ka, kb = ATOMS[a].kind, ATOMS[b].kind
        if ka == 'alloca' and kb == 'alloca':
            return True
        if 'alloca' in (ka, kb):
            # a loaded/parameter pointer can only be an alloca if its address escaped through memory; values are
            # tracked exactly in that case, so an opaque pointer atom never denotes a local of an active frame
            return True
        if ka == 'heap' and kb == 'heap':
            return True
        if 'heap' in (ka, kb):
            h, o = (a, b) if ka == 'heap' else (b, a)
            return o < h or ATOMS[o].desc[0] in ('global', 'arg')
        da, db = ATOMS[a].desc, ATOMS[b].desc
        if isinstance(da, tuple) and isinstance(db, tuple) and da[0] == 'global' and db[0] == 'global':
            return True
        ga, gb = isinstance(da, tuple) and da[0] == 'global', isinstance(db, tuple) and db[0] == 'global'
        return ga != gb

    def load_mem(self, st, inst, addr, size, ty, tag, desc=None):
        e = st.mem.get(addr)
        if e is not None and e[1] == size:
            return e[0]
        v = None
        # constant globals
        g = tag[1] if tag is not None and tag[0] == 'global' else None
        if g is None:
            for x, k in addr[1]:
                if k == 1 and isinstance(ATOMS[x].desc, tuple) and ATOMS[x].desc[0] == 'global':
                    g = ATOMS[x].desc[1]
        if g is not None:
            v = self.load_global(st, g, addr, size, ty)
            if v is not None:
                return v
        if st.zero:
            b = self.base_atom(st, addr)
            if b in st.zero and not any(self.may_overlap(st, addr, size, tag, k, n, t) for k, (_, n, t) in st.mem.items()
                                         if self.base_atom(st, k) == b):
                v = VZ if ty != 'i1' else V(pred=('F',))
        if v is None:
            signed = False
            if tag is not None and tag[0] != 'global' and ty != 'ptr':
                f = self.field_type(tag)
                if f and f.get('k') == 'array':
                    f = f.get('of')
                if f and f.get('k') == 'int' and f.get('bits') == size * 8:
                    signed = f.get('signed', False)
            d = desc or ('ld',) + (('%s.%s' % tag) if tag else 'mem',) + ((inst.line,) if inst is not None else ())
            if ty == 'ptr':
                v = self.fresh_ptr(d)
            elif ty == 'i1':
                v = V(pred=('eq', addc(var(new_atom(d, 0, 1)), -1)))
            elif ty.startswith('i') and ty[1:].isdigit():
                v = self.fresh(d, int(ty[1:]), signed)
            else:
                v = V()
            self.pol.fresh_load(self, st, inst, addr, size, tag, v)
        st.mem[addr] = (v, size, tag)
        return v

    def field_type(self, tag):
        s = self.mod.structs.get(tag[0])
        if not s:
            return None
        for f in s['fields']:
            if f['name'] == tag[1]:
                return f['type']
        return None

    def load_global(self, st, g, addr, size, ty):
        G = self.mod.globals.get(g)
        if not G or not G['const'] or 'init' not in G:
            return None
        off = sub(addr, var(self.global_atom(g)))
        flat = self.flat_global(g)
        if flat is None:
            return None
        w = flat['w']
        if isconst(off):
            for x in flat['items']:
                if x[0] == off[0] and x[1] == size:
                    if x[2] is None:
                        return None
                    return x[2] if isinstance(x[2], V) else C(x[2] if x[2] >= 0 or ty != 'ptr' else x[2])
            return None
        vals = [x[2] for x in flat['items'] if x[1] == size and isinstance(x[2], int)]
        if not vals or ty == 'ptr':
            return None
        # table element at a symbolic offset: column ranges when the stride is known
        step = 0
        from math import gcd
        for _, k in off[1]:
            step = gcd(step, abs(k))
        sel = vals
        if step > 1:
            col = [x[2] for x in flat['items'] if x[1] == size and isinstance(x[2], int) and (x[0] - off[0]) % step == 0]
            sel = col or vals
        return V(var(op_atom('gld', (g, off, size), min(sel), max(sel))))

    _flat = {}

    def flat_global(self, g):
        k = (id(self.mod), g)
        if k in Engine._flat:
            return Engine._flat[k]
        G = self.mod.globals[g]
        items = []

        def go(di, init, off, tag=None):
            if init is None or di is None:
                return None
            if di.get('k') == 'array':
                n = len(init) if isinstance(init, list) else 0
                if not n:
                    return
                # element size from total
                es = G_bytes(di) // n if n else 0
                for i, e in enumerate(init):
                    go(di['of'], e, off + i * es, tag)
            elif di.get('k') == 'struct':
                s = self.mod.structs.get(di.get('name'))
                if s and isinstance(init, list):
                    fs = s['fields']
                    for f, e in zip(fs, [x for x in init]):
                        go(f['type'], e, off + f['off'], (di['name'], f['name']))
            elif di.get('k') == 'int':
                items.append((off, di['bits'] // 8, init if isinstance(init, int) else None, tag))
            elif di.get('k') == 'ptr':
                r, d = (init.get('ref') if isinstance(init, dict) else None), 0
                if r and r[0] == 'ge':
                    r, d = r[1], r[2]
                items.append((off, 8, V(addc(var(self.global_atom(r[1])), d), tag=('global', r[1])) if r and r[0] == 'g' else
                              C(0) if init == 0 else None, tag))

        def G_bytes(di):
            return di.get('bytes') or 0
        try:
            d = G.get('di')
            if d is None:
                r = None
            else:
                go(d, G['init'], 0)
                r = {'items': items, 'w': None}
        except Exception:
            r = None
        Engine._flat[k] = r
        return r

    def store_mem(self, st, inst, addr, size, v, tag):
        dead = []
        for k, (ov, n, t) in st.mem.items():
            if k == addr:
                if n == size:
                    continue
                dead.append(k)
            elif self.may_overlap(st, addr, size, tag, k, n, t):
                dead.append(k)
        for k in dead:
            del st.mem[k]
        if st.zero:
            b = self.base_atom(st, addr)
            for z in st.zero:
                if z == b:
                    if not self.same_base_const(addr, b):
                        st.zero = st.zero - {z}
                elif b is None or not self.distinct(z, b):
                    pass
        st.mem[addr] = (v, size, tag)

    def same_base_const(self, addr, b):
        return len(addr[1]) == 1 and addr[1][0] == (b, 1)

    def havoc_range(self, st, addr, n, tag=None, keep=None):
        """bytes [addr, addr+n) get unknown contents (n None: unknown length)"""
        b = self.base_atom(st, addr)
        for k in list(st.mem):
            _, m, t = st.mem[k]
            if tag is None:
                bk = self.base_atom(st, k)
                if b is not None and bk == b:
                    d = sub(k, addr)
                    if n is not None and isconst(d) and isconst(n) and (d[0] >= n[0] or -d[0] >= m):
                        continue
                    if n is not None and st.entails(sub(d, n)):
                        continue
                    if st.entails(addc(scale(d, -1), -m)):
                        continue
                    del st.mem[k]
                elif t is None and not (b is not None and bk is not None and self.distinct(b, bk)):
                    del st.mem[k]
            elif self.may_overlap(st, addr, n[0] if n is not None and isconst(n) else None, tag, k, m, t):
                del st.mem[k]
        if b in st.zero:
            st.zero = st.zero - {b}

    def havoc_tags(self, st, tags):
        for k in list(st.mem):
            if st.mem[k][2] in tags:
                del st.mem[k]

    def havoc_call(self, st, inst, name, args):
        """effects of a callee that is not analysed in line"""
        eff = self.eff
        if eff is None or name not in eff.w:
            for k in list(st.mem):
                if ATOMS[self.base_atom(st, k) or 0].kind != 'alloca':
                    del st.mem[k]
            st.zero = frozenset()
            return
        tags = set()
        buf = bufp = False
        for t in eff.w[name]:
            if t[0] == 'tag':
                tags.add(t[1])
            elif t[0] == 'param':
                if t[1] < len(args) and args[t[1]].lin is not None:
                    self.havoc_range(st, args[t[1]].lin, None)
            elif t[0] == 'bufp':
                bufp = True
            else:
                buf = True
        self.havoc_tags(st, tags)
        for k in list(st.mem):
            v, n, t = st.mem[k]
            if t is None and buf:
                b = self.base_atom(st, k)
                if b is not None and ATOMS[b].kind == 'alloca':
                    continue
                # strict aliasing: a slot holding a pointer only changes through a store of a pointer
                if not bufp and n == 8 and v is not None and v.lin is not None and len(v.lin[1]) == 1 and ATOMS[v.lin[1][0][0]].kind in ('heap', 'ptr'):
                    continue
                del st.mem[k]
        if tags or buf:
            st.zero = frozenset(z for z in st.zero if ATOMS[z].kind == 'alloca')

    # ---- integer helpers ----
    def bits(self, ty):
        return int(ty[1:]) if ty[0] == 'i' and ty[1:].isdigit() else 64

    def unsigned(self, st, x, w):
        """alternatives [(state, lin)] with lin the unsigned value of x in width w"""
        if isconst(x):
            return [(st, const(x[0] & ((1 << w) - 1)))]
        if st.entails(x):
            return [(st, x)]
        if w >= 64 and st.entails(addc(scale(x, -1), -1)) is False:
            pass
        o = st.copy()
        self.forks += 1
        r = []
        st.add(x)
        if not st.dead:
            r.append((st, x))
        o.add(addc(scale(x, -1), -1))
        if not o.dead:
            r.append((o, addc(x, 1 << w)))
        return r

    def fits_hi(self, st, x, w):
        return st.entails(addc(scale(x, -1), (1 << w) - 1))

    def clampw(self, st, x, w, op, parts, nsw=False):
        """x is the ideal result; keep it if it cannot exceed the width"""
        if isconst(x):
            if -(1 << (w - 1)) <= x[0] < (1 << w):
                return x
            return const(x[0] & ((1 << w) - 1))
        if nsw or w >= 64 or self.fits_hi(st, x, w):
            return x
        return var(op_atom(op, parts + (w,), 0, (1 << w) - 1))

    def do_binop(self, st, i, a, b):
        """returns list of (state, V)"""
        op, w = i.op, self.bits(i.ty)
        if i.ty == 'i1' or a.pred is not None or b.pred is not None:
            if i.ty == 'i1' and a.pred is not None and b.pred is not None:
                if op == 'and':
                    return [(st, V(pred=('and', a.pred, b.pred)))]
                if op == 'or':
                    return [(st, V(pred=('or', a.pred, b.pred)))]
                if op == 'xor':
                    if b.pred == ('T',):
                        return [(st, V(pred=p_not(a.pred)))]
                    if a.pred == ('T',):
                        return [(st, V(pred=p_not(b.pred)))]
                    return [(st, V(pred=('or', ('and', a.pred, p_not(b.pred)), ('and', p_not(a.pred), b.pred))))]
            return [(st, self.fresh_ty(('bool', i.line), i.ty))]
        if a.lin is None or b.lin is None:
            return [(st, self.fresh_ty((op, i.line), i.ty))]
        x, y = a.lin, b.lin
        nsw = i.d.get('nsw', False)
        if op == 'add':
            r = add(x, y)
            if w < 64 and not nsw and not isconst(r):
                if isconst(y) and y[0] < 0:
                    return [(st, V(r))]
            if w in (32, 16, 8) and not nsw and not isconst(r) and not self.fits_hi(st, r, w):
                # may wrap: split on it
                o = st.copy()
                self.forks += 1
                st.add(addc(scale(r, -1), (1 << w) - 1))
                o.add(addc(r, -(1 << w)))
                return [(s, V(z)) for s, z in ((st, r), (o, addc(r, -(1 << w)))) if not s.dead]
            return [(st, V(self.clampw(st, r, w, 'add', tuple(sorted((x, y))), nsw)))]
        if op == 'sub':
            r = sub(x, y)
            return [(st, V(self.clampw(st, r, w, 'sub', (x, y)) if isconst(r) else r))]
        if op == 'mul':
            if isconst(y) or isconst(x):
                r = scale(x, y[0]) if isconst(y) else scale(y, x[0])
                return [(st, V(self.clampw(st, r, w, 'mul', tuple(sorted((x, y))), nsw)))]
            r = var(op_atom('mul', tuple(sorted((x, y))) + (w,), 0, None if w >= 64 else (1 << w) - 1))
            if not nsw and w < 64:
                return [(st, V(r))]
            if w >= 64 and st.entails(addc(x, -1)) and st.entails(y):
                st.add(sub(r, y))
            if w >= 64 and st.entails(addc(y, -1)) and st.entails(x):
                st.add(sub(r, x))
            if w >= 64:
                # 0 <= y <= c, 0 <= x and c*x representable: x*y <= c*x
                for u, v in ((x, y), (y, x)):
                    c = self.upper(st, v)
                    while c is not None and 1 < c <= 31 and st.entails(addc(scale(v, -1), c - 1)):
                        c -= 1
                    if c is not None and 0 < c < 1 << 16 and st.entails(v) and st.entails(u) and st.entails(addc(scale(u, -1), 1 << 40)):
                        st.add(sub(scale(u, c), r))
            return [(st, V(r))]
        if op == 'shl':
            if isconst(y):
                r = scale(x, 1 << y[0])
                if w >= 64:
                    if isconst(x) or st.entails(addc(scale(r, -1), M64)):
                        return [(st, V(self.clampw(st, r, w, 'shl', (x, y))))]
                    return [(st, V(var(op_atom('shl', (x, y, w), 0, M64))))]
                return [(st, V(self.clampw(st, r, w, 'shl', (x, y), nsw)))]
            if isconst(x) and x[0] >= 0:
                # c << y: bounded by the largest shift
                hi = self.upper(st, y)
                if hi is not None and 0 <= hi < 64 and st.entails(y):
                    m = x[0] << hi
                    if m < (1 << w):
                        t = op_atom('shlc', (x, y), x[0], m)
                        return [(st, V(var(t)))]
            t = var(op_atom('shl', (x, y, w), 0, (1 << w) - 1))
            return [(st, V(t))]
        if op in ('lshr', 'udiv', 'urem', 'ashr', 'sdiv', 'srem'):
            out = []
            if op in ('ashr', 'sdiv', 'srem'):
                alts = [(st, x)]
            else:
                alts = self.unsigned(st, x, w)
            for s, u in alts:
                out += [(s, V(self.divlike(s, op, u, y, w)))]
            return out
        if op == 'and':
            if isconst(x) and not isconst(y):
                x, y = y, x
            out = []
            if isconst(y):
                c = y[0]
                if isconst(x):
                    return [(st, C(self.tosigned(x[0] & c, w) if x[0] < 0 and c < 0 else (x[0] & c) & ((1 << w) - 1)))]
                if c < 0 and (-c & (-c - 1)) == 0:
                    # x & ~(2^k-1)
                    if (-c) == 1:
                        return [(st, V(x))]
                    for s, u in self.unsigned(st, x, w):
                        out.append((s, V(sub(u, self.mod_(s, u, -c)))))
                    return out
                c &= (1 << w) - 1
                if c & (c + 1) == 0:
                    k = c + 1
                    # x mod 2^k: valid for negative ideal integers too
                    return [(st, V(self.mod_(st, x, k)))]
                for s, u in self.unsigned(st, x, w):
                    hi_clear = (1 << w) - 1 - c
                    if (hi_clear & (hi_clear + 1)) == 0:
                        out.append((s, V(sub(u, self.mod_(s, u, hi_clear + 1)))))
                        continue
                    t = var(op_atom('and', (u, c), 0, c))
                    s.add(sub(u, t))
                    out.append((s, V(t)))
                return out
            for s, u in self.unsigned(st, x, w):
                for s2, v in self.unsigned(s, y, w):
                    if u == v:
                        out.append((s2, V(u)))
                        continue
                    t = var(op_atom('and', tuple(sorted((u, v))), 0, (1 << w) - 1))
                    s2.add(sub(u, t))
                    s2.add(sub(v, t))
                    out.append((s2, V(t)))
            return out
        if op == 'or':
            if isconst(x) and isconst(y):
                return [(st, C(self.tosigned(x[0] | y[0], w) if (x[0] < 0 or y[0] < 0) else x[0] | y[0]))]
            if isconst(y) and y[0] == 0:
                return [(st, V(x))]
            if isconst(x) and x[0] == 0:
                return [(st, V(y))]
            out = []
            for s, u in self.unsigned(st, x, w):
                for s2, v in self.unsigned(s, y, w):
                    if self.disjoint(s2, u, v) or self.disjoint(s2, v, u):
                        out.append((s2, V(add(u, v))))
                        continue
                    t = var(op_atom('or', tuple(sorted((u, v))), 0, (1 << w) - 1))
                    s2.add(sub(t, u))
                    s2.add(sub(t, v))
                    s2.add(sub(add(u, v), t))
                    # both below 2^k  =>  result below 2^k
                    for k in (1, 2, 3, 4, 8, 9, 16, 24, 32):
                        if k < w and s2.entails(addc(scale(u, -1), (1 << k) - 1)) and s2.entails(addc(scale(v, -1), (1 << k) - 1)):
                            s2.add(addc(scale(t, -1), (1 << k) - 1))
                            break
                    out.append((s2, V(t)))
            return out
        if op == 'xor':
            if isconst(x) and isconst(y):
                return [(st, C(self.tosigned(x[0] ^ y[0], w) if (x[0] < 0 or y[0] < 0) else x[0] ^ y[0]))]
            if isconst(x):
                x, y = y, x
            if isconst(y) and y[0] == -1:
                return [(st, V(addc(scale(x, -1), -1)))]
            if x == y:
                return [(st, VZ)]
            # (p & q) ^ p  = p - (p & q)
            for p, q in ((x, y), (y, x)):
                if len(p[1]) == 1 and p[0] == 0 and p[1][0][1] == 1:
                    A = ATOMS[p[1][0][0]]
                    if A.parts and A.desc[0] in ('and', 'mod') and q in A.parts and st.entails(q):
                        return [(st, V(sub(q, p)))]
            out = []
            for s, u in self.unsigned(st, x, w):
                for s2, v in self.unsigned(s, y, w):
                    if self.disjoint(s2, u, v) or self.disjoint(s2, v, u):
                        out.append((s2, V(add(u, v))))
                        continue
                    t = var(op_atom('xor', tuple(sorted((u, v))), 0, (1 << w) - 1))
                    s2.add(sub(add(u, v), t))
                    for k in (1, 2, 3, 4, 8, 9, 16, 24):
                        if k < w and s2.entails(addc(scale(u, -1), (1 << k) - 1)) and s2.entails(addc(scale(v, -1), (1 << k) - 1)):
                            s2.add(addc(scale(t, -1), (1 << k) - 1))
                            break
                    out.append((s2, V(t)))
            return out
        return [(st, self.fresh_ty((op, i.line), i.ty))]

    def tosigned(self, c, w):
        c &= (1 << w) - 1
        return c - (1 << w) if c >> (w - 1) else c

    def upper(self, st, x):
        """best constant upper bound from ranges and single-variable facts"""
        if isconst(x):
            return x[0]
        hi = L.ihigh(x)
        for t in (31, 30, 24, 16, 8, 7, 6, 5, 4, 3, 2, 1):
            if hi is not None and hi <= t:
                return hi
        for t in (0, 1, 2, 3, 4, 5, 8, 11, 16, 24, 30, 31):
            if st.entails(addc(scale(x, -1), t)):
                return t
        return hi

    def disjoint(self, st, u, v):
        """v in [0, 2^k) and u a multiple of 2^k"""
        from math import gcd
        g = abs(u[0])
        for _, c in u[1]:
            g = gcd(g, abs(c))
        if g == 0:
            return True
        p = g & -g
        return p > 1 and st.entails(addc(scale(v, -1), p - 1))

    def mod_(self, st, x, k):
        if k == 1:
            return L.ZERO
        if isconst(x):
            return const(x[0] % k)
        if st.entails(x) and st.entails(addc(scale(x, -1), k - 1)):
            return x
        # drop multiples of k
        r = (x[0] % k, tuple((a, c % k if c % k <= k // 2 else c % k - k) for a, c in x[1] if c % k))
        if isconst(r):
            return const(r[0] % k)
        if r != x and st.entails(r) and st.entails(addc(scale(r, -1), k - 1)):
            return r
        t = var(op_atom('mod', (r, k), 0, k - 1))
        if st.entails(x):
            st.add(sub(x, t))
        return t

    def divlike(self, st, op, x, y, w):
        if op in ('lshr', 'ashr'):
            if isconst(y):
                d = 1 << y[0]
                return self.div_(st, x, d)
            t = op_atom(op + 'v', (x, y), 0 if st.entails(x) else None, None)
            t = var(t)
            if st.entails(x):
                st.add(sub(x, t))
                # (x >> y) bounded by x's bound shifted by y's lower bound is not needed so far
            return t
        if op in ('udiv', 'sdiv'):
            if isconst(y) and y[0] > 0 and (op == 'udiv' or st.entails(x)):
                return self.div_(st, x, y[0])
            if st.entails(x) and st.entails(addc(y, -1)):
                t = var(op_atom('divv', (x, y), 0, None))
                st.add(sub(x, t))
                return t
            return self.fresh(('div',), w, op == 'sdiv').lin
        if isconst(y) and y[0] > 0 and (op == 'urem' or st.entails(x)):
            return self.mod_(st, x, y[0])
        if st.entails(x) and st.entails(addc(y, -1)):
            t = var(op_atom('modv', (x, y), 0, None))
            st.add(sub(x, t))
            st.add(addc(sub(y, t), -1))
            return t
        return self.fresh(('rem',), w, op == 'srem').lin

    def div_(self, st, x, d):
        if d == 1:
            return x
        if isconst(x):
            return const(x[0] // d)
        # split off exact multiples
        q = (x[0] // d, tuple((a, c // d) for a, c in x[1] if c % d == 0))
        r = (x[0] % d, tuple((a, c) for a, c in x[1] if c % d))
        if not r[1]:
            return q
        if st.entails(r) and st.entails(addc(scale(r, -1), d - 1)):
            return q
        hi = L.ihigh(x)
        if (q[1] or q[0]) and not st.entails(r):
            q, r = L.ZERO, x

        def ax(t):
            return [sub(r, scale(t, d)), addc(sub(scale(t, d), r), d - 1)]
        lo = 0 if st.entails(r) else None
        t = op_atom('div', (r, d), None, None, ax)
        if lo == 0:
            st.add(var(t))
        return add(q, var(t))

    def do_cast(self, st, i, v):
        op = i.op
        fw, tw = self.bits(i.d['from']), self.bits(i.ty)
        if op in ('zext', 'sext') and i.d['from'] == 'i1':
            p = v.pred or ('ne', self.lin(st, v, 'b', 1))
            one = 1 if op == 'zext' else -1
            d = st.decide(p)
            if d is not None:
                return [(st, C(one if d else 0))]
            # keep as a boolean-valued integer: fork
            o = st.copy()
            self.forks += 1
            r = [(s, C(one)) for s in st.assume(p)] + [(s, VZ) for s in o.assume(p_not(p))]
            return r
        if i.ty == 'i1':
            x = self.lin(st, v)
            return [(st, V(pred=('ne', self.mod_(st, x, 2))))]
        if v.lin is None:
            return [(st, self.fresh_ty((op, i.line), i.ty))]
        x = v.lin
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return [(st, V(x, tag=v.tag))]
        if op == 'zext':
            return [(s, V(u)) for s, u in self.unsigned(st, x, fw)]
        if op == 'sext':
            if isconst(x):
                return [(st, C(self.tosigned(x[0], fw)))]
            h = 1 << (fw - 1)
            if self.fits_hi(st, x, fw - 1):
                return [(st, V(x))]
            if st.entails(addc(x, -h)):
                return [(st, V(addc(x, -(1 << fw))))]
            o = st.copy()
            self.forks += 1
            st.add(addc(scale(x, -1), h - 1))
            o.add(addc(x, -h))
            return [(s, V(y)) for s, y in ((st, x), (o, addc(x, -(1 << fw)))) if not s.dead]
        if op == 'trunc':
            if isconst(x):
                return [(st, C(self.tosigned(x[0], tw) if x[0] < 0 else x[0] & ((1 << tw) - 1)))]
            if st.entails(addc(scale(x, -1), (1 << tw) - 1)) and st.entails(addc(x, 1 << (tw - 1))):
                return [(st, V(x))]
            return [(st, V(self.mod_(st, x, 1 << tw)))]
        return [(st, self.fresh_ty((op, i.line), i.ty))]

    def do_icmp(self, st, i, a, b):
        """list of (state, V(pred))"""
        pr, w = i.d['pred'], i.d['w']
        if a.pred is not None and b.pred is not None:
            x = ('or', ('and', a.pred, b.pred), ('and', p_not(a.pred), p_not(b.pred)))
            return [(st, V(pred=x if pr == 'eq' else p_not(x)))]
        if a.lin is None or b.lin is None:
            if a.fn and b.fn and pr in ('eq', 'ne'):
                return [(st, V(pred=('T',) if (a.fn == b.fn) == (pr == 'eq') else ('F',)))]
            return [(st, self.fresh_ty(('cmp', i.line), 'i1'))]
        x, y = a.lin, b.lin
        isptr = ATOMS[x[1][0][0]].kind in ('ptr', 'alloca', 'heap') if x[1] else False
        isptr = isptr or (ATOMS[y[1][0][0]].kind in ('ptr', 'alloca', 'heap') if y[1] else False)
        isptr = isptr or self.base_atom(st, x) is not None or self.base_atom(st, y) is not None
        if pr in ('eq', 'ne'):
            # normalise negative constants against non-negative values and vice versa
            if isconst(y) and y[0] < 0 and st.entails(x):
                y = addc(y, 1 << w)
            elif isconst(x) and x[0] < 0 and st.entails(y):
                x = addc(x, 1 << w)
            elif isconst(y) and y[0] >= (1 << (w - 1)) and not isconst(x) and st.entails(addc(scale(x, -1), (1 << (w - 1)) - 1)):
                y = addc(y, -(1 << w))
            return [(st, V(pred=(pr, sub(x, y))))]
        if pr[0] == 's' or isptr:
            alts = [(st, x, y)]
            if pr[0] == 's' and w < 64:
                # signed view of values that may exceed the signed range
                alts = []
                for s, p in self.signed(st, x, w):
                    for s2, q in self.signed(s, y, w):
                        alts.append((s2, p, q))
        else:
            alts = []
            for s, u in self.unsigned(st, x, w):
                for s2, v in self.unsigned(s, y, w):
                    alts.append((s2, u, v))
        op = pr[1:]
        f = {'lt': lambda p, q: p_gt(q, p), 'le': lambda p, q: p_ge(q, p), 'gt': p_gt, 'ge': p_ge}[op]
        return [(s, V(pred=f(p, q))) for s, p, q in alts]

    def signed(self, st, x, w):
        if isconst(x):
            return [(st, const(self.tosigned(x[0], w)))]
        h = 1 << (w - 1)
        if self.fits_hi(st, x, w - 1):
            return [(st, x)]
        if st.entails(addc(x, -h)):
            return [(st, addc(x, -(1 << w)))]
        o = st.copy()
        self.forks += 1
        st.add(addc(scale(x, -1), h - 1))
        o.add(addc(x, -h))
        return [(s, y) for s, y in ((st, x), (o, addc(x, -(1 << w)))) if not s.dead]

    # ---- instruction execution ----
    def tysize(self, ty):
        if ty == 'ptr':
            return 8
        if ty == 'double':
            return 8
        if ty == 'float':
            return 4
        if ty[0] == 'i':
            return max(1, int(ty[1:]) // 8)
        if ty[0] == '%':
            s = self.mod.structs.get(ty[1:])
            if s:
                return s['size']
        return 8

    def exec_inst(self, st, i):
        """non-terminator, non-phi: list of states"""
        self.steps += 1
        if self.steps > self.maxsteps:
            raise AnalysisError('analysis step budget exhausted in %s' % i.fn.name)
        op = i.op
        R = st.frames[-1]
        if op == 'getelementptr':
            b = self.val(st, i.ops[0], i)
            if b.lin is None:
                R[i.id] = self.fresh_ptr(('gep', i.line))
                return [st]
            x = addc(b.lin, i.d['coff'])
            for o, k in i.d['voff']:
                v = self.val(st, o, i)
                x = add(x, self.lin(st, v), k)
            t = gep_tag(self.mod, i)
            R[i.id] = V(x, tag=t or b.tag)
            return [st]
        if op == 'load':
            p = self.val(st, i.ops[0], i)
            if p.lin is None:
                R[i.id] = self.fresh_ty(('ld', i.line), i.ty)
                return [st]
            n = self.tysize(i.ty)
            self.pol.load(self, st, i, p.lin, n, p.tag)
            if st.dead:
                return []
            v = self.load_mem(st, i, p.lin, n, i.ty, p.tag)
            if v.tag is not None and v.tag[0] != 'global':
                v = V(v.lin, v.pred, v.fn, v.agg)
            R[i.id] = v
            return [st]
        if op == 'store':
            v, p = self.val(st, i.ops[0], i), self.val(st, i.ops[1], i)
            if p.lin is None:
                return [st]
            n = self.tysize(i.d['sty'])
            self.pol.store(self, st, i, p.lin, n, p.tag, v)
            if st.dead:
                return []
            self.store_mem(st, i, p.lin, n, v, p.tag)
            return [st]
        if op == 'icmp':
            return self.multi(self.do_icmp(st, i, self.val(st, i.ops[0], i), self.val(st, i.ops[1], i)), i)
        if self.coarse is not None and op in self.COARSE_OPS and self.coarse(i.fn.name):
            vs = [self.val(st, o, i) for o in i.ops]
            if not all(v.lin is not None and isconst(v.lin) or v.pred is not None and st.decide(v.pred) is not None for v in vs):
                R[i.id] = self.fresh_ty(('coarse', i.fn.name, i.line), i.ty)
                return [st]
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return self.multi(self.do_cast(st, i, self.val(st, i.ops[0], i)), i)
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
            rs = self.do_binop(st, i, self.val(st, i.ops[0], i), self.val(st, i.ops[1], i))
            if op in ('shl', 'lshr', 'and', 'mul'):
                for s, v in rs:
                    if v.lin is not None and len(v.lin[1]) == 1 and ATOMS[v.lin[1][0][0]].parts and not s.dead:
                        self.tighten(s, v.lin)
            return self.multi(rs, i)
        if op in ('XX',):
            return self.multi(self.do_binop(st, i, self.val(st, i.ops[0], i), self.val(st, i.ops[1], i)), i)
        if op == 'select':
            c = self.val(st, i.ops[0], i)
            a, b = self.val(st, i.ops[1], i), self.val(st, i.ops[2], i)
            p = c.pred or ('ne', self.lin(st, c))
            if i.ty == 'i1' and a.pred is not None and b.pred is not None:
                R[i.id] = V(pred=('or', ('and', p, a.pred), ('and', p_not(p), b.pred)))
                return [st]
            o = st.copy()
            r = []
            for s in st.assume(p):
                s.frames[-1][i.id] = self.val(s, i.ops[1], i)
                r.append(s)
            for s in o.assume(p_not(p)):
                s.frames[-1][i.id] = self.val(s, i.ops[2], i)
                r.append(s)
            return r
        if op == 'alloca':
            a = new_atom(('alloca', i.fn.name, i.id, self.depth), 4096, (1 << 63) - (1 << 40), 'alloca')
            v = V(var(a))
            R[i.id] = v
            self.set_region(st, v, const(i.d['bytes'] * (i.ops[0][1] if i.ops[0][0] == 'c' else 1)), 'alloca')
            return [st]
        if op == 'call':
            return self.exec_call(st, i)
        if op == 'atomicrmw':
            p, v = self.val(st, i.ops[0], i), self.val(st, i.ops[1], i)
            n = self.tysize(i.ty)
            if p.lin is not None:
                self.pol.load(self, st, i, p.lin, n, p.tag)
                self.pol.store(self, st, i, p.lin, n, p.tag, v)
                st.mem.pop(p.lin, None)
                st.mem = {k: e for k, e in st.mem.items() if e[2] != p.tag or p.tag is None}
            R[i.id] = self.fresh(('rmw', i.line), self.bits(i.ty))
            return [st]
        if op == 'extractvalue':
            v = self.val(st, i.ops[0], i)
            k = i.d.get('idx', 0)
            R[i.id] = self.fresh_ty(('ev', i.line), i.ty)
            if v.agg and isinstance(k, int) and k < len(v.agg) and v.agg[k] is not None:
                R[i.id] = v.agg[k]
            return [st]
        if op == 'insertvalue':
            v, e = self.val(st, i.ops[0], i), self.val(st, i.ops[1], i)
            k = i.d.get('idx', 0)
            ag = list(v.agg or ())
            while len(ag) <= k:
                ag.append(None)
            ag[k] = e
            R[i.id] = V(agg=tuple(ag))
            return [st]
        if op == 'fence':
            return [st]
        R[i.id] = self.fresh_ty((op, i.line), i.ty)
        return [st]

    def multi(self, rs, i):
        out = []
        for s, v in rs:
            if s.dead:
                continue
            s.frames[-1][i.id] = v
            out.append(s)
        return out

    # ---- calls ----
    def exec_call(self, st, i):
        args = [self.val(st, o, i) for o in i.ops]
        c = i.d['callee']
        name = c[1] if c[0] == 'f' else None
        if name is None:
            fv = self.val(st, c, i) if c[0] in ('i', 'a') else None
            if fv is not None and fv.fn:
                name = fv.fn
        self.calls_seen += 1
        r = self.pol.call(self, st, i, name, args)
        if r is None:
            r = self.call_default(st, i, name, args)
        out = []
        for s, v in r:
            if s.dead:
                continue
            if i.ty != 'void' and v is None:
                v = self.fresh_ty(('ret', name, i.line), i.ty)
            if v is not None:
                s.frames[-1][i.id] = v
            out.append(s)
        return out

    def call_default(self, st, i, name, args):
        if name is None:
            self.havoc_call(st, i, None, args)
            return [(st, None)]
        f = self.mod.fns.get(name)
        if f is None or f.decl:
            return self.external(st, i, name, args)
        if self.pol.inline(self, name) and self.stack.count(name) < getattr(self.pol, "recursion", 1) and len(self.stack) < self.pol.max_depth:
            return self.run(f, args, st)
        self.havoc_call(st, i, name, args)
        return [(st, None)]

    def external(self, st, i, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            d, s, n = args[0], args[1], args[2]
            if d.lin is not None and n.lin is not None:
                self.pol.load(self, st, i, s.lin, n.lin, s.tag)
                self.pol.store(self, st, i, d.lin, n.lin, d.tag, None)
                self.copy_mem(st, i, d, s, n.lin)
            return [(st, d)]
        if name.startswith('llvm.memset') or name == 'memset':
            d, c, n = args[0], args[1], args[2]
            if d.lin is not None and n.lin is not None:
                self.pol.store(self, st, i, d.lin, n.lin, d.tag, None)
                ents = [(k, e) for k, e in st.mem.items() if isconst(sub(k, d.lin)) and isconst(n.lin) and 0 <= sub(k, d.lin)[0] and sub(k, d.lin)[0] + e[1] <= n.lin[0]]
                self.havoc_range(st, d.lin, n.lin)
                if c.lin == L.ZERO and isconst(n.lin):
                    for k, e in ents:
                        st.mem[k] = (VZ, e[1], e[2])
                    b = self.base_atom(st, d.lin)
                    r = st.reg.get(b)
                    if b is not None and self.same_base_const(d.lin, b) and d.lin[0] == 0 and r and r[0] == n.lin:
                        st.zero = st.zero | {b}
            return [(st, d)]
        if name in ('malloc', 'calloc', 'realloc'):
            if name == 'malloc':
                sz = args[0].lin
            elif name == 'calloc':
                sz = scale(args[0].lin, args[1].lin[0]) if isconst(args[1].lin) else scale(args[1].lin, args[0].lin[0]) if isconst(args[0].lin) else var(op_atom('mul', tuple(sorted((args[0].lin, args[1].lin))) + (64,), 0, None))
            else:
                sz = args[1].lin
            o = st.copy()
            a = new_atom(('heap', i.fn.name, i.line), 4096, (1 << 63) - (1 << 40), 'heap')
            v = V(var(a))
            self.set_region(st, v, sz, 'heap')
            if name == 'calloc':
                st.zero = st.zero | {a}
            o.note('%s: %s returns NULL' % (i.where(), name))
            return [(st, v), (o, VZ)]
        if name == 'free':
            return [(st, None)]
        if name.startswith('llvm.ctlz'):
            w = self.bits(i.ty)
            v = self.fresh(('ctlz', i.line), 6 if w == 32 else 7)
            st.add(addc(scale(v.lin, -1), w))
            x = args[0].lin
            if x is not None and st.entails(addc(x, -1)):
                st.add(addc(scale(v.lin, -1), w - 1))
            return [(st, v)]
        if name.startswith(('llvm.cttz',)):
            v = self.fresh(('cttz', i.line), 7)
            st.add(addc(scale(v.lin, -1), self.bits(i.ty)))
            return [(st, v)]
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch')):
            return [(st, None)]
        if name.startswith('llvm.umul.with.overflow') or name.startswith('llvm.'):
            return [(st, None)]
        # other externals: only their pointer arguments' targets change
        for a in args:
            if a.lin is not None and a.lin[1] and self.base_atom(st, a.lin) is not None and a.tag is None:
                b = self.base_atom(st, a.lin)
                if ATOMS[b].kind == 'alloca':
                    self.havoc_range(st, a.lin, None)
        return [(st, None)]

    def copy_mem(self, st, i, d, s, n):
        if isconst(n):
            ents = []
            for k, e in st.mem.items():
                o = sub(k, s.lin)
                if isconst(o) and 0 <= o[0] and o[0] + e[1] <= n[0]:
                    ents.append((o[0], e))
            for x, kk in s.lin[1]:
                if kk == 1 and isinstance(ATOMS[x].desc, tuple) and ATOMS[x].desc[0] == 'global':
                    G = self.mod.globals.get(ATOMS[x].desc[1])
                    go_ = sub(s.lin, var(x))
                    if G and G['const'] and 'init' in G and isconst(go_):
                        flat = self.flat_global(ATOMS[x].desc[1])
                        for it in (flat or {'items': ()})['items']:
                            if isinstance(it[2], int) and 0 <= it[0] - go_[0] and it[0] - go_[0] + it[1] <= n[0]:
                                ents.append((it[0] - go_[0], (C(it[2]), it[1], it[3])))
            self.havoc_range(st, d.lin, n)
            for o, e in ents:
                st.mem[addc(d.lin, o)] = e
        else:
            self.havoc_range(st, d.lin, n)

    # ---- functions ----
    def run(self, f, args, st):
        """analyse a call: list of (state, V)"""
        self.fns_seen.add(f.name)
        fr = {}
        for k, a in enumerate(args):
            if k < len(f.args) and f.args[k].get('byval') and a.lin is not None:
                di = f.args[k].get('di')
                sz = (self.mod.structs.get(di.get('name')) or {}).get('size') if di else None
                c = new_atom(('byval', f.name, k), 4096, (1 << 63) - (1 << 40), 'alloca')
                cv = V(var(c))
                if sz:
                    self.set_region(st, cv, const(sz), 'alloca')
                    self.copy_mem(st, None, cv, a, const(sz))
                a = cv
            fr[('a', k)] = a
        st.frames = st.frames + (fr,)
        self.stack.append(f.name)
        self.depth += 1
        self.pol.enter(self, st, f, args)
        try:
            rets = self.run_region(f, None, 0, [(st, None)], None)
        finally:
            self.stack.pop()
            self.depth -= 1
        out = []
        for s, v in rets['ret']:
            # the caller's frame is shared between the returned states: each gets its own copy
            s.frames = s.frames[:-2] + (dict(s.frames[-2]),)
            # drop the callee's locals
            x = self.pol.ret(self, s, f, v)
            if s.dead:
                continue
            if x is not None:
                v = x
            out.append((s, v))
        return self.merge_returns(f, out)

    def merge_returns(self, f, out):
        cap = self.pol.cap_for(f)
        if len(out) <= cap:
            return out
        groups = {}
        for s, v in out:
            k = ((self.pol.key(s), self.pol.fkey(f, s)), v.lin if v is not None and v.lin is not None and isconst(v.lin) else ('v', self.pol.valsig(s, v)))
            groups.setdefault(k, []).append((s, v))
        if len(groups) > cap:
            groups = {}
            for s, v in out:
                groups.setdefault(((self.pol.key(s), self.pol.fkey(f, s)), self.pol.valsig(s, v)), []).append((s, v))
        res = []
        for g in groups.values():
            if len(g) == 1:
                res += g
                continue
            for s, v in g:
                s.frames[-1]['__ret'] = v if v is not None else VZ
            j = self.join([s for s, _ in g], None)
            v = j.frames[-1].pop('__ret', None)
            for s, _ in g:
                s.frames[-1].pop('__ret', None)
            res.append((j, v))
        return res

    # ---- bounds of nonlinear terms by enumerating small parameters ----
    def ival(self, st, x, env):
        """interval of Lin x under env (atom -> value)"""
        lo = hi = x[0]
        for a, c in x[1]:
            l, h = self.aval(st, a, env)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    def aval(self, st, a, env):
        if a in env:
            return env[a], env[a]
        A = ATOMS[a]
        if not A.parts:
            return A.lo, A.hi
        op = A.desc[0]
        iv = [self.ival(st, p, env) if isinstance(p, tuple) else (p, p) for p in A.parts]
        lo, hi = A.lo, A.hi

        def cap(h):
            return h if hi is None or (h is not None and h < hi) else hi

        def known(k):
            return k < len(iv) and None not in iv[k]
        try:
            if op == 'and' and len(iv) >= 2:
                # operands of an 'and' atom are non-negative by construction (unsigned())
                hs = [h for _, h in iv[:2] if h is not None and h >= 0]
                if not (known(0) and known(1)):
                    return (0, cap(min(hs))) if hs else (lo, hi)
                if iv[0][0] == iv[0][1] and iv[1][0] == iv[1][1]:
                    v = iv[0][0] & iv[1][0]
                    return v, v
                return 0, min(iv[0][1], iv[1][1])
            if op == 'shl' and known(0) and known(1) and iv[0][0] >= 0 and 0 <= iv[1][0] and iv[1][1] < 64:
                m = iv[0][1] << iv[1][1]
                if hi is None or m <= hi:
                    return iv[0][0] << iv[1][0], m
                return lo, hi
            if op == 'shlc' and known(0) and known(1) and 0 <= iv[1][0] and iv[1][1] < 64:
                return iv[0][0] << iv[1][0], iv[0][1] << iv[1][1]
            if op in ('lshrv', 'ashrv') and known(0) and known(1) and iv[0][0] >= 0 and iv[1][0] >= 0:
                return iv[0][0] >> min(iv[1][1], 80), iv[0][1] >> min(iv[1][0], 80)
            if op == 'div' and known(0):
                return iv[0][0] // A.parts[1], iv[0][1] // A.parts[1]
            if op == 'mul' and known(0) and known(1) and iv[0][0] >= 0 and iv[1][0] >= 0:
                m = iv[0][1] * iv[1][1]
                if hi is None or m <= hi:
                    return iv[0][0] * iv[1][0], m
            if op in ('or', 'xor') and known(0) and known(1) and iv[0][0] >= 0 and iv[1][0] >= 0:
                m = (1 << max(iv[0][1].bit_length(), iv[1][1].bit_length())) - 1
                return 0, cap(m)
            if op == 'mod' and known(0) and iv[0][0] >= 0 and iv[0][1] < A.parts[1]:
                return iv[0]
        except (TypeError, ValueError):
            pass
        return lo, hi

    def small_params(self, st, x):
        r = []
        for a in sorted(L.deep_atoms(x)):
            A = ATOMS[a]
            if A.parts or A.lo is None or A.lo < 0:
                continue
            hi = A.hi
            if hi is None or hi > 16:
                if hi is not None and hi <= 255:
                    v = var(a)
                    hi = next((h for h in (1, 2, 3, 4, 8, 15) if st.entails(addc(scale(v, -1), h))), None)
                else:
                    hi = None
            if hi is not None:
                r.append((a, A.lo, hi))
        return r[:3]

    def enum_bounds(self, st, x):
        ps = self.small_params(st, x)
        if not ps:
            return self.ival(st, x, {})
        lo = hi = None
        first = True
        idx = st.index()

        def go(k, env):
            nonlocal lo, hi, first
            if k == len(ps):
                # respect linear facts among the parameters
                for a in env:
                    for f in idx.get(a, ()):
                        if all(b in env for b, _ in f[1]) and f[0] + sum(c * env[b] for b, c in f[1]) < 0:
                            return
                l, h = self.ival(st, x, env)
                if first:
                    lo, hi, first = l, h, False
                else:
                    lo = None if lo is None or l is None else min(lo, l)
                    hi = None if hi is None or h is None else max(hi, h)
                return
            a, l, h = ps[k]
            for v in range(l, h + 1):
                env[a] = v
                go(k + 1, env)
            del env[a]
        go(0, {})
        return (None, None) if first else (lo, hi)

    def tighten(self, st, x):
        """record constant bounds of the nonlinear atoms of x that enumeration can show"""
        if not isconst(x) and any(ATOMS[a].parts and self.small_params(st, var(a)) for a, _ in x[1]):
            for a, _ in x[1]:
                if ATOMS[a].parts:
                    lo, hi = self.enum_bounds(st, var(a))
                    if hi is not None and (ATOMS[a].hi is None or hi < ATOMS[a].hi):
                        st.add(addc(var(a, -1), hi))
                    if lo is not None and (ATOMS[a].lo is None or lo > ATOMS[a].lo):
                        st.add(addc(var(a), -lo))

    # region execution ------------------------------------------------------
    def run_region(self, f, body, header, entry, loop):
        """Execute blocks of `body` (None: whole function) from `header`.
        entry: list of (state, pred block or None) whose phis at `header` are still to be evaluated,
        or already evaluated when pred is -1.
        Returns {'ret': [(state, V)], 'exit': [(state, from, to)], 'back': [(state, from)]}."""
        pend = {header: list(entry)}
        res = {'ret': [], 'exit': [], 'back': []}
        order = f.rpoi
        while pend:
            b = min(pend, key=lambda x: order[x])
            items = pend.pop(b)
            if b in f.loops and not (b == header and loop is not None):
                r = self.run_loop(f, b, items)
                res['ret'] += r['ret']
                for s, fr, to in r['exit']:
                    self.edge(f, body, header, loop, res, pend, s, fr, to)
                continue
            states = []
            for s, p in items:
                if p is not None and p != -1:
                    self.do_phis(f, s, b, p)
                states.append(s)
            if len(states) > 1:
                states = self.reduce(f, b, states)
            for s in states:
                self.run_block(f, b, s, body, header, loop, res, pend)
        return res

    def edge(self, f, body, header, loop, res, pend, s, fr, to):
        if s.dead:
            return
        if loop is not None and to == header:
            res['back'].append((s, fr))
        elif body is not None and to not in body:
            res['exit'].append((s, fr, to))
        else:
            pend.setdefault(to, []).append((s, fr))

    def run_block(self, f, b, st, body, header, loop, res, pend):
        work = [(st, 0)]
        insts = f.blocks[b]
        n = len(insts)
        while work:
            s, k = work.pop()
            while k < n:
                i = insts[k]
                op = i.op
                if op == 'phi':
                    k += 1
                    continue
                if op == 'br':
                    self.do_br(f, b, s, i, body, header, loop, res, pend)
                    break
                if op == 'ret':
                    v = self.val(s, i.ops[0], i) if i.ops else None
                    res['ret'].append((s, v))
                    break
                if op == 'switch':
                    self.do_switch(f, b, s, i, body, header, loop, res, pend)
                    break
                if op == 'unreachable':
                    break
                r = self.exec_inst(s, i)
                k += 1
                if not r:
                    break
                for o in r[1:]:
                    work.append((o, k))
                s = r[0]

    def do_phis(self, f, s, b, p):
        vals = []
        for i in f.blocks[b]:
            if i.op != 'phi':
                break
            for o, fb in i.ops:
                if fb == p:
                    vals.append((i.id, self.val(s, o, i)))
                    break
            else:
                raise AnalysisError('phi without incoming edge in %s' % f.name)
        R = s.frames[-1]
        for k, v in vals:
            R[k] = v

    def do_br(self, f, b, s, i, body, header, loop, res, pend):
        succ = i.d['succ']
        if len(succ) == 1 or succ[0] == succ[1]:
            self.edge(f, body, header, loop, res, pend, s, b, succ[0])
            return
        c = self.val(s, i.ops[0], i)
        p = c.pred or ('ne', self.lin(s, c))
        d = s.decide(p)
        if d is not None:
            t = s.assume(p if d else p_not(p))
            for x in t:
                self.pol.branch(self, x, i, d)
                self.edge(f, body, header, loop, res, pend, x, b, succ[0] if d else succ[1])
            return
        o = s.copy()
        for x in s.assume(p):
            x.note((i, True))
            self.pol.branch(self, x, i, True)
            self.edge(f, body, header, loop, res, pend, x, b, succ[0])
        for x in o.assume(p_not(p)):
            x.note((i, False))
            self.pol.branch(self, x, i, False)
            self.edge(f, body, header, loop, res, pend, x, b, succ[1])

    def do_switch(self, f, b, s, i, body, header, loop, res, pend):
        v = self.val(s, i.ops[0], i)
        x = self.lin(s, v)
        rest = s
        by = {}
        for c, t in i.d['cases']:
            by.setdefault(t, []).append(c)
        for t, cs in by.items():
            for c in cs:
                if c < 0 and not isconst(x) and rest.entails(x):
                    c += 1 << self.bits(f.insts[i.ops[0][1]].ty if i.ops[0][0] == 'i' else 'i32')
                q = ('eq', addc(x, -c))
                d = rest.decide(q)
                if d is False:
                    continue
                o = rest.copy()
                for y in o.assume(q):
                    y.note((i, c))
                    self.edge(f, body, header, loop, res, pend, y, b, t)
                r = rest.assume(p_not(q))
                if not r:
                    return
                rest = r[0]
        rest.note((i, 'default'))
        self.edge(f, body, header, loop, res, pend, rest, b, i.d['default'])

    # ---- liveness ----
    def live_in(self, f):
        r = self.live_cache.get(f.name)
        if r is not None:
            return r
        use, dfn = [], []
        nb = len(f.blocks)
        phiuse = [set() for _ in range(nb)]
        for b in range(nb):
            u, d = set(), set()
            for i in f.blocks[b]:
                if i.op == 'phi':
                    for o, fb in i.ops:
                        if o[0] == 'i':
                            phiuse[fb].add(o[1])
                    d.add(i.id)
                    continue
                ops = list(i.ops)
                if i.op == 'call':
                    ops.append(i.d['callee'])
                if i.op == 'getelementptr':
                    ops += [o for o, _ in i.d['voff']]
                for o in ops:
                    if o[0] == 'i' and o[1] not in d:
                        u.add(o[1])
                d.add(i.id)
            use.append(u)
            dfn.append(d)
        li = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in reversed(f.rpo):
                o = set(phiuse[b])
                for s in f.succ[b]:
                    o |= li[s]
                n = use[b] | (o - dfn[b])
                if n != li[b]:
                    li[b] = n
                    ch = True
        # values defined by phis of the block are live after the phis
        lp = []
        for b in range(nb):
            lo = set(phiuse[b])
            for s in f.succ[b]:
                lo |= li[s]
            ph = set(i.id for i in f.blocks[b] if i.op == 'phi')
            # used inside the block or live out
            usedin = set()
            for i in f.blocks[b]:
                if i.op != 'phi':
                    ops = list(i.ops) + ([i.d['callee']] if i.op == 'call' else []) + ([o for o, _ in i.d['voff']] if i.op == 'getelementptr' else [])
                    for o in ops:
                        if o[0] == 'i':
                            usedin.add(o[1])
            lp.append(li[b] | (ph & (usedin | lo)))
        # allocas stay
        al = set(i.id for bl in f.blocks for i in bl if i.op == 'alloca')
        lp = [x | al for x in lp]
        self.live_cache[f.name] = lp
        return lp

    def prune(self, f, b, s):
        live = self.live_in(f)[b]
        R = s.frames[-1]
        s.frames = s.frames[:-1] + ({k: v for k, v in R.items() if not isinstance(k, int) or k in live},)

    # ---- merging ----
    def reduce(self, f, b, states):
        states = [s for s in states if not s.dead]
        if len(states) <= 1:
            return states
        for s in states:
            self.prune(f, b, s)
        # exact duplicates (same slots, typestate): join their facts
        groups = {}
        for s in states:
            groups.setdefault(self.sig(s), []).append(s)
        out = []
        for g in groups.values():
            if len(g) > 1:
                g = self.merge_same(g)
            out += g
        cap = self.pol.cap_for(f)
        if len(out) <= cap:
            return out
        groups = {}
        for s in out:
            groups.setdefault(((self.pol.key(s), self.pol.fkey(f, s)), self.const_sig(f, b, s)), []).append(s)
        if len(groups) > cap and self.pol.coarse_sig:
            groups = {}
            for s in out:
                groups.setdefault(((self.pol.key(s), self.pol.fkey(f, s)), self.const_sig(f, b, s, True)), []).append(s)
        if len(groups) > cap:
            groups = {}
            for s in out:
                groups.setdefault((self.pol.key(s), self.pol.fkey(f, s)), []).append(s)
        res = []
        for g in groups.values():
            res.append(g[0] if len(g) == 1 else self.join(g, f))
        return res

    def const_sig(self, f, b, s, coarse=False):
        r = []
        for i in f.blocks[b]:
            if i.op != 'phi':
                break
            v = s.frames[-1].get(i.id)
            if not coarse and v is not None and v.lin is not None and isconst(v.lin):
                r.append((i.id, v.lin[0]))
            elif v is not None and v.fn:
                r.append((i.id, v.fn))
            else:
                x = self.pol.valsig(s, v)
                if x != 'x':
                    r.append((i.id, 'v', x))
        return tuple(r)

    def sig(self, s):
        R = tuple(sorted(((str(k), v.lin, v.pred, v.fn) for k, v in s.frames[-1].items()), key=repr))
        return (R, self.pol.key(s), frozenset((k, e[0].lin, e[0].pred) for k, e in s.mem.items()))

    def merge_same(self, g):
        """states equal in every slot: merge when one's facts are implied by the other's, else keep the weaker"""
        res = []
        for s in g:
            for r in res:
                if set(s.facts.items()) == set(r.facts.items()):
                    break
            else:
                res.append(s)
        if len(res) <= 3:
            return res
        return [self.join(res, None)]

    def slots(self, s):
        for fi, fr in enumerate(s.frames):
            for k, v in fr.items():
                if isinstance(v, V):
                    yield ('r', fi, k), v
        for a, (v, n, t) in s.mem.items():
            yield ('m', a), v
        for k, v in s.ts.items():
            if isinstance(v, V):
                yield ('t', k), v

    def live_atoms(self, s):
        live = set()

        def vl(v):
            if v is None:
                return
            if v.lin is not None:
                L.deep_atoms(v.lin, live)
            if v.pred is not None:
                for x in pred_lins(v.pred):
                    L.deep_atoms(x, live)
            for z in v.agg or ():
                vl(z)
        for _, v in self.slots(s):
            vl(v)
        for a in s.mem:
            L.deep_atoms(a, live)
        for a in list(live):
            r = s.reg.get(a)
            if r:
                L.deep_atoms(r[0], live)
        return live

    def gc(self, s, keep=()):
        """project facts on dead atoms out (bounded Fourier-Motzkin), drop the rest"""
        live = self.live_atoms(s)
        live |= set(keep)
        s.reg = {k: r for k, r in s.reg.items() if k in live}
        dead = {}
        for t in s.facts:
            for a, _ in t:
                if a not in live:
                    dead[a] = dead.get(a, 0) + 1
        if not dead:
            return
        facts = set((c, t) for t, c in s.facts.items())
        for a in sorted(dead, key=lambda a: dead[a]):
            A = ATOMS[a]
            P, N, rest = [], [], []
            ext = L.ranges([a])
            for f in list(facts) + ext:
                k = dict(f[1]).get(a, 0)
                if k > 0:
                    P.append((f, k))
                elif k < 0:
                    N.append((f, k))
                elif f in facts:
                    rest.append(f)
            facts = set(rest)
            if len(P) * len(N) <= 40:
                for f, k in P:
                    for g, m in N:
                        h = L.normfact(add(scale(f, -m), g, k))
                        if h[1] and len(h[1]) <= 6:
                            facts.add(h)
        s.facts, s.idx = {}, None
        for c, t in facts:
            o = s.facts.get(t)
            if not L.entails_cheap((c, t)) and (o is None or c < o):
                s.facts[t] = c
        s.ne = frozenset(f for f in s.ne if all(a in live for a, _ in f[1]))

    def join(self, states, f):
        """weak join of several states into one"""
        self.join_count += 1
        states = [s for s in states if not s.dead]
        if len(states) == 1:
            return states[0]
        keep = set()
        for s in states:
            keep |= self.live_atoms(s)
        for s in states:
            self.gc(s, keep)
        j = states[0].copy()
        sl = [dict(self.slots(s)) for s in states]
        jm = {}          # key tuple of lins -> atom
        jl = []          # (atom, [lins])

        def jv(vs):
            v0 = vs[0]
            if all(v0.same(v) for v in vs[1:]):
                return v0
            if any(v.lin is None for v in vs):
                if all(v.pred is not None for v in vs):
                    # boolean with different definitions
                    ds = [s.decide(v.pred) for s, v in zip(states, vs)]
                    if all(d is True for d in ds):
                        return V(pred=('T',))
                    if all(d is False for d in ds):
                        return V(pred=('F',))
                    return V(pred=('eq', addc(var(new_atom(('jb',), 0, 1)), -1)))
                return None
            tried = []
            for v in vs:
                if v.lin not in tried and v.lin[1]:
                    tried.append(v.lin)
                    if all(w.lin == v.lin or s.eq(w.lin, v.lin) for s, w in zip(states, vs)):
                        return v
            c = v0.lin[0]
            key = tuple(addc(v.lin, -c) for v in vs)
            # pointers into one object stay offsets from their common base
            bs = set(self.base_atom(s, k) for s, k in zip(states, key))
            jb = None
            if len(bs) == 1 and None not in bs:
                jb = bs.pop()
                key = tuple(sub(k, var(jb)) for k in key)
                c0 = key[0][0]
                key = tuple(addc(k, -c0) for k in key)
                c += c0
            a = jm.get(key)
            tag = v0.tag if all(v.tag == v0.tag for v in vs) else None
            fn = v0.fn if all(v.fn == v0.fn for v in vs) else None
            if a is None:
                los = [L.ilow(k) for k in key]
                his = [L.ihigh(k) for k in key]
                lo = None if any(x is None for x in los) else min(los)
                hi = None if any(x is None for x in his) else max(his)
                kinds = set(ATOMS[self.base_atom(s, k)].kind if self.base_atom(s, k) is not None else 'int' for s, k in zip(states, key))
                a = new_atom(('j', self.join_count), lo, hi, 'ptr' if jb is None and (kinds & {'ptr', 'heap', 'alloca'}) else 'int')
                jm[key] = a
                jl.append((a, key))
            r = addc(var(a), c)
            if jb is not None:
                r = add(r, var(jb))
            return V(r, None, fn, None, tag)

        # registers
        frs = []
        for fi in range(len(j.frames)):
            d = {}
            base = states[0].frames[fi]
            same = all(s.frames[fi] is base for s in states[1:])
            if same:
                frs.append(base if fi < len(j.frames) - 1 else dict(base))
                continue
            for k, v in base.items():
                if not isinstance(v, V):
                    d[k] = v
                    continue
                vs = [v] + [s.frames[fi].get(k) for s in states[1:]]
                if any(x is None for x in vs):
                    continue
                n = jv(vs)
                if n is not None:
                    d[k] = n
            frs.append(d)
        mem = {}
        for a, (v, n, t) in states[0].mem.items():
            vs = [v]
            ok = True
            for s in states[1:]:
                e = s.mem.get(a)
                if e is None or e[1] != n:
                    ok = False
                    break
                vs.append(e[0])
            if ok:
                x = jv(vs)
                if x is not None:
                    mem[a] = (x, n, t)
        ts = {}
        for k, v in states[0].ts.items():
            if not isinstance(v, V):
                ts[k] = v if all(s.ts.get(k) == v for s in states[1:]) else states[0].ts[k]
            else:
                vs = [s.ts.get(k) for s in states]
                if all(isinstance(x, V) for x in vs):
                    x = jv(vs)
                    if x is not None:
                        ts[k] = x
        # regions
        reg = dict(states[0].reg)
        for k in list(reg):
            for s in states[1:]:
                r = s.reg.get(k)
                if r is None or r != reg[k]:
                    # a base that is dead in the other state cannot be reached there
                    if r is not None:
                        del reg[k]
                        break
        for s in states[1:]:
            for k, r in s.reg.items():
                if k not in reg and all(o.reg.get(k) in (None, r) for o in states):
                    reg[k] = r
        j.frames, j.mem, j.ts, j.reg = tuple(frs), mem, ts, reg
        for a, key in jl:
            # joined pointers keep a region only if it is the same one
            pass
        z = states[0].zero
        for s in states[1:]:
            z = z & s.zero
        j.zero = z
        ne = states[0].ne
        for s in states[1:]:
            ne = frozenset(x for x in ne if x in s.ne or s.decide(('ne', x)) is True)
        j.ne = ne
        # facts
        j.facts, j.idx = {}, None
        cands = set()
        for t, c in states[0].facts.items():
            m = c
            for s in states[1:]:
                o = s.facts.get(t)
                if o is None:
                    m = None
                    break
                m = max(m, o)
            if m is not None:
                j.facts[t] = m
        for s in states:
            for t, c in s.facts.items():
                if t not in j.facts:
                    cands.add((c, t))
        jmap = [dict((a, key[k]) for a, key in jl) for k in range(len(states))]
        cands |= self.join_candidates(states, jl)
        self.filter_into(j, cands, states, jmap)
        for s in states:
            if s.old:
                pass
        j.trail = states[0].trail
        return j

    def join_candidates(self, states, jl):
        cands = set()
        for a, key in jl:
            J = var(a)
            for k, s in enumerate(states):
                v = key[k]
                cands |= self.rewrite_facts(s, v, J)
                if v[1] or True:
                    cands.add(sub(J, v))
                    cands.add(sub(v, J))
            for b in self.pol.join_bounds:
                cands |= {addc(sub(b, J), -c) for c in (-5, -4, -2, -1, 0, 1, 2, 4, 5)}
            # all constants differences to a common lin
            for k in range(len(states)):
                ds = [sub(key[m], key[k]) for m in range(len(states))]
                if all(isconst(d) for d in ds):
                    mn, mx = min(d[0] for d in ds), max(d[0] for d in ds)
                    cands.add(addc(sub(J, key[k]), -mn))
                    cands.add(addc(sub(key[k], J), mx))
                    break
        n = min(len(jl), 14)
        for x in range(n):
            for y in range(x + 1, n):
                a, ka = jl[x]
                b, kb = jl[y]
                for sg in (1, -1):
                    ds = [add(p, q, sg) for p, q in zip(ka, kb)]
                    J = add(var(a), var(b), sg)
                    if all(d == ds[0] for d in ds):
                        cands.add(sub(J, ds[0]))
                        cands.add(sub(ds[0], J))
                    elif all(isconst(d) for d in ds):
                        cands.add(addc(J, -min(d[0] for d in ds)))
                        cands.add(addc(scale(J, -1), max(d[0] for d in ds)))
                    else:
                        d0 = ds[0]
                        rel = [sub(d, d0) for d in ds]
                        if all(isconst(r) for r in rel):
                            cands.add(addc(sub(J, d0), -min(r[0] for r in rel)))
                            cands.add(addc(sub(d0, J), max(r[0] for r in rel)))
        return cands

    def rewrite_facts(self, s, v, J):
        """facts of s about the atoms of v restated in terms of J (v == J in s)"""
        out = set()
        if not v[1]:
            return out
        ix = s.index()
        for a, c in v[1]:
            if abs(c) > 64:
                continue
            # |c|*a = sgn(c)*(J - (v - c*a))
            rest = sub(v, var(a, c))
            m = abs(c)
            e = scale(sub(J, rest), 1 if c > 0 else -1)
            fs = ix.get(a, ())
            if len(fs) > 30:
                fs = sorted(fs, key=lambda f: (len(f[1]), abs(f[0])))[:30]
            for f in list(fs) + L.ranges([a]):
                k = dict(f[1]).get(a, 0)
                g = add(scale(sub(f, var(a, k)), m), e, k)
                g = L.normfact(g)
                if g[1] and len(g[1]) <= 4 and (abs(g[0]) < (1 << 34) or len(g[1]) == 1 and abs(abs(g[0]) - (1 << 64)) < 4096):     # (error codes)
                    out.add(g)
        return out

    def filter_into(self, j, cands, states, jmap):
        ok = []
        memos = [dict() for _ in states]
        for c in sorted(cands, key=lambda f: (len(f[1]), f[0], f[1])):
            if abs(c[0]) >= (1 << 41) and abs(abs(c[0]) - (1 << 64)) >= 4096 or j.entails(c):
                continue
            good = True
            for k, s in enumerate(states):
                g = L.subst(c, jmap[k], memos[k]) if jmap[k] else c
                if not s.entails(g):
                    good = False
                    break
            if good:
                j.add(c)
        return j

    # ---- loops ----
    def run_loop(self, f, h, items):
        r = self.pol.cut(self, f, h, items)
        if r is not None:
            return r
        body = f.loops[h]
        res = {'ret': [], 'exit': []}
        states = []
        for s, p in items:
            if p is not None and p != -1:
                self.do_phis(f, s, h, p)
            states.append(s)
        states = self.reduce(f, h, states)
        groups = {}
        for s in states:
            groups.setdefault((self.pol.key(s), self.const_sig(f, h, s), self.pol.loop_key(self, f, s)), []).append(s)
        if len(groups) > max(4, self.pol.cap_for(f) // 2):
            groups = {}
            for s in states:
                groups.setdefault(self.pol.key(s), []).append(s)
        for k, g in groups.items():
            s = g[0] if len(g) == 1 else self.join(g, f)
            r = self.loop_one(f, h, body, s)
            res['ret'] += r['ret']
            res['exit'] += r['exit']
        return res

    def unroll(self, f, h, body, s):
        """exact unrolling while each iteration is decided; None if not applicable"""
        save = self.snapshot()
        cur = [s.copy()]
        ret, ex = [], []
        for it in range(70):
            r = self.run_region(f, body, h, [(x, -1) for x in cur], h)
            ret += r['ret']
            ex += r['exit']
            if not r['back']:
                return {'ret': ret, 'exit': ex}
            if (r['exit'] or r['ret']) and not self.pol_unroll_mixed(f, h, it, r):
                self.restore(save)
                return None
            cur = []
            for x, p in r['back']:
                self.do_phis(f, x, h, p)
                cur.append(x)
            cur = self.reduce(f, h, cur)
            if len(cur) > 8:
                cur = [self.join(cur, f)]
        self.restore(save)
        return None

    def pol_unroll_mixed(self, f, h, it, r):
        g = getattr(self.pol, 'unroll_mixed', None)
        return g(self, f, h, it, r) if g else False

    def snapshot(self):
        return {k: (o['n'], o['fail']) for k, o in self.obl.items()} if self.rec > 0 else None

    def restore(self, snap):
        if snap is None:
            return
        for k in list(self.obl):
            if k not in snap:
                del self.obl[k]
            else:
                self.obl[k]['n'], self.obl[k]['fail'] = snap[k]

    def loop_one(self, f, h, body, entry):
        self.prune(f, h, entry)
        r = self.unroll(f, h, body, entry)
        if r is not None:
            return r
        self.gc(entry)
        phis = [i for i in f.blocks[h] if i.op == 'phi']
        mark = len(ATOMS)
        slots = [('r', len(entry.frames) - 1, i.id) for i in phis if i.id in entry.frames[-1]]
        self.rec -= 100
        try:
            # phase 0: discover modified memory slots and candidate facts
            cand_back = set()
            key0 = self.pol.key(entry)
            extra_entries = []
            for rnd in range(8):
                H, J = self.havoc_slots(entry, slots, f, h)
                backs = self.back_states(f, h, body, H.copy(), self.live_atoms(H))
                new = self.changed(entry, H, J, slots, backs)
                if new:
                    slots += new
                    continue
                break
            # phase 1: candidates
            H0, J = H, J
            ent = {s: self.slot_val(entry, s) for s in slots}
            jent = {}
            for s in slots:
                v = ent.get(s)
                if v is not None and v.lin is not None and s in J:
                    jent[J[s]] = J.rel(s, v.lin)
            cands = self.entry_candidates(entry, J, ent)
            for bs in backs:
                cands |= self.back_candidates(bs, J, slots, mark, entry)
            self.loop_entry = entry
            cands |= set(self.pol.hints(self, f, h, {s: (J.get(s), ent.get(s)) for s in slots}))
            memo = {}
            keep = []
            for c in sorted(cands, key=lambda f_: (len(f_[1]), f_)):
                g = L.subst(c, jent, memo)
                if entry.entails(g):
                    keep.append(c)
            # phase 2: Houdini
            for rnd in range(12):
                H = H0.copy()
                for c in keep:
                    H.add(c)
                backs = self.back_states(f, h, body, H.copy(), self.live_atoms(H))
                bad = set()
                more = self.changed(entry, H, J, slots, backs)
                if more:
                    # a slot changed only under the strengthened header: start over with it
                    slots += more
                    self.rec += 100
                    try:
                        return self.loop_again(f, h, body, entry, slots)
                    finally:
                        self.rec -= 100
                for bs in backs:
                    m = {}
                    for s in slots:
                        if s in J:
                            v = self.slot_val(bs, s)
                            if v is not None and v.lin is not None:
                                m[J[s]] = J.rel(s, v.lin)
                            else:
                                m[J[s]] = var(new_atom(('lost',)))
                    memo = {}
                    for c in keep:
                        if c in bad:
                            continue
                        if not bs.entails(L.subst(c, m, memo)):
                            bad.add(c)
                            if self.debug:
                                self.debug(self, f, h, c, L.subst(c, m, memo), bs, rnd)
                if not bad:
                    break
                keep = [c for c in keep if c not in bad]
            else:
                keep = []
                H = H0.copy()
        finally:
            self.rec += 100
        # final, reporting pass from the inductive header
        H = H0.copy()
        for c in keep:
            H.add(c)
        self.last_inv = (f.name, h, [L.show(c) for c in keep])
        return self.final_pass(f, h, body, H, J, keep, slots)

    def final_pass(self, f, h, body, H, J, keep, slots):
        """typestate (non-V) may change around the loop: iterate until no new key appears"""
        res = {'ret': [], 'exit': []}
        seen = set()
        work = [H]
        while work:
            s = work.pop()
            k = self.pol.key(s)
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 24:
                raise AnalysisError('too many typestates in loop of %s' % f.name)
            r = self.run_region(f, body, h, [(s.copy(), -1)], h)
            res['ret'] += r['ret']
            res['exit'] += r['exit']
            for b, p in r['back']:
                kb = self.pol.key(b)
                if kb not in seen:
                    n = H.copy()
                    n.frames = H.frames[:-1] + (dict(H.frames[-1]),)
                    n.ts = {**{kk: v for kk, v in n.ts.items() if isinstance(v, V)}, **{kk: v for kk, v in b.ts.items() if not isinstance(v, V)}}
                    n.trail = b.trail
                    work.append(n)
        return res

    def loop_again(self, f, h, body, entry, slots):
        self._again = getattr(self, '_again', 0) + 1
        mem = [s for s in slots if s[0] == 'm']
        # forget the additional memory slots altogether (sound: unknown)
        e = entry.copy()
        for s in mem:
            pass
        k = (f.name, h)
        d = self.__dict__.setdefault('forced', {})
        d.setdefault(k, set()).update(mem)
        if self._again > 200:
            raise AnalysisError('loop analysis does not stabilise in %s' % f.name)
        for s in d[k]:
            e.mem.pop(s[1], None)
        return self.loop_one2(f, h, body, e)

    def loop_one2(self, f, h, body, e):
        return self.loop_one(f, h, body, e)

    def slot_val(self, s, k):
        if k[0] == 'r':
            return s.frames[k[1]].get(k[2])
        if k[0] == 'm':
            e = s.mem.get(k[1])
            return e[0] if e else None
        return s.ts.get(k[1])

    def havoc_slots(self, entry, slots, f, h):
        H = entry.copy()
        J = {}
        for s in slots:
            v = self.slot_val(entry, s)
            if s[0] == 'm' and v is None:
                continue
            if v is None:
                continue
            if v.lin is not None:
                kind = 'int'
                b = self.base_atom(entry, v.lin)
                ty, signed = 'i64', True
                if s[0] == 'r':
                    ins = f.insts.get(s[2]) if isinstance(s[2], int) else None
                    ty = ins.ty if ins is not None else 'i64'
                    di = f.vars.get(str(s[2])) if ins is not None else None
                    if di and di[1].get('k') == 'int':
                        signed = di[1].get('signed', True)
                elif s[0] == 'm':
                    n, t = entry.mem[s[1]][1], entry.mem[s[1]][2]
                    ty = 'i%d' % (n * 8)
                    ft = self.field_type(t) if t and t[0] != 'global' else None
                    if ft and ft.get('k') == 'ptr':
                        ty = 'ptr'
                    if ft and ft.get('k') == 'int':
                        signed = ft.get('signed', True)
                if ty == 'ptr' or b is not None:
                    a = new_atom(('loop', f.name, h, str(s[-1])[:30]), 0, (1 << 63) - (1 << 40), 'ptr')
                    if b is not None:
                        # pointer stays an offset from the same base: represent as base + offset
                        off = new_atom(('off', f.name, h, str(s[-1])[:30]), None, None)
                        J[s] = off
                        nv = V(add(var(b), var(off)), tag=v.tag)
                        self.put(H, s, nv)
                        continue
                else:
                    w = self.bits(ty)
                    # ideal integers: a 32-bit unsigned subtraction may be represented as negative
                    a = new_atom(('loop', f.name, h, str(s[-1])[:30]), None, None)
                J[s] = a
                self.put(H, s, V(var(a), tag=v.tag, fn=None))
            elif v.pred is not None:
                self.put(H, s, V(pred=('eq', addc(var(new_atom(('lb',), 0, 1)), -1))))
            else:
                self.put(H, s, V())
        return H, _JMap(J, entry, self)

    def put(self, st, s, v):
        if s[0] == 'r':
            fr = list(st.frames)
            fr[s[1]] = dict(fr[s[1]])
            fr[s[1]][s[2]] = v
            st.frames = tuple(fr)
        elif s[0] == 'm':
            e = st.mem.get(s[1])
            if e:
                st.mem[s[1]] = (v, e[1], e[2])
        else:
            st.ts[s[1]] = v

    def back_states(self, f, h, body, H, keep=()):
        out = []
        seen = set()
        work = [H]
        while work:
            s = work.pop()
            k = self.pol.key(s)
            if k in seen:
                continue
            seen.add(k)
            base = s.copy()
            r = self.run_region(f, body, h, [(s, -1)], h)
            for x, p in r['back']:
                self.do_phis(f, x, h, p)
                self.prune(f, h, x)
                self.gc(x, keep)
                out.append(x)
                kx = self.pol.key(x)
                if kx not in seen and len(seen) < 24:
                    n = base.copy()
                    n.ts = {**{kk: v for kk, v in n.ts.items() if isinstance(v, V)}, **{kk: v for kk, v in x.ts.items() if not isinstance(v, V)}}
                    work.append(n)
        return out

    def changed(self, entry, H, J, slots, backs):
        have = set(slots)
        new = []
        for a in entry.mem:
            s = ('m', a)
            if s in have:
                continue
            v = H.mem[a][0] if a in H.mem else None
            for b in backs:
                e = b.mem.get(a)
                if e is None or not (e[0].same(v) or (e[0].lin is not None and v is not None and v.lin is not None and b.eq(e[0].lin, v.lin))):
                    new.append(s)
                    break
        for k, v in entry.ts.items():
            s = ('t', k)
            if isinstance(v, V) and s not in have and any(not isinstance(b.ts.get(k), V) or not b.ts[k].same(v) for b in backs):
                new.append(s)
        return new

    def entry_candidates(self, entry, J, ent):
        cands = set()
        js = [(s, J[s], ent[s].lin) for s in ent if s in J and ent[s] is not None and ent[s].lin is not None]
        for s, a, e0 in js:
            e = J.rel(s, e0)
            cands.add(sub(var(a), e))
            cands.add(sub(e, var(a)))
            cands |= self.rewrite_facts(entry, e, var(a))
            lo, hi = L.ilow(e), L.ihigh(e)
            if lo is not None:
                cands.add(addc(var(a), -lo))
            if lo is None or lo > 0:
                cands.add(var(a))
            if hi is not None and hi < (1 << 63):
                cands.add(addc(scale(var(a), -1), hi))
            for hb in (32, 16, 8):
                cands.add(addc(scale(var(a), -1), (1 << hb) - 1))
        for x in range(len(js)):
            for y in range(x + 1, len(js)):
                sx, a, e1 = js[x]
                sy, b, e2 = js[y]
                e1, e2 = J.rel(sx, e1), J.rel(sy, e2)
                for k in (1, -1):
                    d = add(e1, e2, k)
                    Jd = add(var(a), var(b), k)
                    cands.add(sub(Jd, d))
                    cands.add(sub(d, Jd))
        return cands

    def back_candidates(self, bs, J, slots, mark, entry):
        """facts at a back edge restated over the slots' values"""
        out = set()
        opts = {}
        jset = set(J.values())
        for s in slots:
            if s not in J:
                continue
            v = self.slot_val(bs, s)
            if v is None or v.lin is None:
                continue
            e = J.rel(s, v.lin)
            for a, c in e[1]:
                if abs(c) == 1 and (a >= mark):
                    rest = sub(e, var(a, c))
                    if all(x < mark and x not in jset for x, _ in rest[1]):
                        opts.setdefault(a, []).append(scale(sub(var(J[s]), rest), c))
        for t, c in bs.facts.items():
            na = [a for a, _ in t if a >= mark]
            if not na or len(na) > 3:
                continue
            if any(a not in opts for a in na):
                continue
            exprs = [(c, t)]
            for a in na:
                k = dict(t)[a]
                nx = []
                for e in exprs:
                    for o in opts[a][:3]:
                        nx.append(add(sub(e, var(a, k)), o, k))
                exprs = nx[:9]
            for e in exprs:
                e = L.normfact(e)
                if e[1]:
                    out.add(e)
        # constant assigned slots
        for s in slots:
            if s in J:
                v = self.slot_val(bs, s)
                if v is not None and v.lin is not None:
                    e = J.rel(s, v.lin)
                    if all(x < mark for x, _ in e[1]):
                        out.add(sub(var(J[s]), e))
                        out.add(sub(e, var(J[s])))
        return out


class _JMap(dict):
    """slot -> atom; pointer slots are represented as offsets from an invariant base atom"""

    def __init__(self, d, entry, eng):
        super().__init__(d)
        self.base = {}
        for s in d:
            v = eng.slot_val(entry, s)
            if ATOMS[d[s]].desc[0] == 'off':
                self.base[s] = eng.base_atom(entry, v.lin)

    def rel(self, s, lin):
        b = self.base.get(s)
        if b is None:
            return lin
        return sub(lin, var(b))
