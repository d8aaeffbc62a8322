"""Explicit-state path exploration of the library's IR over a small value domain.

Values: constants, intervals (named unknowns), pointers (object, offset), functions. A branch which the state does not
decide is followed both ways, with the condition assumed; equal states are merged (after dropping dead registers and
renaming unknowns). A loop whose states keep growing has the varying values widened to "anything". Nothing is executed."""
import heapq
from load import AnalysisError
from effects import gep_tag

FULL = (1 << 64) - 1
SWAP = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'eq': 'eq', 'ne': 'ne'}
NEG = {'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'eq': 'ne', 'ne': 'eq'}
BIG = 1 << 40


def bits_of(ty):
    if ty == 'ptr':
        return 64
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return 64


class St:
    __slots__ = ('fr', 'mem', 'zero', 'iv', 'facts', 'ts', 'trail', 'dead', 'vn')

    def __init__(self):
        self.fr, self.mem, self.zero, self.iv, self.facts, self.ts, self.trail, self.dead, self.vn = [{}], {}, (), {}, {}, {}, None, False, {}

    def copy(self):
        s = St.__new__(St)
        s.fr = self.fr[:-1] + [dict(self.fr[-1])]
        s.mem, s.zero, s.iv, s.facts, s.ts, s.trail, s.dead = dict(self.mem), self.zero, dict(self.iv), dict(self.facts), dict(self.ts), self.trail, self.dead
        s.vn = dict(self.vn)
        return s

    def note(self, x):
        self.trail = (x, self.trail)

    def trace(self, n=60):
        r, t = [], self.trail
        while t is not None and len(r) < n:
            r.append(t[0])
            t = t[1]
        r.reverse()
        return r


def zcover(zero, o, off, n):
    for (b, lo, hi) in zero:
        if b == o and lo <= off and off + n <= hi:
            return True
    return False


def zsub(zero, o, lo, hi):
    r = []
    for z in zero:
        if z[0] != o or hi <= z[1] or lo >= z[2]:
            r.append(z)
            continue
        if z[1] < lo:
            r.append((o, z[1], lo))
        if hi < z[2]:
            r.append((o, hi, z[2]))
    return tuple(sorted(r, key=repr))


class Pol:
    flags = ()
    cap = 6000
    max_depth = 40

    def inline(self, eng, name):
        return True

    def call(self, eng, st, i, name, args):
        return None

    def ret(self, eng, st, f, v):
        return v

    def load(self, eng, st, i, p, size):
        pass

    def store(self, eng, st, i, p, size, v):
        pass

    def forget(self, eng, st, slot, ent):
        """True: the slot's integer value is dropped when a function returns"""
        return True

    def exists(self, st, o):
        return True

    def jobs(self):
        return ()

    def stored(self, eng, st, o, v, size, tag):
        return v

    def branch(self, eng, st, i, pred, truth):
        pass

    def control_tag(self, t):
        return True

    def coarse(self, fname):
        """True: the function's arithmetic is of no interest (results of merges are unknown)"""
        return False


class Eng:
    K = 7

    def __init__(self, mod, pol, eff):
        self.mod, self.pol, self.eff = mod, pol, eff
        self.n = 0
        self.obl = {}
        self.stack = []
        self.lcache = {}
        self.steps, self.maxsteps = 0, 60000000
        self.fns, self.calls_seen = set(), set()
        self.flat = {}
        self.quiet = 0
        self.memo, self.mworth, self.hits = {}, {}, 0
        self.ccache, self.rcache = {}, {}
        self.hpos = {}
        self.tcache, self.treach = {}, {}
        self.errlo = FULL - 18

    # ---- obligations ----
    def check(self, st, inst, kind, ok, msg):
        k = (inst.fn.name, inst.id, kind)
        o = self.obl.get(k)
        if o is None:
            o = self.obl[k] = {'kind': kind, 'fn': inst.fn.name, 'file': inst.file, 'line': inst.line, 'n': 0, 'fail': None}
        o['n'] += 1
        if not ok and o['fail'] is None:
            o['fail'] = {'msg': msg, 'stack': list(self.stack), 'trail': st.trace()}
        return ok

    def fails(self):
        return [o for o in self.obl.values() if o['fail']]

    # ---- values ----
    def fresh(self, st, bits=64, lo=0, hi=None):
        self.n += 1
        st.iv[self.n] = (lo, hi if hi is not None else (1 << bits) - 1)
        return ('t', self.n)

    def norm(self, st, v):
        if v.__class__ is tuple and v[0] == 't':
            r = st.iv.get(v[1])
            if r is None:
                st.iv[v[1]] = (0, FULL)
            elif r[0] == r[1]:
                return r[0]
        return v

    def rng(self, st, v):
        if v.__class__ is int:
            return (v, v)
        if v[0] == 't':
            return st.iv.get(v[1], (0, FULL))
        if v[0] in ('p', 'f'):
            return (4096, FULL >> 1)
        return (0, 1) if v[0] == 'b' else (0, FULL)

    def val(self, st, o, i):
        k = o[0]
        if k == 'i':
            v = st.fr[-1].get(o[1])
            if v is None:
                v = st.fr[-1][o[1]] = self.fresh(st, bits_of(i.fn.insts[o[1]].ty))
                return v
            return self.norm(st, v)
        if k == 'a':
            return self.norm(st, st.fr[-1][('a', o[1])])
        if k == 'c':
            return o[1] & ((1 << o[2]) - 1)
        if k == 'n':
            return 0
        if k == 'f':
            return ('f', o[1])
        if k == 'g':
            return ('p', ('g', o[1]), 0)
        if k == 'ge':
            b = self.val(st, o[1], i)
            return self.padd(st, b, o[2])
        return self.fresh(st)

    def padd(self, st, b, c):
        if b.__class__ is tuple and b[0] == 'p':
            return ('p', b[1], b[2] + c if b[2] is not None and c is not None else None)
        if b == 0 and c == 0:
            return 0
        if c == 0:
            return b
        if b.__class__ is int and c is not None:
            return (b + c) & FULL
        return self.fresh(st, 64, 1)

    # ---- conditions ----
    @staticmethod
    def sgn(r, w):
        h = 1 << (w - 1)
        if r[1] < h:
            return r
        if r[0] >= h:
            return (r[0] - 2 * h, r[1] - 2 * h)
        return (-h, h - 1)

    def cmp(self, st, op, x, y, w):
        """True/False/None"""
        x, y = self.norm(st, x), self.norm(st, y)
        if x == y:
            return op in ('eq', 'ule', 'uge', 'sle', 'sge')
        xp = x.__class__ is tuple and x[0] in ('p', 'f')
        yp = y.__class__ is tuple and y[0] in ('p', 'f')
        if xp and yp:
            if op in ('eq', 'ne') and x[0] == 'p' and y[0] == 'p':
                if x[1] != y[1]:
                    return op == 'ne'
                if x[2] is not None and y[2] is not None:
                    return (x[2] == y[2]) == (op == 'eq')
            if x[0] == 'p' and y[0] == 'p' and x[1] == y[1] and x[2] is not None and y[2] is not None:
                a, b = x[2], y[2]
                return {'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}.get(op)
            return None
        a, b = self.rng(st, x), self.rng(st, y)
        if op in ('eq', 'ne'):
            if a[1] < b[0] or b[1] < a[0]:
                return op == 'ne'
            if a[0] == a[1] == b[0] == b[1]:
                return op == 'eq'
        else:
            if op[0] == 's':
                a, b = self.sgn(a, w), self.sgn(b, w)
            o = op[1:]
            if o == 'lt':
                if a[1] < b[0]:
                    return True
                if a[0] >= b[1]:
                    return False
            elif o == 'le':
                if a[1] <= b[0]:
                    return True
                if a[0] > b[1]:
                    return False
            elif o == 'gt':
                if a[0] > b[1]:
                    return True
                if a[1] <= b[0]:
                    return False
            elif o == 'ge':
                if a[0] >= b[1]:
                    return True
                if a[1] < b[0]:
                    return False
        if st.facts and x.__class__ is tuple and y.__class__ is tuple:
            f = st.facts.get((op, x, y))
            if f is not None:
                return f
        return None

    def decide(self, st, p):
        k = p[0]
        if k == 'cmp':
            return self.cmp(st, p[1], p[2], p[3], p[4])
        if k == 'not':
            r = self.decide(st, p[1])
            return None if r is None else not r
        if k == 'nz':
            v = self.norm(st, p[1])
            r = self.rng(st, v)
            return False if r[1] == 0 else True if r[0] > 0 else None
        raise AnalysisError('condition %r' % (p,))

    def assume(self, st, p, truth):
        """False if infeasible"""
        while p[0] == 'not':
            p, truth = p[1], not truth
        if p[0] == 'nz':
            p = ('cmp', 'ne', p[1], 0, 64)
        d = self.decide(st, p)
        if d is not None:
            return d == truth
        op, x, y, w = p[1:]
        x, y = self.norm(st, x), self.norm(st, y)
        if not truth:
            op = NEG[op]
        if x.__class__ is tuple and x[0] == 'b' or y.__class__ is tuple and y[0] == 'b':
            return True
        ok = self.refine(st, op, x, y, w) and self.refine(st, SWAP[op], y, x, w)
        if ok and x.__class__ is tuple and y.__class__ is tuple:
            for o, a, b in ((op, x, y), (SWAP[op], y, x)):
                st.facts[(o, a, b)] = True
                st.facts[(NEG[o], a, b)] = False
                if o in ('ult', 'ugt'):
                    st.facts[('eq', a, b)] = False
                    st.facts[('ne', a, b)] = True
                    st.facts[('ule' if o == 'ult' else 'uge', a, b)] = True
                    st.facts[('ugt' if o == 'ult' else 'ult', a, b)] = False
                elif o == 'eq':
                    for q in ('ule', 'uge', 'sle', 'sge'):
                        st.facts[(q, a, b)] = True
                    for q in ('ult', 'ugt', 'slt', 'sgt'):
                        st.facts[(q, a, b)] = False
        return ok

    def refine(self, st, op, x, y, w):
        """restrict token x by x op y"""
        if x.__class__ is not tuple or x[0] != 't':
            return True
        lo, hi = st.iv[x[1]]
        b = self.rng(st, y)
        h = 1 << (w - 1)
        if op == 'eq':
            lo, hi = max(lo, b[0]), min(hi, b[1])
        elif op == 'ne':
            if b[0] == b[1]:
                if lo == b[0]:
                    lo += 1
                if hi == b[0]:
                    hi -= 1
        elif op == 'ult':
            hi = min(hi, b[1] - 1)
        elif op == 'ule':
            hi = min(hi, b[1])
        elif op == 'ugt':
            lo = max(lo, b[0] + 1)
        elif op == 'uge':
            lo = max(lo, b[0])
        else:
            s, c = self.sgn((lo, hi), w), self.sgn(b, w)
            l, u = s
            if op == 'slt':
                u = min(u, c[1] - 1)
            elif op == 'sle':
                u = min(u, c[1])
            elif op == 'sgt':
                l = max(l, c[0] + 1)
            elif op == 'sge':
                l = max(l, c[0])
            if l > u:
                return False
            if l >= 0:
                lo, hi = max(lo, l), min(hi, u)
            elif u < 0:
                lo, hi = max(lo, l + 2 * h), min(hi, u + 2 * h)
        if lo > hi:
            return False
        st.iv[x[1]] = (lo, hi)
        return True

    # ---- arithmetic ----
    def binop(self, st, op, x, y, w):
        m = (1 << w) - 1
        if x.__class__ is int and y.__class__ is int:
            if op == 'add':
                return (x + y) & m
            if op == 'sub':
                return (x - y) & m
            if op == 'mul':
                return (x * y) & m
            if op == 'and':
                return x & y
            if op == 'or':
                return x | y
            if op == 'xor':
                return x ^ y
            if op == 'shl':
                return (x << y) & m if y < w else 0
            if op == 'lshr':
                return x >> y if y < w else 0
            if op == 'udiv' and y:
                return x // y
            if op == 'urem' and y:
                return x % y
            if op == 'ashr':
                s = x - (1 << w) if x >> (w - 1) else x
                return (s >> min(y, w)) & m
            if op in ('sdiv', 'srem') and y and x < 1 << (w - 1) and y < 1 << (w - 1):
                return x // y if op == 'sdiv' else x % y
            return self.fresh(st, w)
        xp = x.__class__ is tuple and x[0] == 'p'
        yp = y.__class__ is tuple and y[0] == 'p'
        if xp and yp and op == 'sub' and x[1] == y[1] and x[2] is not None and y[2] is not None:
            return (x[2] - y[2]) & m
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr') and y == 0:
            return x
        if op == 'add' and x == 0 or op == 'or' and x == 0:
            return y
        if op == 'sub' and x == y:
            return 0
        if op in ('mul', 'and') and (x == 0 or y == 0):
            return 0
        if op == 'mul' and y == 1:
            return x
        a, b = self.rng(st, x), self.rng(st, y)
        lo, hi = 0, m
        if op == 'add':
            if a[1] + b[1] <= m:
                lo, hi = a[0] + b[0], a[1] + b[1]
        elif op == 'sub':
            if a[0] >= b[1]:
                lo, hi = a[0] - b[1], a[1] - b[0]
        elif op == 'mul':
            if a[1] * b[1] <= m:
                lo, hi = a[0] * b[0], a[1] * b[1]
        elif op == 'and':
            hi = min(a[1], b[1])
        elif op == 'or':
            lo = max(a[0], b[0])
            hi = min(m, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1)
        elif op == 'xor':
            hi = min(m, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1)
        elif op == 'lshr':
            lo, hi = (a[0] >> b[1] if b[1] < 64 else 0), a[1] >> b[0]
        elif op == 'udiv' and b[0] > 0:
            lo, hi = a[0] // b[1], a[1] // b[0]
        elif op == 'urem' and b[0] > 0:
            hi = min(a[1], b[1] - 1)
        elif op == 'shl' and x == 1:
            # a power of two used as a size
            lo, hi = 1, 1 << (w - 2)
        elif op == 'shl' and b[1] < 64 and (a[1] << b[1]) <= m:
            lo, hi = a[0] << b[0], a[1] << b[1]
        return self.fresh(st, w, lo, hi)

    # ---- memory ----
    def gload(self, st, g, off, size, ty):
        G = self.mod.globals.get(g)
        if not G or not G.get('const') or 'init' not in G:
            return None
        fl = self.flat.get(g)
        if fl is None:
            import ai
            e = ai.Engine.__new__(ai.Engine)
            e.mod = self.mod
            r = ai.Engine.flat_global(e, g)
            fl = self.flat[g] = {(x[0], x[1]): x[2] for x in (r or {'items': ()})['items']}
        if off is None:
            vs = [v for (o, n), v in fl.items() if n == size and v.__class__ is int]
            if vs and ty != 'ptr' and min(vs) >= 0:
                return self.fresh(st, 64, min(vs), max(vs))
            return None
        v = fl.get((off, size))
        return v & ((1 << (8 * size)) - 1) if v.__class__ is int else None

    def load(self, st, i, p, size, ty, tag=None):
        w = 64 if ty == 'ptr' else min(64, bits_of(ty))
        if p.__class__ is not tuple or p[0] != 'p':
            return self.fresh(st, w)
        o, off = p[1], p[2]
        if o[0] == 'g':
            v = self.gload(st, o[1], off, size, ty)
            return v if v is not None else self.fresh(st, w)
        if off is None:
            return self.fresh(st, w)
        e = st.mem.get((o, off))
        if e is not None:
            if e[1] == size:
                return self.norm(st, e[0])
            if e[0].__class__ is int and e[1] > size:
                return e[0] & ((1 << (8 * size)) - 1)
            return self.fresh(st, w)
        if zcover(st.zero, o, off, size):
            if not any((o, off + d) in st.mem for d in range(1, size)):
                return 0
        v = self.fresh(st, w)
        if not any((o, off - d) in st.mem and st.mem[(o, off - d)][1] > d for d in range(1, 8)):
            st.mem[(o, off)] = (v, size, tag)
        return v

    def store(self, st, i, p, size, v, tag=None):
        if p.__class__ is not tuple or p[0] != 'p':
            if v.__class__ is tuple and v[0] == 'p' and v[1][0] == 'h':
                self.pol.escape(self, st, i, v)
            return
        o, off = p[1], p[2]
        if off is None:
            if v.__class__ is tuple and v[0] == 'p' and v[1][0] == 'h':
                self.pol.escape(self, st, i, v)
            self.weak(st, o, tag, size)
            return
        mem = st.mem
        for d in range(-7, size):
            if d:
                e = mem.get((o, off + d))
                if e is not None and (d > 0 or e[1] > -d):
                    del mem[(o, off + d)]
                    if zcover(st.zero, o, off + d, e[1]):
                        st.zero = zsub(st.zero, o, off + d, off + d + e[1])
        v = self.pol.stored(self, st, o, v, size, tag)
        mem[(o, off)] = (v, size, tag)
        if o[0] == 'h' and i is not None and self.coarse(i.fn) and self.pol.forget(self, st, (o, off), mem[(o, off)]):
            del mem[(o, off)]
            if zcover(st.zero, o, off, size):
                st.zero = zsub(st.zero, o, off, off + size)

    def weak(self, st, o, tag, size):
        """a store at an unknown offset of o"""
        for k in [k for k in st.mem if k[0] == o]:
            e = st.mem[k]
            if tag is not None and e[2] is not None and e[2] != tag:
                continue
            if tag is None and (o[0] == 'h' and e[2] is not None or size < 8 and self.isptr(e)):
                continue
            st.mem[k] = (self.fresh(st, 8 * e[1]), e[1], e[2])
        if tag is not None or o[0] != 'h':
            st.zero = zsub(st.zero, o, -BIG, BIG)

    def isptr(self, e):
        v = e[0]
        if v.__class__ is tuple and v[0] in ('p', 'f'):
            return True
        if e[1] != 8 or e[2] is None:
            return False
        t = self.ftype(e[2])
        return bool(t and t.get('k') == 'ptr')

    def ftype(self, tag):
        s = self.mod.structs.get(tag[0])
        if s:
            for f in s['fields']:
                if f['name'] == tag[1]:
                    t = f['type']
                    while t and t.get('k') == 'array':
                        t = t.get('of')
                    return t
        return None

    def clear(self, st, o, lo=-BIG, hi=BIG, ptrs=True):
        """everything in [lo, hi) of object o becomes unknown"""
        for k in [k for k in st.mem if k[0] == o and lo <= k[1] < hi]:
            if not ptrs and self.isptr(st.mem[k]):
                continue
            del st.mem[k]
        st.zero = zsub(st.zero, o, lo, hi)

    def copymem(self, st, d, s, n):
        if d.__class__ is not tuple or d[0] != 'p':
            return
        if n.__class__ is not int or d[2] is None:
            if d[1][0] == 'h':
                # bulk data written into a buffer: that it stays within the buffer is the subject of the bounds properties
                self.weak(st, d[1], None, 1)
            elif d[2] is not None:
                self.clear(st, d[1], d[2], BIG)
            else:
                self.clear(st, d[1])
            return
        ents, z = [], False
        if s.__class__ is tuple and s[0] == 'p' and s[2] is not None:
            if s[1][0] == 'g':
                self.gload(st, s[1][1], 0, 1, 'i8')
                for (o, sz), v in (self.flat.get(s[1][1]) or {}).items():
                    if v.__class__ is int and s[2] <= o and o + sz <= s[2] + n:
                        ents.append((o - s[2], (v & ((1 << (8 * sz)) - 1), sz, None)))
            else:
                for k, e in st.mem.items():
                    if k[0] == s[1] and s[2] <= k[1] and k[1] + e[1] <= s[2] + n:
                        ents.append((k[1] - s[2], e))
                z = zcover(st.zero, s[1], s[2], n)
        self.clear(st, d[1], d[2], d[2] + n)
        for o, e in ents:
            st.mem[(d[1], d[2] + o)] = e
        if z:
            st.zero = tuple(sorted(st.zero + ((d[1], d[2], d[2] + n),), key=repr))

    # ---- calls ----
    def exec_call(self, st, i):
        args = [self.val(st, o, i) for o in i.ops]
        c = i.d['callee']
        name = c[1] if c[0] == 'f' else None
        if name is None:
            fv = self.val(st, c, i) if c[0] in ('i', 'a') else None
            if fv.__class__ is tuple and fv[0] == 'f':
                name = fv[1]
        self.calls_seen.add((i.fn.name, i.id))
        if any(a.__class__ is tuple and a[0] == 'b' for a in args):
            out = []
            for s in self.resolve(st, [a[1] for a in args if a.__class__ is tuple and a[0] == 'b']):
                out += self.exec_call2(s, i, name, [int(self.decide(s, a[1]) or 0) if a.__class__ is tuple and a[0] == 'b' else a for a in args])
            return out
        return self.exec_call2(st, i, name, args)

    def resolve(self, st, preds):
        sts = [st]
        for p in preds:
            out = []
            for s in sts:
                d = self.decide(s, p)
                if d is not None:
                    out.append(s)
                    continue
                o = s.copy()
                if self.assume(s, p, True):
                    out.append(s)
                if self.assume(o, p, False):
                    out.append(o)
            sts = out
        return sts

    def exec_call2(self, st, i, name, args):
        r = self.pol.call(self, st, i, name, args)
        if r is None:
            r = self.call_default(st, i, name, args)
        out = []
        for s, v in r:
            if s.dead:
                continue
            if i.ty != 'void':
                if v is None:
                    v = self.fresh(s, bits_of(i.ty))
                s.fr[-1][i.id] = v
            out.append(s)
        return out

    def call_default(self, st, i, name, args):
        if name is None:
            raise AnalysisError('indirect call at %s cannot be resolved' % i.where())
        f = self.mod.fns.get(name)
        if f is None or f.decl:
            return self.external(st, i, name, args)
        if len(self.stack) >= self.pol.max_depth or self.stack.count(name) > 2:
            raise AnalysisError('recursion through %s' % name)
        if self.pol.inline(self, name):
            return self.run(f, args, st)
        self.havoc_call(st, i, name, args)
        return [(st, None)]

    def external(self, st, i, name, args):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
            self.pol.load(self, st, i, args[1], args[2])
            self.pol.store(self, st, i, args[0], args[2], None)
            if st.dead:
                return []
            self.copymem(st, args[0], args[1], args[2])
            return [(st, args[0])]
        if name.startswith('llvm.memset') or name == 'memset':
            self.pol.store(self, st, i, args[0], args[2], None)
            if st.dead:
                return []
            d, c, n = args[:3]
            if d.__class__ is tuple and d[0] == 'p':
                if d[2] is not None and n.__class__ is int:
                    self.clear(st, d[1], d[2], d[2] + n)
                    if c == 0:
                        st.zero = tuple(sorted(st.zero + ((d[1], d[2], d[2] + n),), key=repr))
                elif d[1][0] == 'h':
                    self.weak(st, d[1], None, 1)
                else:
                    self.clear(st, d[1])
            return [(st, d)]
        if name.startswith('llvm.umin') or name.startswith('llvm.umax'):
            return [(st, None)]
        if name.startswith('llvm.'):
            return [(st, None)]
        for a in args:
            if a.__class__ is tuple and a[0] == 'p' and a[1][0] in ('al', 'bv'):
                self.clear(st, a[1])
        return [(st, None)]

    def havoc_call(self, st, i, name, args):
        tags = self.eff.wtags(name)
        if tags:
            for k, e in list(st.mem.items()):
                if e[2] in tags and k[0][0] in ('h', 'u'):
                    if self.isptr(e):
                        # a pointer field: the callee may redirect it (into the same object or a caller's buffer)
                        if e[0].__class__ is tuple and e[0][0] == 'p' and e[0][1][0] == 'h' and not self.pol.keep_ptr(self, st, name, e):
                            st.mem[k] = (self.fresh(st, 64, 1), e[1], e[2])
                        elif e[0].__class__ is not tuple or e[0][0] != 'p':
                            st.mem[k] = (self.fresh(st, 64), e[1], e[2])
                    else:
                        st.mem[k] = (self.fresh(st, 8 * e[1]), e[1], e[2])
            z = st.zero
            if z:
                for o in {x[0] for x in z}:
                    if o[0] == 'h':
                        for lo, n in self.tag_ranges(o, tags):
                            st.zero = zsub(st.zero, o, lo, lo + n)
        for t in self.eff.w[name]:
            if t[0] == 'param' and t[1] < len(args):
                a = args[t[1]]
                if a.__class__ is tuple and a[0] == 'p':
                    if a[1][0] in ('al', 'bv'):
                        self.clear(st, a[1])
        for a in args:
            if a.__class__ is tuple and a[0] == 'p' and a[1][0] in ('al', 'bv'):
                self.clear(st, a[1])

    def tag_ranges(self, o, tags):
        return self.pol.tag_ranges(self, o, tags)

    # ---- instructions ----
    def exec_inst(self, st, i):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise AnalysisError('analysis step budget exhausted in %s' % i.fn.name)
        op = i.op
        R = st.fr[-1]
        if op == 'getelementptr':
            b = self.val(st, i.ops[0], i)
            c = i.d['coff']
            for o, k in i.d['voff']:
                v = self.val(st, o, i)
                if v.__class__ is int and c is not None:
                    w = 64
                    t = i.fn.insts[o[1]].ty if o[0] == 'i' else 'i64'
                    w = bits_of(t)
                    if v >> (w - 1) and w <= 64:
                        v -= 1 << w
                    c += v * k
                else:
                    c = None
            R[i.id] = self.padd(st, b, c)
            return (st,)
        if op == 'load':
            p = self.val(st, i.ops[0], i)
            n = 8 if i.ty == 'ptr' else max(1, bits_of(i.ty) // 8)
            self.pol.load(self, st, i, p, n)
            if st.dead:
                return ()
            R[i.id] = self.load(st, i, p, n, i.ty, self.tag(i.fn, i.ops[0]))
            return (st,)
        if op == 'store':
            v, p = self.val(st, i.ops[0], i), self.val(st, i.ops[1], i)
            ty = i.d['sty']
            n = 8 if ty == 'ptr' else max(1, bits_of(ty) // 8)
            sts = (st,)
            if v.__class__ is tuple and v[0] == 'b':
                sts = self.resolve(st, [v[1]])
            for s in sts:
                x = int(self.decide(s, v[1])) if v.__class__ is tuple and v[0] == 'b' else v
                self.pol.store(self, s, i, p, n, x)
                if not s.dead:
                    self.store(s, i, p, n, x, self.tag(i.fn, i.ops[1]))
            return [s for s in sts if not s.dead]
        if op == 'icmp':
            x, y = self.val(st, i.ops[0], i), self.val(st, i.ops[1], i)
            pr = i.d['pred']
            for a, b in ((x, y), (y, x)):
                if a.__class__ is tuple and a[0] == 'b':
                    if b in (0, 1) and pr in ('eq', 'ne'):
                        t = (pr == 'ne') == (b == 0)
                        R[i.id] = a if t else ('b', ('not', a[1]))
                        return (st,)
                    out = []
                    for s in self.resolve(st, [a[1]]):
                        if i.ops[0][0] == 'i' and s.fr[-1].get(i.ops[0][1]) == a:
                            s.fr[-1][i.ops[0][1]] = int(self.decide(s, a[1]))
                        if i.ops[1][0] == 'i' and s.fr[-1].get(i.ops[1][1]) == a:
                            s.fr[-1][i.ops[1][1]] = int(self.decide(s, a[1]))
                        out += self.exec_inst(s, i)
                    return out
            d = self.cmp(st, pr, x, y, i.d['w'])
            R[i.id] = int(d) if d is not None else ('b', ('cmp', pr, x, y, i.d['w']))
            return (st,)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            v = self.val(st, i.ops[0], i)
            w = bits_of(i.ty)
            if v.__class__ is tuple and v[0] == 'b':
                if i.ty == 'i1' or op == 'freeze':
                    R[i.id] = v
                    return (st,)
                if op == 'zext' and self.irrelevant(i) and self.decide(st, v[1]) is None:
                    R[i.id] = self.fresh(st, w, 0, 1)
                    return (st,)
                out = []
                for s in self.resolve(st, [v[1]]):
                    b = int(self.decide(s, v[1]))
                    s.fr[-1][i.id] = ((1 << w) - 1 if op == 'sext' and b else b)
                    out.append(s)
                return out
            if op == 'trunc':
                if v.__class__ is int:
                    v &= (1 << w) - 1
                elif w == 1:
                    R[i.id] = ('b', ('nz', self.fresh(st, 1)))
                    return (st,)
                elif self.rng(st, v)[1] >= 1 << w:
                    v = self.fresh(st, w)
            elif op == 'sext':
                w0 = bits_of(i.d.get('from', 'i32'))
                r = self.rng(st, v)
                if r[0] >= 1 << (w0 - 1):
                    d = (1 << w) - (1 << w0)
                    v = v + d if v.__class__ is int else self.fresh(st, w, r[0] + d, r[1] + d)
                elif r[1] >= 1 << (w0 - 1):
                    out = []
                    h = 1 << (w0 - 1)
                    o = st.copy()
                    if self.assume(st, ('cmp', 'ult', v, h, 64), True):
                        st.fr[-1][i.id] = self.norm(st, v)
                        out.append(st)
                    o.fr[-1][i.id] = self.fresh(o, w, (1 << w) - h, (1 << w) - 1)
                    if self.assume(o, ('cmp', 'uge', v, h, 64), True):
                        out.append(o)
                    return out
            R[i.id] = v
            return (st,)
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
            x, y = self.val(st, i.ops[0], i), self.val(st, i.ops[1], i)
            bs = [v[1] for v in (x, y) if v.__class__ is tuple and v[0] == 'b']
            if bs:
                if op == 'xor' and i.ty == 'i1':
                    a, b = (x, y) if x.__class__ is tuple and x[0] == 'b' else (y, x)
                    if b.__class__ is int:
                        R[i.id] = ('b', ('not', a[1])) if b else a
                        return (st,)
                out = []
                for s in self.resolve(st, bs):
                    f = lambda v: int(self.decide(s, v[1])) if v.__class__ is tuple and v[0] == 'b' else v
                    s.fr[-1][i.id] = self.binop(s, op, f(x), f(y), bits_of(i.ty))
                    out.append(s)
                return out
            # the same operation on the same values within a straight line of blocks has the same result
            vk = (op, x, y, i.ty)
            v = st.vn.get(vk)
            if v is None:
                v = self.binop(st, op, x, y, bits_of(i.ty))
                if v.__class__ is tuple and v[0] == 't':
                    st.vn[vk] = v
            R[i.id] = self.norm(st, v)
            return (st,)
        if op == 'select':
            c = self.val(st, i.ops[0], i)
            if c.__class__ is int:
                R[i.id] = self.val(st, i.ops[1] if c else i.ops[2], i)
                return (st,)
            p = c[1] if c[0] == 'b' else ('nz', c)
            if i.ty not in ('ptr', 'i1') and self.irrelevant(i) and self.decide(st, p) is None:
                x, y = self.val(st, i.ops[1], i), self.val(st, i.ops[2], i)
                if not any(v.__class__ is int and v >= self.errlo for v in (x, y)):
                    a, b = self.rng(st, x), self.rng(st, y)
                    R[i.id] = self.fresh(st, bits_of(i.ty), min(a[0], b[0]), max(a[1], b[1]))
                    return (st,)
            out = []
            o = st.copy()
            for s, t in ((st, True), (o, False)):
                if self.assume(s, p, t):
                    s.fr[-1][i.id] = self.val(s, i.ops[1] if t else i.ops[2], i)
                    out.append(s)
            return out
        if op == 'alloca':
            R[i.id] = ('p', ('al', len(self.stack), i.fn.name, i.id), 0)
            return (st,)
        if op == 'call':
            return self.exec_call(st, i)
        if op == 'atomicrmw':
            p = self.val(st, i.ops[0], i)
            n = max(1, bits_of(i.ty) // 8)
            self.pol.load(self, st, i, p, n)
            if st.dead:
                return ()
            R[i.id] = self.load(st, i, p, n, i.ty, self.tag(i.fn, i.ops[0]))
            self.store(st, i, p, n, self.fresh(st, bits_of(i.ty)), self.tag(i.fn, i.ops[0]))
            return (st,)
        if op in ('fence',):
            return (st,)
        if i.ty != 'void':
            R[i.id] = self.fresh(st, bits_of(i.ty))
        return (st,)

    def tag(self, f, o):
        if o[0] != 'i':
            return None
        i = f.insts[o[1]]
        if i.op == 'getelementptr':
            return gep_tag(self.mod, i) or (self.tag(f, i.ops[0]) if i.ops[0][0] == 'i' and f.insts[i.ops[0][1]].op == 'getelementptr' else None)
        return None

    # ---- functions ----
    def memo_worth(self, f):
        r = self.mworth.get(f.name)
        if r is None:
            r = self.mworth[f.name] = len(f.blocks) > 3 and (bool(f.loops) or len(f.insts) > 40 or any(True for c in f.calls()))
        return r

    def touched(self, f):
        """(struct, field) tags a call may read or write; None: anything (it calls through a pointer)"""
        r = self.tcache.get(f.name, 0)
        if r == 0:
            rs, n = self.eff.reach([f.name]), 0
            while n != len(rs):
                # jobs which may run while it waits
                n = len(rs)
                if any(self.mod.fns[g].file.endswith('fl2_pool.c') or 'FL2POOL' in g for g in rs):
                    rs = self.eff.reach(list(rs) + list(self.pol.jobs()))
            rs = {g for g in rs if 'FL2POOL' not in g}
            self.treach[f.name] = rs
            if any(self.eff.icalls[g] for g in rs):
                r = None
            else:
                r, wl = set(), [t[1] for g in rs for t in self.eff.w[g] | self.eff.r[g] if t[0] == 'tag']
                for g in rs:
                    for i in self.mod.fns[g].calls():
                        # accesses to whole structures
                        n = i.d['callee'][1] if i.d['callee'][0] == 'f' else ''
                        if n.startswith(('llvm.mem', 'mem')):
                            for o in i.ops[:2]:
                                wl += [t[-1] for t in self.eff.root(self.mod.fns[g], o) if t[0] in ('tag', 'ptag')]
                    for a in self.mod.fns[g].args:
                        if a.get('byval') and (a.get('di') or {}).get('name') in self.mod.structs:
                            wl += [(a['di']['name'], x['name']) for x in self.mod.structs[a['di']['name']]['fields']]
                while wl:
                    t = wl.pop()
                    if t in r:
                        continue
                    r.add(t)
                    ft = self.ftype(t)
                    if ft and ft.get('k') == 'struct' and ft.get('name') in self.mod.structs:
                        wl += [(ft['name'], x['name']) for x in self.mod.structs[ft['name']]['fields']]
            self.tcache[f.name] = r
        return r

    def run(self, f, args, st):
        st.vn = {}
        if not self.memo_worth(f):
            return self.run_body(f, args, st)
        fl = {k: st.ts.get(k) for k in self.pol.flags}
        for k in fl:
            st.ts[k] = None
        tg = self.touched(f)
        away = {}
        if tg is not None:
            away = {k: e for k, e in st.mem.items() if e[2] is not None and e[2] not in tg and k[0][0] in ('h', 'u')}
            for k in away:
                del st.mem[k]
        # live objects the call cannot reach and does not create
        hid, hz = (), ()
        if tg is not None and st.ts.get('live'):
            objs, wl, byo = set(), [], {}
            for k in st.mem:
                byo.setdefault(k[0], []).append(k)
            def see(x):
                if x.__class__ is tuple and x[0] == 'p' and x[1] not in objs:
                    objs.add(x[1])
                    wl.append(x[1])
            for a in args:
                see(a)
            for q in st.ts.get('pools', ()):
                for x in q:
                    see(x)
            while wl:
                o = wl.pop()
                for k in byo.get(o, ()):
                    see(st.mem[k][0])
            rs = self.treach[f.name]
            hid = tuple(o for o in st.ts['live'] if o not in objs and o[1][0] not in rs)
            if hid:
                st.ts['live'] = tuple(o for o in st.ts['live'] if o not in hid)
                hz = tuple(z for z in st.zero if z[0] in hid)
                if hz:
                    st.zero = tuple(z for z in st.zero if z[0] not in hid)
                for o in hid:
                    for k in byo.get(o, ()):
                        away[k] = st.mem.pop(k)
        iv0 = {e[0][1]: st.iv.get(e[0][1], (0, FULL)) for e in away.values() if e[0].__class__ is tuple and e[0][0] == 't'}
        outs = self.run2(f, args, st)
        for s, v in outs:
            for k, x in fl.items():
                s.ts[k] = s.ts.get(k) or x
            if hid:
                s.ts['live'] = tuple(sorted(s.ts.get('live', ()) + hid))
                if hz:
                    s.zero = tuple(sorted(s.zero + hz, key=repr))
            for k, e in away.items():
                if k not in s.mem and self.pol.exists(s, k[0]):
                    s.mem[k] = e
                    if e[0].__class__ is tuple and e[0][0] == 't' and e[0][1] not in s.iv:
                        s.iv[e[0][1]] = iv0[e[0][1]]
        return outs

    def run2(self, f, args, st):
        # the part of the state the call can see
        objs, wl = set(), []
        byo = {}
        for k in st.mem:
            byo.setdefault(k[0], []).append(k)

        def see(x):
            if x.__class__ is tuple and x[0] == 'p' and x[1] not in objs:
                objs.add(x[1])
                wl.append(x[1])
        for o in byo:
            if o[0] in ('h', 'u'):
                see(('p', o, 0))
        for a in args:
            see(a)
        while wl:
            o = wl.pop()
            for k in byo.get(o, ()):
                see(st.mem[k][0])
        ks = sorted([k for o in objs for k in byo.get(o, ())], key=repr)
        toks, idx = [], {}

        def cv(x):
            if x.__class__ is not tuple:
                return x
            if len(x) == 2 and x[0] == 't':
                n = idx.get(x[1])
                r = st.iv.get(x[1], (0, FULL))
                if n is None:
                    n = idx[x[1]] = len(toks)
                    toks.append(x[1])
                return ('t', n, r)
            return tuple(cv(y) if y.__class__ is tuple else y for y in x)
        key = (f.name, tuple(cv(a) for a in args), tuple((k, cv(st.mem[k][0]), st.mem[k][1], st.mem[k][2]) for k in ks),
               tuple((k, cv(st.ts[k])) for k in sorted(st.ts)), st.zero,
               tuple(sorted((k[0], cv(k[1]), cv(k[2]), t) for k, t in st.facts.items() if all(x[0] != 't' or x[1] in idx for x in k[1:])) if st.facts else ()))
        ent = self.memo.get(key)
        if ent is None:
            other = {k: e for k, e in st.mem.items() if k[0] not in objs}
            tr0 = st.trail
            keyset = set(toks)
            outs = self.run_body(f, args, st)
            rec = []
            for s, v in outs:
                notes, t = [], s.trail
                while t is not None and t is not tr0 and len(notes) < 60:
                    notes.append(t[0])
                    t = t[1]
                notes.reverse()
                rec.append((v, {k: e for k, e in s.mem.items() if k not in other}, s.zero, dict(s.ts), dict(s.iv),
                            dict(s.facts), notes))
            if len(self.memo) > 20000:
                self.memo.clear()
            self.memo[key] = (toks, rec)
            return outs
        self.hits += 1
        otoks, rec = ent
        res = []
        for v, mem, zero, ts, iv, facts, notes in rec:
            s = st.copy()
            ren = dict(zip(otoks, toks))

            def mp(x):
                if x.__class__ is not tuple:
                    return x
                if len(x) == 2 and x[0] == 't':
                    n = ren.get(x[1])
                    if n is None:
                        self.n += 1
                        n = ren[x[1]] = self.n
                    s.iv[n] = iv.get(x[1], (0, FULL))
                    return ('t', n)
                return tuple(mp(y) if y.__class__ is tuple else y for y in x)
            for a, b in zip(otoks, toks):
                if a in iv:
                    s.iv[b] = iv[a]
            s.mem = {k: e for k, e in st.mem.items() if k[0] not in objs}
            for k, e in mem.items():
                s.mem[k] = (mp(e[0]), e[1], e[2])
            s.zero = zero
            s.ts = {k: mp(x) for k, x in ts.items()}
            for k, t in facts.items():
                if all(x[0] != 't' or x[1] in ren for x in k[1:]):
                    s.facts[(k[0], mp(k[1]), mp(k[2]))] = t
            for x in notes:
                s.note(x)
            res.append((s, mp(v)))
        return res

    def run_body(self, f, args, st):
        self.fns.add(f.name)
        self.stack.append(f.name)
        d = len(self.stack)
        fr = {}
        for k, a in enumerate(args):
            if k < len(f.args) and f.args[k].get('byval') and a.__class__ is tuple and a[0] == 'p':
                di = f.args[k].get('di')
                sz = (self.mod.structs.get(di.get('name')) or {}).get('size') if di else None
                b = ('p', ('bv', d, f.name, k), 0)
                self.clear(st, b[1])
                if sz:
                    self.copymem(st, b, a, sz)
                a = b
            fr[('a', k)] = a
        for k in [k for k in st.mem if k[0][0] in ('al', 'bv') and k[0][1] == d and not (k[0][0] == 'bv' and k[0][2] == f.name)]:
            del st.mem[k]
        st.fr.append(fr)
        self.stack_calls = d
        try:
            outs = self.region(f, st)
        finally:
            self.stack.pop()
        res, seen = [], set()
        for s, v in outs:
            s.fr.pop()
            s.fr[-1] = dict(s.fr[-1])
            drop = [k for k in s.mem if k[0][0] in ('al', 'bv') and k[0][1] >= d]
            for k in drop:
                del s.mem[k]
            v = self.pol.ret(self, s, f, v)
            if s.dead:
                continue
            self.forget(s)
            k = self.key(s, v)
            if k in seen:
                continue
            seen.add(k)
            res.append((s, v))
        return res

    def forget(self, s):
        for k, e in list(s.mem.items()):
            if k[0][0] in ('h', 'u'):
                if self.pol.forget(self, s, k, e):
                    del s.mem[k]
                    if s.zero and zcover(s.zero, k[0], k[1], e[1]):
                        s.zero = zsub(s.zero, k[0], k[1], k[1] + e[1])
                else:
                    v = self.pol.stored(self, s, k[0], e[0], e[1], e[2])
                    if v is not e[0]:
                        s.mem[k] = (v, e[1], e[2])

    def live(self, f):
        r = self.lcache.get(f.name)
        if r is None:
            import ai
            e = ai.Engine.__new__(ai.Engine)
            e.live_cache = {}
            r = self.lcache[f.name] = ai.Engine.live_in(e, f)
            al = set(i.id for bl in f.blocks for i in bl if i.op == 'alloca')
        return r

    def region(self, f, st):
        pend = [(0, 0, 0, None, st)]
        cnt = 0
        seen = {}
        rets = []
        hist, chist = {}, {}
        while pend:
            _, _, b, fromb, s = heapq.heappop(pend)
            if fromb is not None:
                ph = []
                for i in f.blocks[b]:
                    if i.op != 'phi':
                        break
                    for o, fb in i.ops:
                        if fb == fromb:
                            ph.append((i.id, self.val(s, o, i)))
                            break
                R = s.fr[-1]
                for k, v in ph:
                    R[k] = v
                if len(f.pred[b]) > 1:
                    if self.coarse(f):
                        self.coarsen(f, b, s, ph, chist.setdefault(b, {}))
                    else:
                        rel = self.relevant(f)
                        for k, v in ph:
                            ty = f.insts[k].ty
                            if k not in rel and ty != 'ptr' and v.__class__ is not tuple or v.__class__ is tuple and v[0] == 't' and k not in rel:
                                R[k] = self.fresh(s, bits_of(ty)) if ty != 'i1' else ('b', ('nz', self.fresh(s, 1)))
                        self.forget(s)
                if False:
                    self.coarsen(f, b, s, ph, chist.setdefault(b, {}))
                lv = self.live(f)[b]
                for k in [k for k in R if k.__class__ is int and k not in lv]:
                    del R[k]
                if len(f.pred[b]) > 1:
                    if b in f.loops:
                        self.widen(f, b, s, hist.setdefault(b, {}))
                    k = self.key(s, None)
                    sb = seen.setdefault(b, set())
                    if k in sb:
                        continue
                    sb.add(k)
                    if len(sb) > self.pol.cap:
                        raise AnalysisError('more than %d states at block %d of %s (call path %s)' % (self.pol.cap, b, f.name, ' > '.join(self.stack)))
            sts = [s]
            for i in f.blocks[b]:
                op = i.op
                if op == 'phi':
                    continue
                if op == 'br' or op == 'switch' or op == 'ret' or op == 'unreachable':
                    break
                if len(sts) == 1:
                    sts = self.exec_inst(sts[0], i)
                else:
                    n = []
                    for x in sts:
                        n += self.exec_inst(x, i)
                    sts = n
                if not sts:
                    break
            for x in sts:
                if x.dead:
                    continue
                for to, y in self.term(f, i, x, rets):
                    cnt += 1
                    heapq.heappush(pend, (f.rpoi[to], cnt, to, b, y))
        return rets

    def term(self, f, i, s, rets):
        if i.op == 'ret':
            v = self.val(s, i.ops[0], i) if i.ops else None
            if v.__class__ is tuple and v[0] == 'b':
                for x in self.resolve(s, [v[1]]):
                    rets.append((x, int(self.decide(x, v[1]))))
            else:
                rets.append((s, v))
            return ()
        if i.op == 'br':
            sc = i.d['succ']
            if not i.ops:
                return ((sc[0], s),)
            c = self.val(s, i.ops[0], i)
            if c.__class__ is int:
                return ((sc[0] if c else sc[1], s),)
            p = c[1] if c[0] == 'b' else ('nz', c)
            d = self.decide(s, p)
            if d is not None:
                return ((sc[0] if d else sc[1], s),)
            o = s.copy()
            r = []
            if self.assume(s, p, True):
                s.note((i, True))
                self.pol.branch(self, s, i, p, True)
                r.append((sc[0], s))
            if self.assume(o, p, False):
                o.note((i, False))
                self.pol.branch(self, o, i, p, False)
                r.append((sc[1], o))
            return r
        if i.op == 'switch':
            c = self.val(s, i.ops[0], i)
            if c.__class__ is int:
                for x in i.d['cases']:
                    if x[0] == c:
                        return ((x[1], s),)
                return ((i.d['default'], s),)
            r = []
            for x in i.d['cases']:
                o = s.copy()
                if self.assume(o, ('cmp', 'eq', c, x[0] & FULL, 64), True):
                    o.note((i, x[0]))
                    r.append((x[1], o))
                if not self.assume(s, ('cmp', 'eq', c, x[0] & FULL, 64), False):
                    return r
            s.note((i, 'default'))
            r.append((i.d['default'], s))
            return r
        return ()

    def relevant(self, f):
        """values which can decide a branch, a result, a pool argument, an index or a control field (backward slice)"""
        r = self.rcache.get(f.name)
        if r is not None:
            return r
        r, wl = set(), []

        def seed(o):
            if o[0] == 'i' and o[1] not in r:
                r.add(o[1])
                wl.append(o[1])
        for b in f.blocks:
            for i in b:
                if i.op in ('br', 'switch', 'ret'):
                    for o in i.ops:
                        seed(o)
                elif i.op == 'call':
                    n = i.d['callee'][1] if i.d['callee'][0] == 'f' else None
                    if n and n.startswith('llvm.') and 'mem' not in n:
                        continue
                    for o in i.ops:
                        seed(o)
                elif i.op == 'getelementptr':
                    for o, _ in i.d['voff']:
                        seed(o)
                elif i.op == 'store':
                    t = self.tag(f, i.ops[1])
                    if t is None or self.pol.control_tag(t):
                        seed(i.ops[0])
        while wl:
            i = f.insts[wl.pop()]
            if i.op == 'phi':
                for o, _ in i.ops:
                    seed(o)
            elif i.op not in ('load', 'call', 'getelementptr', 'alloca'):
                for o in i.ops:
                    seed(o)
        self.rcache[f.name] = r
        return r

    def irrelevant(self, i):
        return self.coarse(i.fn) or i.id not in self.relevant(i.fn)

    def coarse(self, f):
        r = self.ccache.get(f.name)
        if r is None:
            r = self.ccache[f.name] = int(self.pol.coarse(f.name))
        return r

    def coarsen(self, f, b, s, ph, hist):
        R = s.fr[-1]
        full = self.coarse(f) > 1
        if full or b not in f.loops:
            for k, v in ph:
                ty = f.insts[k].ty
                if ty in ('ptr', 'i1'):
                    if full and ty == 'i1':
                        R[k] = ('b', ('nz', self.fresh(s, 1)))
                    continue
                v = self.norm(s, v)
                if v.__class__ is int:
                    h = hist.setdefault(k, set())
                    h.add(v)
                    if len(h) <= (1 if full else 2) and b not in f.loops and (not full or not f.loops) or v == 0 and (not full or ty == 'i64' and b not in f.loops) or v >= self.errlo:
                        continue
                hi = self.rng(s, v)[1]
                w = bits_of(ty)
                R[k] = self.fresh(s, w, 0, self.errlo - 1 if w == 64 and hi < self.errlo else None)
        for k, v in R.items():
            if full and v.__class__ is tuple and v[0] == 'p' and v[1][0] == 'h' and v[2] and k.__class__ is int:
                R[k] = ('p', v[1], None)
            if v.__class__ is tuple and v[0] == 't' and k.__class__ is int and f.insts[k].ty not in ('ptr', 'i1'):
                r = s.iv.get(v[1], (0, FULL))
                if r[0] == r[1]:
                    continue
                w = bits_of(f.insts[k].ty)
                m = (1 << w) - 1
                n = (0, m) if w < 64 else (0, self.errlo - 1 if r[1] < self.errlo else m)
                if n != r:
                    R[k] = self.fresh(s, w, *n)
        self.forget(s)
        d = len(self.stack)
        for k, e in list(s.mem.items()):
            if k[0][0] in ('al', 'bv') and k[0][1] == d and e[2] is not None and self.pol.forget(self, s, k, e):
                del s.mem[k]
                if s.zero and zcover(s.zero, k[0], k[1], e[1]):
                    s.zero = zsub(s.zero, k[0], k[1], k[1] + e[1])
        s.facts = {}

    def widen(self, f, b, s, hist):
        n = hist['n'] = hist.get('n', 0) + 1
        R = s.fr[-1]
        for pos, v in [(('r', k), v) for k, v in R.items() if k.__class__ is int] + [(('m',) + k, e[0]) for k, e in s.mem.items()]:
            if v.__class__ is tuple and v[0] != 't':
                continue
            v = self.norm(s, v)
            sig = v if v.__class__ is int else s.iv[v[1]]
            h = hist.get(pos)
            if h is None:
                h = hist[pos] = set()
            if h is True:
                w = 64
                if pos[0] == 'r':
                    w = bits_of(f.insts[pos[1]].ty)
                    if sig != (0, (1 << w) - 1):
                        R[pos[1]] = self.fresh(s, w)
                else:
                    e = s.mem[pos[1:]]
                    if sig != (0, (1 << (8 * e[1])) - 1):
                        s.mem[pos[1:]] = (self.fresh(s, 8 * e[1]), e[1], e[2])
                continue
            h.add(sig)
            if len(h) > self.K:
                hist[pos] = True

    # ---- merging ----
    def key(self, s, v):
        cnt = {}
        seq = []
        for fr in s.fr:
            for k in fr:
                x = fr[k]
                if x.__class__ is tuple:
                    self.toks(s, x, cnt)
        for e in s.mem.values():
            if e[0].__class__ is tuple:
                self.toks(s, e[0], cnt)
        if v.__class__ is tuple:
            self.toks(s, v, cnt)
        for k, x in s.ts.items():
            self.toks2(s, x, cnt)
        s.vn = {}
        # drop unused unknowns
        if len(s.iv) > len(cnt):
            s.iv = {k: s.iv.get(k, (0, FULL)) for k in cnt}
        if s.facts:
            s.facts = {k: t for k, t in s.facts.items() if self.alive(k[1], cnt) and self.alive(k[2], cnt)}
            for k in s.facts:
                for x in k[1:]:
                    if x[0] == 't':
                        cnt[x[1]] = cnt.get(x[1], 0) + 2
        ren = {}

        def cv(x):
            if x.__class__ is not tuple:
                return x
            if x[0] == 't':
                r = s.iv[x[1]]
                if r[0] == r[1]:
                    return r[0]
                if cnt[x[1]] == 1:
                    return ('T', r)
                n = ren.get(x[1])
                if n is None:
                    n = ren[x[1]] = len(ren)
                return ('t', n, r)
            if x[0] == 'b':
                return ('b', cp(x[1]))
            return x

        def cp(p):
            return tuple(cv(q) if q.__class__ is tuple and q and q[0] in ('t', 'p', 'f', 'b') else cp(q) if q.__class__ is tuple else q for q in p)
        regs = tuple(tuple((k, cv(fr[k])) for k in sorted(fr, key=repr)) for fr in s.fr)
        mem = tuple((k, cv(s.mem[k][0]), s.mem[k][1]) for k in sorted(s.mem, key=repr) if not self.trivial(s, s.mem[k], cnt, k))
        rv = cv(v)
        facts = tuple(sorted(((k[0], cv(k[1]), cv(k[2]), t) for k, t in s.facts.items()), key=repr)) if s.facts else ()
        ts = tuple((k, self.tskey(s.ts[k], cv)) for k in sorted(s.ts))
        return hash((regs, mem, rv, facts, ts, s.zero)), len(mem), rv if rv.__class__ is int else None

    def tskey(self, x, cv):
        if x.__class__ is tuple:
            if len(x) >= 2 and x[0] in ('t', 'b') and len(x) == 2:
                return cv(x)
            return tuple(self.tskey(y, cv) for y in x)
        return x

    def toks2(self, s, x, cnt):
        if x.__class__ is tuple:
            if len(x) == 2 and x[0] == 't':
                cnt[x[1]] = cnt.get(x[1], 0) + 1
                return
            for y in x:
                if y.__class__ is tuple:
                    self.toks2(s, y, cnt)

    def toks(self, s, x, cnt):
        if x[0] == 't':
            cnt[x[1]] = cnt.get(x[1], 0) + 1
            if x[1] not in s.iv:
                s.iv[x[1]] = (0, FULL)
        elif x[0] == 'b':
            for q in x[1]:
                if q.__class__ is tuple:
                    self.toks(s, q, cnt)
        elif x[0] in ('cmp', 'not', 'nz'):
            for q in x[1:]:
                if q.__class__ is tuple:
                    self.toks(s, q, cnt)

    def alive(self, x, cnt):
        return x[0] != 't' or x[1] in cnt

    def trivial(self, s, e, cnt, k):
        v = e[0]
        if v.__class__ is tuple and v[0] == 't' and cnt[v[1]] == 1:
            r = s.iv[v[1]]
            return r[0] == 0 and r[1] >= (1 << (8 * e[1])) - 1 and not zcover(s.zero, k[0], k[1], e[1])
        return False
