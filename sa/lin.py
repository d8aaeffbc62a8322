"""Linear integer expressions over interned atoms, and entailment over sets of linear inequalities.

A Lin is a tuple (const, ((atom, coef), ...)) with atoms sorted.  A fact is a Lin asserted to be >= 0.
Entailment is Fourier-Motzkin elimination with integer tightening on the relevant facts; it is the
transfer function of a small polyhedral abstract domain, bounded in size (giving up means "not entailed").
"""
from math import gcd


class Atom:
    __slots__ = ('id', 'desc', 'lo', 'hi', 'kind', 'axioms', 'parts')

    def __repr__(self):
        return '%s' % (self.desc,)


ATOMS = []
_intern = {}


def new_atom(desc, lo=None, hi=None, kind='int'):
    a = Atom()
    a.id = len(ATOMS)
    a.desc, a.lo, a.hi, a.kind, a.axioms, a.parts = desc, lo, hi, kind, (), None
    ATOMS.append(a)
    return a.id


def op_atom(op, parts, lo=None, hi=None, axioms=None, kind='int'):
    """structural atom: pure function `op` of Lins/consts in parts"""
    k = (op, parts)
    a = _intern.get(k)
    if a is None:
        a = new_atom((op, parts), lo, hi, kind)
        ATOMS[a].parts = parts
        _intern[k] = a
        if axioms:
            ATOMS[a].axioms = tuple(axioms(var(a)))
    return a


ZERO = (0, ())
ONE = (1, ())


def const(c):
    return (c, ())


def var(a, k=1):
    return (0, ((a, k),))


def add(x, y, k=1):
    """x + k*y"""
    if not y[1] and not x[1]:
        return (x[0] + k * y[0], ())
    if not y[1]:
        return (x[0] + k * y[0], x[1])
    d = dict(x[1])
    for a, c in y[1]:
        n = d.get(a, 0) + k * c
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return (x[0] + k * y[0], tuple(sorted(d.items())))


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 0:
        return ZERO
    return (x[0] * k, tuple((a, c * k) for a, c in x[1]))


def addc(x, c):
    return (x[0] + c, x[1])


def isconst(x):
    return not x[1]


def atoms_of(x):
    return [a for a, _ in x[1]]


def normfact(f):
    """normalise Lin>=0 by gcd with integer tightening"""
    if not f[1]:
        return f
    g = 0
    for _, c in f[1]:
        g = gcd(g, abs(c))
    if g > 1:
        return (f[0] // g, tuple((a, c // g) for a, c in f[1]))
    return f


def deep_atoms(x, out=None):
    if out is None:
        out = set()
    for a, _ in x[1]:
        if a not in out:
            out.add(a)
            p = ATOMS[a].parts
            if p:
                for q in p:
                    if isinstance(q, tuple) and len(q) == 2 and isinstance(q[1], tuple):
                        deep_atoms(q, out)
    return out


def subst(x, m, memo):
    """replace atoms by Lins (m: atom -> Lin), recursing into structural atoms"""
    if not x[1]:
        return x
    r = (x[0], ())
    ch = False
    for a, c in x[1]:
        n = subst_atom(a, m, memo)
        if n is not None:
            ch = True
            r = add(r, n, c)
        else:
            r = add(r, var(a), c)
    return r if ch else x


def subst_atom(a, m, memo):
    if a in m:
        return m[a]
    if a in memo:
        return memo[a]
    A = ATOMS[a]
    res = None
    if A.parts:
        np, ch = [], False
        for q in A.parts:
            if isinstance(q, tuple) and len(q) == 2 and isinstance(q[1], tuple):
                n = subst(q, m, memo)
                ch |= n != q
                np.append(n)
            else:
                np.append(q)
        if ch:
            res = rebuild(A.desc[0], tuple(np), A)
    memo[a] = res
    return res


REBUILD = {}


def rebuild(op, parts, old):
    f = REBUILD.get(op)
    if f:
        return f(*parts)
    return var(op_atom(op, parts, old.lo, old.hi, None, old.kind))


def show(x, depth=0):
    s = []
    for a, c in x[1]:
        n = name(a)
        s.append(n if c == 1 else '-' + n if c == -1 else '%d*%s' % (c, n))
    if x[0] or not s:
        s.append(str(x[0]))
    return ' + '.join(s).replace('+ -', '- ')


def name(a):
    A = ATOMS[a]
    d = A.desc
    if isinstance(d, tuple) and A.parts is not None:
        return '%s(%s)' % (d[0], ', '.join(show(p) if isinstance(p, tuple) and len(p) == 2 and isinstance(p[1], tuple) else str(p) for p in A.parts))
    return str(d) if not isinstance(d, tuple) else ':'.join(str(z) for z in d)


MAXC = 220
stats = {'entail': 0, 'fm': 0, 'giveup': 0}


def ranges(atoms):
    r = []
    for a in atoms:
        A = ATOMS[a]
        if A.lo is not None:
            r.append((-A.lo, ((a, 1),)))
        if A.hi is not None and A.hi < (1 << 62):
            r.append((A.hi, ((a, -1),)))
        r.extend(A.axioms)
    return r


def relevant(facts, goal, index=None, depth=4, cap=48):
    seen = set(a for a, _ in goal[1])
    frontier = set(seen)
    use = []
    used = set()
    extra = ranges(seen)
    for d in range(depth):
        nxt = set()
        pool = []
        for a in frontier:
            if index is not None:
                pool.extend(index.get(a, ()))
        for f in pool + extra:
            if f in used:
                continue
            used.add(f)
            use.append(f)
            for a, _ in f[1]:
                if a not in seen:
                    seen.add(a)
                    nxt.add(a)
        extra = ranges(nxt)
        if not nxt or len(use) > cap:
            for f in extra:
                if f not in used:
                    used.add(f)
                    use.append(f)
            break
        frontier = nxt
    return use


_fm = None


def _load():
    global _fm
    import ctypes, os, subprocess
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    so = os.path.join(here, 'build', 'libfm.so')
    if not os.path.exists(so):
        subprocess.run(['bash', os.path.join(here, 'setup.sh')], check=True, stdout=subprocess.DEVNULL)
    lib = ctypes.CDLL(so)
    _fm = lib.fm_infeasible


def infeasible(cons):
    """True if the conjunction of cons (each >= 0) has no solution (integer-tightened Fourier-Motzkin)."""
    import ctypes
    if _fm is None:
        _load()
    vid, consts, start, vs, cs = {}, [], [0], [], []
    for c, t in cons:
        if not t:
            if c < 0:
                return True
            continue
        if c > (1 << 62) or c < -(1 << 62):
            # out of the decision procedure's range: a weaker (or no) constraint is used instead
            if c > 0:
                continue
            c = -(1 << 62)
        consts.append(c)
        for a, k in t:
            if k > (1 << 60) or k < -(1 << 60):
                consts.pop()
                break
            vs.append(vid.setdefault(a, len(vid)))
            cs.append(k)
        else:
            start.append(len(vs))
            continue
        del vs[start[-1]:]
        del cs[start[-1]:]
    n = len(consts)
    if not n:
        return False
    LL = ctypes.c_longlong
    r = _fm(n, len(vid), (LL * n)(*consts), (ctypes.c_int * (n + 1))(*start), (ctypes.c_int * max(1, len(vs)))(*vs),
            (LL * max(1, len(cs)))(*cs), MAXC)
    return bool(r)


_ecache = {}


def entails(index, goal):
    """index: atom -> list of facts.  Is goal >= 0 implied?"""
    goal = normfact(goal)
    if not goal[1]:
        return goal[0] >= 0
    stats['entail'] += 1
    # cheap: interval
    lo = goal[0]
    for a, c in goal[1]:
        A = ATOMS[a]
        b = A.lo if c > 0 else A.hi
        if b is None:
            lo = None
            break
        lo += c * b
    if lo is not None and lo >= 0:
        return True
    t = goal[1]
    for f in index.get(t[0][0], ()):
        if f[1] == t and f[0] <= goal[0]:
            return True
    use = relevant(None, goal, index)
    if not use:
        return False
    neg = addc(scale(goal, -1), -1)
    k = (frozenset(use), neg)
    r = _ecache.get(k)
    if r is None:
        stats['fm'] += 1
        r = infeasible(use + [neg])
        if len(_ecache) > 400000:
            _ecache.clear()
        _ecache[k] = r
    return r


def ilow(x):
    lo = x[0]
    for a, c in x[1]:
        b = ATOMS[a].lo if c > 0 else ATOMS[a].hi
        if b is None:
            return None
        lo += c * b
    return lo


def ihigh(x):
    hi = x[0]
    for a, c in x[1]:
        b = ATOMS[a].hi if c > 0 else ATOMS[a].lo
        if b is None:
            return None
        hi += c * b
    return hi


def entails_cheap(f):
    lo = ilow(f)
    return lo is not None and lo >= 0


def normeq(f):
    """normalise a lin that is compared with 0 for (dis)equality"""
    if not f[1]:
        return f
    g = abs(f[0])
    for _, c in f[1]:
        g = gcd(g, abs(c))
    if g > 1:
        f = (f[0] // g, tuple((a, c // g) for a, c in f[1]))
    if f[1][0][1] < 0:
        f = scale(f, -1)
    return f
