"""Histories of API calls: a fixpoint over the abstract states one context object can be in between calls.

The exported functions are run through the abstract interpreter with their internal helpers in line. A state between calls
keeps exactly: which heap objects are live and which pointer fields point to them, which thread pools may be running a job,
and the small control fields of the context. Every other number is unknown. Every operation is applied to every reachable
state until nothing new appears, so what is shown holds after every sequence of calls (and every allocation failure in it)."""
from core import *

POOLFN = ('FL2POOL_create', 'FL2POOL_free', 'FL2POOL_add', 'FL2POOL_addRange', 'FL2POOL_waitAll', 'FL2POOL_sizeof')
ALLOC = ('malloc', 'calloc', 'free', 'realloc')
API_FILES = ('fl2_compress.c', 'fl2_decompress.c', 'dict_buffer.c', 'fl2_common.c')


def base(f):
    return f.split('/')[-1]


def retty(f):
    for b in f.blocks:
        i = b[-1]
        if i.op == 'ret':
            if not i.ops:
                return 'void'
            o = i.ops[0]
            if o[0] == 'i':
                return f.insts[o[1]].ty
            if o[0] == 'c':
                return 'i%d' % o[2]
            if o[0] == 'a':
                return f.args[o[1]].get('ty', '?')
            if o[0] in ('n', 'g', 'ge', 'f'):
                return 'ptr'
    return '?'


def derefs(mod):
    """fn -> set of parameter numbers which are dereferenced although the function never compares them with NULL"""
    r, calls = {}, {}
    for f in mod.defined():
        d, nul, cl = set(), set(), []

        def root(o):
            for _ in range(40):
                if o[0] == 'a':
                    return o[1]
                if o[0] == 'ge':
                    o = o[1]
                    continue
                if o[0] != 'i':
                    return None
                i = f.insts[o[1]]
                if i.op not in ('getelementptr', 'bitcast', 'freeze'):
                    return None
                o = i.ops[0]
            return None
        for b in f.blocks:
            for i in b:
                if i.op in ('load', 'atomicrmw'):
                    d.add(root(i.ops[0]))
                elif i.op == 'store':
                    d.add(root(i.ops[1]))
                elif i.op == 'icmp':
                    for o in i.ops:
                        if o[0] == 'a':
                            nul.add(o[1])
                elif i.op == 'call' and i.d['callee'][0] == 'f':
                    n = i.d['callee'][1]
                    for k, o in enumerate(i.ops):
                        if o[0] == 'a':
                            cl.append((o[1], n, k))
        d.discard(None)
        r[f.name] = d - nul
        calls[f.name] = [(a, n, k) for a, n, k in cl if a not in nul]
    ch = True
    while ch:
        ch = False
        for f in calls:
            for a, n, k in calls[f]:
                if k in r.get(n, ()) and a not in r[f]:
                    r[f].add(a)
                    ch = True
    return r


def fallible(mod):
    """functions which may return an FL2 error code (a small negative size_t), directly or from a callee"""
    r = set()

    def may(f, o, seen):
        if o[0] == 'c':
            c = o[1]
            if c >= 1 << 63:
                c -= 1 << 64
            return -64 < c < 0
        if o[0] != 'i' or o[1] in seen:
            return False
        seen.add(o[1])
        i = f.insts[o[1]]
        if i.op == 'phi':
            return any(may(f, x, seen) for x, _ in i.ops)
        if i.op == 'select':
            return may(f, i.ops[1], seen) or may(f, i.ops[2], seen)
        if i.op == 'call':
            return i.d['callee'][0] == 'f' and i.d['callee'][1] in r
        return False
    ch = True
    while ch:
        ch = False
        for f in mod.defined():
            if f.name in r:
                continue
            for b in f.blocks:
                i = b[-1]
                if i.op == 'ret' and i.ops and retty(f) == 'i64' and may(f, i.ops[0], set()):
                    r.add(f.name)
                    ch = True
                    break
    return r


class World(Policy):
    cap = 10
    live_ts = ()

    def __init__(self, ctx, mod, eff, threads, heavy=()):
        self.c, self.mod, self.eff, self.T = ctx, mod, eff, threads
        self.alloc_fns = {n for n in eff.ext if eff.ext[n] & set(ALLOC)}
        self.derefs, self.fall = derefs(mod), fallible(mod)
        self.heap = {}       # (site, ordinal) -> atom
        self.site = {}       # atom -> (site, ordinal)
        self.user = set()    # atoms of caller-owned memory
        self.heavy = set(heavy)
        self.op = None
        self.opspec = None
        self.root_depth = 0
        self.sites = {}
        self.fork_now = True
        self.maxord = 8

    # ---- inlining ----
    def inline(self, eng, name):
        f = self.mod.fns.get(name)
        if name in self.heavy:
            return False
        if base(f.file) in API_FILES or name in self.alloc_fns:
            return True
        return not f.loops and len(f.insts) <= 60 and base(f.file) != 'xxhash.c'

    def coarse(self, name):
        # arithmetic outside the API layer is irrelevant here: results are unknown
        return base(self.mod.fns[name].file) not in API_FILES

    def unroll_mixed(self, eng, f, h, it, r):
        # loops over the threads of a context: the number of rounds is known, a failure leaves early
        body = f.loops[h]
        return it < 12 and any(x not in body for x in f.succ[h]) and all(fr != h for _, fr, _ in r['exit'])

    # ---- heap ----
    def live(self, st):
        return st.ts.get('live', ())

    def new_obj(self, eng, st, site, desc):
        live = set(self.live(st))
        used = None
        for o in range(self.maxord):
            a = self.heap.get((site, o))
            if a is None:
                a = new_atom(('heap', desc, o), 4096, (1 << 63) - (1 << 40), 'heap')
                self.heap[(site, o)] = a
                self.site[a] = (site, o)
                break
            if a in live:
                continue
            if used is None:
                used = self.referenced(st)
            if a not in used:
                break
        else:
            raise AnalysisError('more than %d live objects allocated at %s' % (self.maxord, desc))
        self.purge(st, a)
        st.ts['live'] = tuple(sorted(live | {a}))
        return a

    def referenced(self, st):
        u = set()

        def vl(v):
            if v is not None and v.lin is not None:
                for a, _ in v.lin[1]:
                    u.add(a)
        for fr in st.frames:
            for v in fr.values():
                if isinstance(v, V):
                    vl(v)
        for k, (v, n, t) in st.mem.items():
            vl(v)
            # a freed object's own memory was dropped when it was freed
        for k, v in st.ts.items():
            if isinstance(v, V):
                vl(v)
        return u

    def purge(self, st, a):
        for k in list(st.mem):
            if any(x == a for x, _ in k[1]):
                del st.mem[k]
        st.zero = st.zero - {a}
        if a in st.reg:
            st.reg = {k: v for k, v in st.reg.items() if k != a}

    def chk(self, eng, st, i, kind, ok, msg):
        eng.check(st, i, kind, ok, '%s [in a call of %s]' % (msg, self.op))

    def ptr_ok(self, eng, st, i, lin, what):
        """obligation: the pointer designates live memory"""
        if isconst(lin):
            self.chk(eng, st, i, 'null', False, '%s through a null pointer' % what)
            if eng.rec >= -1000:
                st.dead = True
            return False
        for a, k in lin[1]:
            if ATOMS[a].kind == 'heap' and k == 1 and a not in self.user:
                ok = a in self.live(st)
                self.chk(eng, st, i, 'uaf', ok, '%s of memory from %s which has been freed' % (what, ATOMS[a].desc[1]))
                if not ok:
                    st.dead = True
                return ok
        return True

    def load(self, eng, st, inst, addr, size, tag):
        if inst is not None:
            if self.ptr_ok(eng, st, inst, addr, 'read'):
                self.chk(eng, st, inst, 'null', True, '')

    def store(self, eng, st, inst, addr, size, tag, v):
        if inst is not None:
            if self.ptr_ok(eng, st, inst, addr, 'write'):
                self.chk(eng, st, inst, 'null', True, '')

    # ---- calls ----
    def call(self, eng, st, i, name, args):
        if name in ALLOC:
            return self.do_alloc(eng, st, i, name, args)
        if name in POOLFN:
            return getattr(self, 'do_' + name[8:])(eng, st, i, args)
        if name is None:
            return None
        f = self.mod.fns.get(name)
        if f is None or f.decl or self.inline(eng, name):
            return None
        for k in self.derefs.get(name, ()):
            if k < len(args) and args[k].lin is not None:
                if self.ptr_ok(eng, st, i, args[k].lin, 'use by %s' % name):
                    self.chk(eng, st, i, 'null', True, '')
                if st.dead:
                    return []
        eng.havoc_call(st, i, name, args)
        if name in self.fall and i.ty == 'i64':
            o = st.copy()
            o.note('%s: %s fails' % (i.where(), name))
            o.ts['err'] = o.ts.get('err') or name
            v = eng.fresh(('res', name), 64)
            st.add((((1 << 64) - 65), ((v.lin[1][0][0], -1),)))
            return [(st, v), (o, C(-1))]
        return [(st, None)]

    def do_alloc(self, eng, st, i, name, args):
        if name == 'realloc':
            raise AnalysisError('realloc at %s' % i.where())
        if name == 'free':
            p = args[0]
            if p.lin is None:
                self.chk(eng, st, i, 'free', False, 'frees an unknown pointer')
                return [(st, None)]
            if p.lin == L.ZERO:
                return [(st, None)]
            a = p.lin[1][0][0] if len(p.lin[1]) == 1 and p.lin[1][0][1] == 1 and p.lin[0] == 0 else None
            isheap = a is not None and ATOMS[a].kind == 'heap' and a not in self.user
            self.chk(eng, st, i, 'free', isheap, 'frees a pointer that is no allocated object (%s)' % L.show(p.lin))
            if isheap:
                ok = a in self.live(st)
                self.chk(eng, st, i, 'dfree', ok, 'frees memory from %s again' % ATOMS[a].desc[1])
                busy = [q for q in st.ts.get('pools', ())]
                self.chk(eng, st, i, 'busyfree', not busy or 'job' in st.ts, 'frees memory from %s while %s may be running in another thread' % (
                    ATOMS[a].desc[1], busy[0][1] if busy else ''))
                self.drop(st, a)
            return [(st, None)]
        o = st.copy()
        o.note('%s: %s returns NULL' % (i.where(), name))
        o.ts['failed'] = o.ts.get('failed') or i.where()
        site = (i.fn.name, i.id)
        self.sites[site] = i.where()
        a = self.new_obj(eng, st, site, i.where())
        v = V(var(a))
        sz = args[0].lin if name == 'malloc' else None
        if name == 'calloc':
            st.zero = st.zero | {a}
        if sz is not None:
            st.reg = dict(st.reg)
            st.reg[a] = (sz, 'heap')
        return [(st, v), (o, VZ)]

    def drop(self, st, a):
        st.ts['live'] = tuple(x for x in self.live(st) if x != a)
        self.purge(st, a)

    # ---- thread pools: (atom, job function, opaque Lin, first, count, mode) ----
    def do_create(self, eng, st, i, args):
        n = args[0].lin
        if n == L.ZERO:
            return [(st, VZ)]
        o = st.copy()
        o.note('%s: the thread pool cannot be created' % i.where())
        o.ts['failed'] = o.ts.get('failed') or i.where()
        r = []
        if n is None or not isconst(n):
            z = st.copy()
            if n is not None:
                z.add_eq(n)
            if not z.dead:
                r.append((z, VZ))
            if n is not None:
                st.add_ne(n)
        self.sites[(i.fn.name, i.id)] = i.where()
        a = self.new_obj(eng, st, (i.fn.name, i.id), 'pool ' + i.where())
        return r + [(st, V(var(a))), (o, VZ)]

    def poolarg(self, eng, st, i, p, what):
        """atom of a live pool, None for NULL"""
        if p.lin is None:
            raise AnalysisError('%s of an unknown pool at %s' % (what, i.where()))
        if p.lin == L.ZERO:
            return None
        if not self.ptr_ok(eng, st, i, p.lin, what):
            return None
        a = p.lin[1][0][0] if len(p.lin[1]) == 1 else None
        if a is None or a not in self.live(st):
            raise AnalysisError('%s: cannot identify the pool at %s' % (what, i.where()))
        return a

    def do_sizeof(self, eng, st, i, args):
        return [(st, None)]

    def do_free(self, eng, st, i, args):
        a = self.poolarg(eng, st, i, args[0], 'FL2POOL_free')
        if st.dead:
            return []
        if a is None:
            return [(st, None)]
        r = []
        for s in self.finish(eng, st, a):
            busy = s.ts.get('pools', ())
            self.chk(eng, s, i, 'busyfree', not busy or 'job' in s.ts, 'frees a thread pool while %s may be running in another thread' % (busy[0][1] if busy else ''))
            self.drop(s, a)
            r.append((s, None))
        return r

    def do_add(self, eng, st, i, args):
        return self.add(eng, st, i, args[0], args[1], args[2], None, None)

    def do_addRange(self, eng, st, i, args):
        return self.add(eng, st, i, args[0], args[1], args[2], args[3], args[4])

    def add(self, eng, st, i, p, fn, opaque, first, end):
        a = self.poolarg(eng, st, i, p, 'adding a job')
        if st.dead:
            return []
        if a is None:
            # a missing pool drops the jobs: legal only when the range is empty
            if first is None:
                self.chk(eng, st, i, 'nopool', False, 'a job is added to a pool which does not exist')
            else:
                self.chk(eng, st, i, 'nopool', lambda: st.entails(sub(first.lin, end.lin)), 'jobs are added to a pool which does not exist, although the range is not shown to be empty')
            return [(st, None)]
        if not fn.fn or opaque.lin is None:
            raise AnalysisError('cannot resolve the job function at %s' % i.where())
        self.chk(eng, st, i, 'addbusy', not any(q[0] == a for q in st.ts.get('pools', ())),
                 'a job is added while the pool may still be running another one')
        st.ts['pools'] = tuple(q for q in st.ts.get('pools', ()) if q[0] != a)
        r = []
        if first is None:
            jobs = [(st, None, 1)]
        else:
            jobs = []
            if not isconst(first.lin):
                raise AnalysisError('first job index is not a constant at %s' % i.where())
            f0 = first.lin[0]
            d = sub(end.lin, first.lin)
            cur = st
            e = cur.copy()
            e.add(scale(d, -1))
            if not e.dead:
                jobs.append((e, f0, 0))
            cur.add(addc(d, -1))
            k = 1
            while not cur.dead and f0 + k <= self.T:
                e = cur.copy()
                e.add_eq(addc(d, -k))
                if not e.dead:
                    jobs.append((e, f0, k))
                cur.add(addc(d, -k - 1))
                k += 1
            self.chk(eng, cur, i, 'range', cur.dead, 'the job range may be larger than the number of threads')
        for s, f0, n in jobs:
            if n == 0:
                r.append((s, None))
                continue
            q = (a, fn.fn, opaque.lin, f0, n)
            if first is None and self.fork_now:
                o = s.copy()
                o.note('%s: %s completes at once' % (i.where(), fn.fn))
                for x in self.run_jobs(eng, o, q):
                    x.ts['pools'] = tuple(sorted(x.ts.get('pools', ()) + ((a, fn.fn, opaque.lin, f0, 0),), key=repr))
                    r.append((x, None))
            s.ts['pools'] = tuple(sorted(s.ts.get('pools', ()) + (q,), key=repr))
            r.append((s, None))
        return r

    def run_jobs(self, eng, st, q):
        """the jobs of one pool entry, in sequence (they touch disjoint objects)"""
        a, fn, opaque, first, n = q
        sts = [st]
        f = self.mod.fn(fn)
        if n and not getattr(self, 'run_async', True) and first is None:
            n = 0
        for k in range(n):
            out = []
            for s in sts:
                arg = C(first + k) if first is not None else eng.fresh(('jobarg',), 32, True)
                nested = 'job' in s.ts
                s.ts['job'] = 1
                for x, v in eng.run(f, [V(opaque), arg], s):
                    if not nested:
                        x.ts.pop('job', None)
                    out.append(x)
            sts = out
        r = []
        for s in sts:
            if first is None:
                self.job_done(eng, s, f)
            r.append(s)
        return r

    def job_done(self, eng, s, f):
        """an asynchronous job has ended: what failed in it must be recorded for the owner"""
        for k in ('failed', 'err'):
            if s.ts.get(k):
                ok = self.async_error(s)
                inst = f.blocks[0][0]
                if eng.rec > 0:
                    self.chk(eng, s, inst, 'joberr', ok, '%s failed in the job, which ends without storing an error' % s.ts[k])
                s.ts[k] = None

    def async_error(self, s):
        for k, (v, n, t) in s.mem.items():
            if t is not None and t[1] == 'asyncRes' and is_err(s, v, 64):
                return True
        return False

    def finish(self, eng, st, a):
        """all jobs of pool a end"""
        q = [x for x in st.ts.get('pools', ()) if x[0] == a]
        if not q:
            return [st]
        st.ts['pools'] = tuple(x for x in st.ts.get('pools', ()) if x[0] != a)
        return self.run_jobs(eng, st, q[0])

    def do_waitAll(self, eng, st, i, args):
        a = self.poolarg(eng, st, i, args[0], 'FL2POOL_waitAll')
        if st.dead:
            return []
        if a is None or not any(x[0] == a for x in st.ts.get('pools', ())):
            return [(st, VZ)]
        t = args[1].lin
        r = []
        if t is None or not isconst(t) or t[0] != 0:
            o = st.copy()
            if t is not None:
                o.add_ne(t)
                if st.entails(scale(t, -1)) and st.entails(t):
                    o.dead = True
            if not o.dead:
                o.note('%s: wait times out' % i.where())
                r.append((o, C(1)))
        for s in self.finish(eng, st, a):
            r.append((s, VZ))
        return r

    # ---- results ----
    def ret(self, eng, st, f, v):
        if len(eng.stack) >= 1 and v is not None and v.lin is not None and isconst(v.lin) and f.name in self.fall:
            if is_err(st, v, 64) and not st.ts.get('err'):
                st.ts['err'] = f.name
        return None


class Op:
    """one exported function: args: list of 'ctx' | 'buf' | 'size' | 'int' | 'u32' | 'u8' | 'in' | 'out' | 'out?' | 'dict' | 'cbuf' | 'u64p' | constants"""

    def __init__(self, fn, args, kind='', frees=False, pre=None, name=None, post=None, retkind='err'):
        self.fn, self.args, self.kind, self.frees, self.pre, self.name, self.post, self.retkind = fn, args, kind, frees, pre, name or fn, post, retkind


class History:
    def __init__(self, ctx, mod, threads, control, dropwhen=None, heavy=(), maxstates=4000, opaque_ok=()):
        self.c, self.mod = ctx, mod
        self.eff = effects.Effects(mod)
        self.w = World(ctx, mod, self.eff, threads, heavy)
        self.eng = Engine(mod, self.w, self.eff)
        self.eng.maxsteps = 80000000
        self.control = control          # set of (struct, field) tags or field names whose value is kept between calls
        self.dropwhen = dropwhen
        self.states, self.maxstates = {}, maxstates
        self.runs = 0
        self.args_cache = {}
        self.hooks = []

    # ---- states ----
    def user_obj(self, st, desc, sname=None, size=None):
        a = self.args_cache.get(desc)
        if a is None:
            a = self.args_cache[desc] = new_atom(('heap', 'caller memory ' + desc, 0), 4096, (1 << 63) - (1 << 40), 'heap')
            self.w.user.add(a)
        return V(var(a))

    def mkargs(self, st, op, root):
        r = []
        eng = self.eng
        for k, a in enumerate(op.args):
            if a == 'ctx':
                r.append(root)
            elif a == 'buf':
                r.append(self.user_obj(st, 'buf%d' % k))
            elif a == 'size':
                r.append(eng.fresh(('arg', k), 64))
            elif a == 'int':
                r.append(eng.fresh(('arg', k), 32, True))
            elif a == 'u32':
                r.append(eng.fresh(('arg', k), 32))
            elif a == 'u8':
                r.append(eng.fresh(('arg', k), 8))
            elif a in ('in', 'out'):
                sn = 'FL2_inBuffer' if a == 'in' else 'FL2_outBuffer'
                o = self.user_obj(st, a)
                p = 'src' if a == 'in' else 'dst'
                setf(eng, st, o, sn, p, self.user_obj(st, a + 'data'))
                sz, ps = eng.fresh(('arg', a, 'size'), 62), eng.fresh(('arg', a, 'pos'), 62)
                setf(eng, st, o, sn, 'size', sz)
                setf(eng, st, o, sn, 'pos', ps)
                st.add(sub(sz.lin, ps.lin))
                r.append(o)
            elif a == 'obj':
                r.append(self.user_obj(st, 'obj%d' % k))
            elif isinstance(a, V):
                r.append(a)
            else:
                r.append(C(a))
        return r

    def run(self, op, st, root):
        """-> list of (state, ret V)"""
        w = self.w
        w.op, w.opspec = op.name, op
        st.frames = ({},)
        st.trail = st.trail if op.fn is None else st.trail
        st.note('call of %s' % op.name)
        for k in ('failed', 'err', 'job'):
            st.ts.pop(k, None)
        st.ts['failed'] = st.ts['err'] = None
        st.ts['arg0'] = None
        self.runs += 1
        args = self.mkargs(st, op, root)
        if op.pre:
            op.pre(self, st, args)
        self.cur_args = args
        return self.eng.run(self.mod.fn(op.fn), args, st)

    def canon(self, st, root):
        """state between calls; renames heap objects in order of discovery from the root"""
        st = st.copy()
        st.frames = ({},)
        if self.dropwhen:
            self.dropwhen(self, st, root)
        w = self.w
        users = set(self.args_cache.values())
        live = set(w.live(st))
        keep, fresh = {}, {}
        for k, (v, n, t) in st.mem.items():
            b = self.eng.base_atom(st, k)
            if b is None or b in users or b not in live:
                continue
            if t is not None and isconst(sub(k, var(b))) is False:
                continue
            if not isconst(sub(k, var(b))):
                continue
            kv = self.keepval(st, v, n, t)
            if kv is not None:
                keep[k] = (kv, n, t)
            else:
                fresh[k] = (None, n, t)
        # rename
        order, seen = [], set()
        rt = root.lin[1][0][0] if root is not None else None
        wl = [rt] if rt is not None else []
        while wl:
            a = wl.pop(0)
            if a in seen:
                continue
            seen.add(a)
            order.append(a)
            for k in sorted((k for k in keep if self.eng.base_atom(st, k) == a), key=lambda k: k[0]):
                v = keep[k][0]
                if v.lin is not None:
                    for x, _ in v.lin[1]:
                        if ATOMS[x].kind == 'heap' and x in live and x not in seen:
                            wl.append(x)
        order += sorted(live - seen)
        cnt, m = {}, {}
        for a in order:
            site = w.site[a][0]
            o = cnt.get(site, 0)
            cnt[site] = o + 1
            b = w.heap.get((site, o))
            m[a] = b
        ren = {a: b for a, b in m.items() if a != b}
        sub1 = (lambda x: L.subst(x, {a: var(b) for a, b in ren.items()}, {})) if ren else (lambda x: x)
        n = State()
        n.frames = ({},)
        n.trail = st.trail
        for k, (v, z, t) in keep.items():
            n.mem[sub1(k)] = (V(sub1(v.lin) if v.lin is not None else None, v.pred, v.fn), z, t)
        fr = {}
        for k, (v, z, t) in fresh.items():
            fr[sub1(k)] = (z, t)
        n.zero = frozenset(ren.get(a, a) for a in st.zero if a in live)
        n.ts['live'] = tuple(sorted(m[a] for a in live))
        n.ts['pools'] = tuple(sorted(((ren.get(q[0], q[0]), q[1], sub1(q[2]), q[3], q[4]) for q in st.ts.get('pools', ())), key=repr))
        key = (n.ts['live'], n.ts['pools'], tuple(sorted(n.zero)),
               frozenset((k, repr(v.lin) if v.lin is not None else v.fn, z) for k, (v, z, t) in n.mem.items()))
        return n, fr, key, (V(sub1(root.lin)) if root is not None else None)

    def keepval(self, st, v, n, t):
        if v is None:
            return None
        if v.fn:
            return v
        if v.lin is not None and n == 8 and self.is_ptr(v, t):
            return V(v.lin, tag=None)
        nm = t[1] if t is not None else None
        if t is not None and (t in self.control or nm in self.control):
            mode = self.control.get(t, self.control.get(nm)) if isinstance(self.control, dict) else 'v'
            if v.lin is None:
                d = st.decide(v.pred) if v.pred is not None else None
                return C(1 if d else 0) if d is not None else None
            if isconst(v.lin):
                return V(v.lin) if mode == 'v' else C(1 if v.lin[0] else 0) if mode == 'nz' else V(v.lin)
            if st.entails(addc(v.lin, -1)):
                return V(var(self.nz(n)))
            if st.entails(scale(v.lin, -1)) and st.entails(v.lin):
                return VZ
        return None

    def is_ptr(self, v, t):
        if isconst(v.lin):
            if v.lin[0] != 0:
                return False
            if t is None:
                return True
            ty = self.eng.field_type(t)
            while ty and ty.get('k') == 'array':
                ty = ty.get('of')
            return bool(ty and ty.get('k') == 'ptr')
        if len(v.lin[1]) != 1:
            return False
        a, k = v.lin[1][0]
        return k == 1 and ATOMS[a].kind == 'heap' and a not in self.w.user

    _nz = {}

    def nz(self, n):
        a = self._nz.get(n)
        if a is None:
            a = self._nz[n] = new_atom(('nonzero',), 1, (1 << (8 * n)) - 1 if n < 8 else (1 << 63) - 1)
        return a

    def merge(self, st, root):
        """enter a state between calls; returns the representative if it is new or has grown"""
        n, fr, key, rt = self.canon(st, root)
        e = self.states.get(key)
        if e is None:
            if len(self.states) >= self.maxstates:
                raise AnalysisError('more than %d states between calls' % self.maxstates)
            e = self.states[key] = {'st': n, 'fresh': {}, 'root': rt, 'n': len(self.states)}
            new = True
        else:
            new = False
        for k, zt in fr.items():
            if k not in e['fresh']:
                e['fresh'][k] = zt
                new = True
        return e if new else None

    def start(self, e):
        """a fresh copy of a representative, its unknown fields set to new unknowns"""
        s = e['st'].copy()
        for k, (z, t) in e['fresh'].items():
            if k in s.mem:
                continue
            ft = self.eng.field_type(t) if t is not None else None
            while ft and ft.get('k') == 'array':
                ft = ft.get('of')
            if ft and ft.get('k') == 'ptr':
                v = self.eng.fresh_ptr(('between', t))
            else:
                v = self.eng.fresh(('between',) + ('%s.%s' % t if t else 'mem',), z * 8, bool(ft and ft.get('signed')))
            s.mem[k] = (v, z, t)
        return s

    def explore(self, creators, ops, budget=None):
        t0 = time.time()
        wl = []
        for op in creators:
            s = new_state()
            for s2, v in self.run(op, s, None):
                self.after(op, s2, v, True)
                if v.lin == L.ZERO:
                    continue
                e = self.merge(s2, V(v.lin))
                if e:
                    wl.append(e)
        inq = {id(e) for e in wl}
        while wl:
            if budget and time.time() - t0 > budget:
                raise AnalysisError('time budget of the exploration exhausted (%d states)' % len(self.states))
            e = wl.pop(0)
            inq.discard(id(e))
            for op in ops:
                s = self.start(e)
                if getattr(op, 'guard', None) and not op.guard(self, s, e['root']):
                    continue
                for s2, v in self.run(op, s, e['root']):
                    self.after(op, s2, v, False)
                    if op.frees:
                        continue
                    x = self.merge(s2, e['root'])
                    if x and id(x) not in inq:
                        wl.append(x)
                        inq.add(id(x))

    # ---- rules at the end of a call ----
    def after(self, op, st, v, created):
        for h in self.hooks:
            h(self, op, st, v, created)


def havoc_fix():
    pass
