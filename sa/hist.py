"""Histories of API calls on one context object, by explicit-state exploration (see ex.py).

The exported functions are explored with their internal helpers in line. A state between calls keeps exactly: which heap
objects are live and which pointer fields point to them, which thread pools may be running a job, and the small control
fields of the context; every other number is unknown. Every operation is applied to every reachable state until nothing
new appears: what is shown holds after every sequence of calls, with every allocation failing or not in it."""
import multiprocessing, os, time
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from load import AnalysisError
import effects
from ex import Eng, Pol, St, FULL, BIG, zcover, zsub, bits_of
from api import POOLFN, ALLOC, API_FILES, base, retty, derefs, fallible
from core import path_off, show_trail

MAXERR = 20


def iserr(v):
    return v.__class__ is int and v > FULL - 64


def first_error(mod):
    """smallest size_t for which FL2_isError is true, from its comparison with a constant"""
    f = mod.fn('FL2_isError')
    r = []
    for b in f.blocks:
        for i in b:
            if i.op == 'icmp' and i.ops[1][0] == 'c' and i.d['w'] == 64:
                c = i.ops[1][1] & FULL
                r.append(c + 1 if i.d['pred'] in ('ugt', 'ule') else c)
    if len(r) != 1 or r[0] < FULL - 200:
        raise AnalysisError('cannot tell the range of error codes from FL2_isError')
    return r[0]


class World(Pol):
    flags = ('failed', 'err')

    def __init__(self, mod, eff, threads, control, heavy=(), inline=()):
        self.mod, self.eff, self.T = mod, eff, threads
        self.control = control
        self.alloc_fns = {n for n in eff.ext if eff.ext[n] & set(ALLOC)}
        self.derefs, self.fall = derefs(mod), fallible(mod)
        self.heavy, self.extra = set(heavy), set(inline)
        self.op, self.maxord = None, 8
        self.site, self.types = {}, {}
        self.fork_now, self.run_async = True, True
        self.escapes = set()
        self.jobfns = None
        self.nolink, self.opaque = set(), set()
        # (function, allocator) -> number of live objects beyond which the allocation is taken to fail
        self.maxof, self.bounded = {}, set()
        self.lost = set()
        self.rconst = {}

    # ---- scope ----
    def inline(self, eng, name):
        f = self.mod.fns.get(name)
        if name in self.heavy:
            return False
        if base(f.file) in API_FILES or name in self.alloc_fns or name in self.extra:
            return True
        return not f.loops and len(f.insts) <= 60 and base(f.file) != 'xxhash.c'

    def control_tag(self, t):
        return t in self.control or t[1] in self.control

    def coarse(self, name):
        f = self.mod.fns[name]
        if base(f.file) in API_FILES:
            return 0
        return 1 if name in self.alloc_fns and not f.loops or any(c.d['callee'][0] == 'f' and c.d['callee'][1] in ALLOC for c in f.calls()) else 2

    def keep_ptr(self, eng, st, name, e):
        self.lost.add((name, e[2]))
        return False

    def escape(self, eng, st, i, v):
        self.escapes.add(i.where())

    def stored(self, eng, st, o, v, size, tag):
        if tag and o[0] == 'h' and (v.__class__ is int or v[0] == 't'):
            md = self.control.get(tag, self.control.get(tag[1]))
            r = eng.rng(st, v)
            m = (1 << (8 * size)) - 1
            if md in ('nz', 'nzc'):
                # nzc: only becomes zero by the assignment of the constant
                n = (1, m) if r[0] > 0 or md == 'nzc' and v.__class__ is not int else (0, 0) if r[1] == 0 else (0, m)
                if r != n:
                    return eng.fresh(st, 64, *n)
            elif md in ('op', 'res') and not (md == 'res' and r == (0, 0)):
                # a size or an error code
                n = (0, eng.errlo - 1) if r[1] < eng.errlo else (eng.errlo, FULL) if r[0] >= eng.errlo else (0, FULL)
                if r != n:
                    return eng.fresh(st, 64, *n)
        return v

    def exists(self, st, o):
        return o[0] != 'h' or o in self.live(st)

    def jobs(self):
        if self.jobfns is None:
            self.jobfns = set()
            for f in self.mod.defined():
                for c in f.calls():
                    n = c.d['callee'][1] if c.d['callee'][0] == 'f' else None
                    if n in ('FL2POOL_add', 'FL2POOL_addRange'):
                        self.jobfns |= {o[1] for o in c.ops if o[0] == 'f'}
        return self.jobfns

    def forget(self, eng, st, k, e):
        return not self.kept(eng, e)

    def kept(self, eng, e):
        """value kept when a function returns / between calls"""
        v, n, tag = e
        if v.__class__ is tuple and v[0] in ('p', 'f'):
            # a pointer into the middle of an object is a data cursor, not a link between objects
            return v[0] == 'f' or v[2] == 0
        if tag is None:
            return v == 0 and n == 8
        if tag in self.control or tag[1] in self.control:
            return True
        return eng.isptr(e) and v == 0 and tag not in self.nolink

    # ---- heap objects ('h', site, ordinal) ----
    def otype(self, site):
        """structure type of the objects allocated at a call instruction"""
        if site in self.types:
            return self.types[site]
        f = self.mod.fns[site[0]]
        r = None
        for b in f.blocks:
            for i in b:
                if i.op == 'getelementptr' and i.ops[0] == ['i', site[1]] and i.d.get('sty', '').startswith('%'):
                    r = i.d['sty'][1:]
        self.types[site] = r
        return r

    def layout(self, tname, off=0, tagged=None, n=None):
        """scalar fields [(off, size, tag, isptr)] of a structure; a trailing [1] array is extended to the thread count"""
        s = self.mod.structs.get(tname)
        r = []
        if not s:
            return r
        fs = s['fields']
        for k, f in enumerate(fs):
            if f.get('bf'):
                continue
            t, o = f['type'], off + f['off']
            cnt, es = 1, f['bits'] // 8
            if t.get('k') == 'array':
                el = t['of']
                tot = f['bits'] // 8
                es = self.tsize(el)
                if not es:
                    continue
                cnt = tot // es
                if k == len(fs) - 1 and cnt == 1:
                    cnt = self.T
                t = el
            if cnt > 16:
                continue
            for j in range(cnt):
                if t.get('k') == 'struct':
                    r += self.layout(t['name'], o + j * es)
                elif t.get('k') in ('int', 'ptr', 'enum', 'bool'):
                    r.append((o + j * es, es, (tname, f['name']), t['k'] == 'ptr'))
        return r

    def tsize(self, t):
        if t.get('k') == 'struct':
            s = self.mod.structs.get(t['name'])
            return s['size'] if s else 0
        if t.get('k') == 'ptr':
            return 8
        return t.get('bytes') or t.get('bits', 0) // 8

    def tag_ranges(self, eng, o, tags):
        t = self.otype(o[1])
        return [(off, n) for off, n, tag, p in self.layout(t)] if False else [(off, n) for off, n, tag, p in (self.layout(t) if t else []) if tag in tags]

    def live(self, st):
        return st.ts.get('live', ())

    def new_obj(self, eng, st, i, what):
        site = (i.fn.name, i.id)
        live = set(self.live(st))
        used = {e[0][1] for e in st.mem.values() if e[0].__class__ is tuple and e[0][0] == 'p'}
        for fr in st.fr:
            for v in fr.values():
                if v.__class__ is tuple and v[0] == 'p':
                    used.add(v[1])
        for n in range(self.maxord):
            o = ('h', site, n)
            if o not in live and o not in used:
                break
        else:
            raise AnalysisError('more than %d live objects allocated at %s after\n%s' % (self.maxord, i.where(), '\n'.join(show_trail(st.trace(40)))))
        self.site[o] = '%s%s' % (what, i.where())
        eng.clear(st, o)
        st.ts['live'] = tuple(sorted(live | {o}))
        return o

    def chk(self, eng, st, i, kind, ok, msg):
        eng.check(st, i, kind, ok, msg if ok else '%s [in a call of %s]' % (msg, self.op))
        return ok

    def ptr_ok(self, eng, st, i, p, what):
        if p.__class__ is int:
            self.chk(eng, st, i, 'null', False, '%s through a null pointer' % what)
            st.dead = True
            return False
        if p[0] == 'p' and p[1][0] == 'h':
            ok = p[1] in self.live(st)
            self.chk(eng, st, i, 'uaf', ok, '%s of memory from %s which has been freed' % (what, self.site.get(p[1])))
            if not ok:
                st.dead = True
                return False
        self.chk(eng, st, i, 'null', True, '')
        return True

    def load(self, eng, st, i, p, size):
        if size != 0:
            self.ptr_ok(eng, st, i, p, 'read')

    def store(self, eng, st, i, p, size, v):
        if size != 0:
            self.ptr_ok(eng, st, i, p, 'write')

    # ---- calls ----
    def call(self, eng, st, i, name, args):
        if name in ALLOC:
            return self.do_alloc(eng, st, i, name, args)
        if name in POOLFN:
            return getattr(self, 'do_' + name[8:])(eng, st, i, args)
        if name is None:
            return None
        f = self.mod.fns.get(name)
        if f is None or f.decl or self.inline(eng, name):
            return None
        for k in self.derefs.get(name, ()):
            if k < len(args):
                if not self.ptr_ok(eng, st, i, args[k], 'use by %s' % name):
                    return []
        eng.havoc_call(st, i, name, args)
        if name in self.fall and i.ty == 'i64':
            o = st.copy()
            o.note('%s: %s fails' % (i.where(), name))
            o.ts['err'] = 1
            return [(st, eng.fresh(st, 64, 0, eng.errlo - 1)), (o, FULL)]
        cs = self.ret_consts(f)
        if cs:
            r = []
            for c in cs:
                s = st.copy() if c != cs[-1] else st
                s.note('%s: %s returns %d' % (i.where(), name, c))
                r.append((s, c))
            return r
        return [(st, None)]

    def ret_consts(self, f):
        """the constants a function chooses its result from, if there are no others"""
        if f.name not in self.rconst:
            out, seen = set(), set()

            def walk(o):
                if o[0] == 'c':
                    out.add(o[1] & ((1 << o[2]) - 1))
                    return True
                if o[0] == 'i' and f.insts[o[1]].op == 'phi':
                    if o[1] in seen:
                        return True
                    seen.add(o[1])
                    return all(walk(x[0]) for x in f.insts[o[1]].ops)
                return o[0] == 'i' and f.insts[o[1]].op == 'select' and all(walk(x) for x in f.insts[o[1]].ops[1:])
            ok = True
            for b in f.blocks:
                if b[-1].op == 'ret':
                    ok = ok and bool(b[-1].ops) and walk(b[-1].ops[0])
            self.rconst[f.name] = sorted(out) if ok and 1 < len(out) <= 6 else None
        return self.rconst[f.name]

    def do_alloc(self, eng, st, i, name, args):
        if name == 'realloc':
            raise AnalysisError('realloc at %s is not modelled' % i.where())
        if name == 'free':
            p = args[0]
            if p == 0:
                return [(st, None)]
            if p.__class__ is tuple and p[0] == 't' and eng.tag(i.fn, i.fn.insts[i.ops[0][1]].ops[0] if i.ops[0][0] == 'i' and i.fn.insts[i.ops[0][1]].op == 'load' else ['n']) in self.opaque:
                return [(st, None)]
            if p.__class__ is tuple and p[0] == 't':
                # an unknown pointer: only harmless if it can be nothing of ours
                self.chk(eng, st, i, 'free', False, 'frees an unknown pointer')
                return [(st, None)]
            h = p.__class__ is tuple and p[0] == 'p' and p[1][0] == 'h' and p[2] == 0
            self.chk(eng, st, i, 'free', h, 'frees a pointer which is no allocated object')
            if h:
                o = p[1]
                ok = o in self.live(st)
                self.chk(eng, st, i, 'dfree', ok, 'frees memory from %s again' % self.site.get(o))
                self.busy(eng, st, i, 'memory from %s' % self.site.get(o))
                self.drop(eng, st, o)
            return [(st, None)]
        o = st.copy()
        o.note('%s: %s returns NULL' % (i.where(), name))
        o.ts['failed'] = 1
        if (i.fn.name, name) in self.maxof:
            # freed objects which are still referenced count, so that a use of them is seen
            site = (i.fn.name, i.id)
            if sum(1 for x in self.live(st) if x[1] == site) >= self.maxof[(i.fn.name, name)]:
                self.bounded.add(i.where())
                return [(o, 0)]
        a = self.new_obj(eng, st, i, '')
        if name == 'calloc':
            st.zero = tuple(sorted(st.zero + ((a, 0, BIG),), key=repr))
        return [(st, ('p', a, 0)), (o, 0)]

    def busy(self, eng, st, i, what):
        # a range of jobs works on separate instances: code which the jobs run too acts on its own instance
        q = [x for x in st.ts.get('pools', ()) if x[4] and not (x[3] is not None and i.fn.name in self.eff.reach([x[1]]))]
        self.chk(eng, st, i, 'busyfree', not q or 'job' in st.ts, 'frees %s while %s may be running in another thread' % (what, q[0][1] if q else ''))

    def drop(self, eng, st, o):
        st.ts['live'] = tuple(x for x in self.live(st) if x != o)
        eng.clear(st, o)

    # ---- thread pools; a pending job is (pool, function, opaque, first, count); count 0: it has completed, nobody has waited for it ----
    def do_create(self, eng, st, i, args):
        n = args[0]
        if n == 0:
            return [(st, 0)]
        o = st.copy()
        o.note('%s: the thread pool cannot be created' % i.where())
        o.ts['failed'] = 1
        r = []
        if n.__class__ is not int:
            z = st.copy()
            if eng.assume(z, ('cmp', 'eq', n, 0, 64), True):
                r.append((z, 0))
            if not eng.assume(st, ('cmp', 'eq', n, 0, 64), False):
                return r
        a = self.new_obj(eng, st, i, 'pool ')
        return r + [(st, ('p', a, 0)), (o, 0)]

    def poolarg(self, eng, st, i, p, what):
        if p == 0:
            return None
        if not (p.__class__ is tuple and p[0] == 'p' and p[1][0] == 'h'):
            raise AnalysisError('%s: cannot identify the pool at %s' % (what, i.where()))
        if not self.ptr_ok(eng, st, i, p, what):
            return None
        return p[1]

    def do_sizeof(self, eng, st, i, args):
        return [(st, None)]

    def do_free(self, eng, st, i, args):
        a = self.poolarg(eng, st, i, args[0], 'FL2POOL_free')
        if st.dead:
            return []
        if a is None:
            return [(st, None)]
        r = []
        for s in self.finish(eng, st, a):
            self.busy(eng, s, i, 'a thread pool')
            self.drop(eng, s, a)
            r.append((s, None))
        return r

    def do_add(self, eng, st, i, args):
        return self.add(eng, st, i, args[0], args[1], args[2], None, None)

    def do_addRange(self, eng, st, i, args):
        return self.add(eng, st, i, args[0], args[1], args[2], args[3], args[4])

    def setpool(self, st, a, q):
        st.ts['pools'] = tuple(sorted([x for x in st.ts.get('pools', ()) if x[0] != a] + ([q] if q else []), key=repr))

    def add(self, eng, st, i, p, fn, opaque, first, end):
        a = self.poolarg(eng, st, i, p, 'adding a job')
        if st.dead:
            return []
        if a is None:
            if first is None:
                self.chk(eng, st, i, 'nopool', False, 'a job is added to a pool which does not exist')
            else:
                d = eng.cmp(st, 'uge', first, end, 64)
                self.chk(eng, st, i, 'nopool', d is True, 'jobs are added to a pool which does not exist although the range may not be empty')
            return [(st, None)]
        if fn.__class__ is not tuple or fn[0] != 'f':
            raise AnalysisError('cannot resolve the job function at %s' % i.where())
        self.chk(eng, st, i, 'addbusy', not any(q[0] == a and q[4] for q in st.ts.get('pools', ())),
                 'a job is added to a pool whose previous jobs have not been waited for')
        jobs = []
        if first is None:
            jobs.append((st, None, 1))
        else:
            if first.__class__ is not int:
                raise AnalysisError('first job index is no constant at %s' % i.where())
            cur = st
            z = cur.copy()
            if eng.assume(z, ('cmp', 'ule', end, first, 64), True):
                jobs.append((z, first, 0))
            ok = eng.assume(cur, ('cmp', 'ugt', end, first, 64), True)
            k = 1
            while ok and first + k <= self.T:
                z = cur.copy()
                if eng.assume(z, ('cmp', 'eq', end, first + k, 64), True):
                    jobs.append((z, first, k))
                ok = eng.assume(cur, ('cmp', 'ne', end, first + k, 64), True)
                k += 1
            self.chk(eng, cur, i, 'range', not ok, 'the range of jobs may exceed the number of threads of the context')
        r = []
        for s, f0, n in jobs:
            if n == 0:
                r.append((s, None))
                continue
            if first is None and self.fork_now:
                o = s.copy()
                o.note('%s: %s runs to its end at once' % (i.where(), fn[1]))
                self.setpool(o, a, None)
                for x in self.run_jobs(eng, o, (a, fn[1], opaque, f0, n)):
                    self.setpool(x, a, (a, fn[1], opaque, f0, 0))
                    r.append((x, None))
            self.setpool(s, a, (a, fn[1], opaque, f0, n))
            r.append((s, None))
        return r

    def run_jobs(self, eng, st, q):
        a, fn, opaque, first, n = q
        sts = [st]
        f = self.mod.fn(fn)
        for k in range(n):
            out = []
            for s in sts:
                nested = 'job' in s.ts
                if not nested:
                    s.ts['outer'] = (s.ts.get('failed'), s.ts.get('err'))
                    s.ts['failed'] = s.ts['err'] = None
                s.ts['job'] = 1
                arg = first + k if first is not None else eng.fresh(s, 32)
                for x, v in eng.run(f, [opaque, arg], s.copy() if len(sts) > 1 or n > 1 else s):
                    if not nested:
                        self.job_done(eng, x, f, first, opaque)
                        o = x.ts.pop('outer', (None, None))
                        x.ts['failed'], x.ts['err'] = (x.ts.get('failed') or o[0]) if first is not None else o[0], (x.ts.get('err') or o[1]) if first is not None else o[1]
                        x.ts.pop('job', None)
                    out.append(x)
            sts = out
        return sts

    def job_done(self, eng, s, f, first, opaque):
        pass

    def finish(self, eng, st, a):
        q = [x for x in st.ts.get('pools', ()) if x[0] == a]
        if not q:
            return [st]
        self.setpool(st, a, None)
        return self.run_jobs(eng, st, q[0])

    def do_waitAll(self, eng, st, i, args):
        a = self.poolarg(eng, st, i, args[0], 'FL2POOL_waitAll')
        if st.dead:
            return []
        if a is None or not any(x[0] == a for x in st.ts.get('pools', ())):
            return [(st, 0)]
        t = args[1]
        r = []
        if t != 0:
            o = st.copy()
            if t.__class__ is int or eng.assume(o, ('cmp', 'ne', t, 0, 64), True):
                o.note('%s: the wait times out' % i.where())
                r.append((o, 1))
        for s in self.finish(eng, st, a):
            r.append((s, 0))
        return r

    def ret(self, eng, st, f, v):
        if len(eng.stack) >= 2 and f.name in self.fall and iserr(v) and not st.ts.get('err'):
            st.ts['err'] = 1
            st.note('%s returns an error' % f.name)
        if v.__class__ is tuple and v[0] == 't' and f.name in self.fall:
            r = eng.rng(st, v)
            if r[1] < eng.errlo:
                n = (min(r[0], 1), eng.errlo - 1)
                if r != n:
                    return eng.fresh(st, 64, *n)
        return v


class Op:
    def __init__(self, fn, args, name=None, frees=False, kind='', pre=None, guard=None, ptr=False):
        self.fn, self.args, self.name, self.frees, self.kind, self.pre, self.guard, self.ptr = fn, args, name or fn, frees, kind, pre, guard, ptr


class History:
    def __init__(self, mod, world, maxstates=6000):
        self.mod, self.w = mod, world
        self.eng = Eng(mod, world, world.eff)
        self.eng.errlo = first_error(mod)
        self.states, self.maxstates, self.runs, self.rets = {}, maxstates, 0, 0
        self.hooks, self.dropwhen, self.keep = [], None, None
        self.tm = {}
        self.findings, self.counts, self.sent, self.fsent = {}, {}, {}, set()

    def otype_of(self, p):
        return self.w.otype(p[1][1]) if p.__class__ is tuple and p[0] == 'p' and p[1][0] == 'h' else None

    def field(self, st, root, sname, path):
        """value of a field, None if not in the state"""
        off, tag, bits, t = path_off(self.mod, sname, path)
        e = st.mem.get((root[1], root[2] + off))
        if e is not None:
            return self.eng.norm(st, e[0])
        if zcover(st.zero, root[1], root[2] + off, bits // 8):
            return 0
        return None

    def setfield(self, st, root, sname, path, v):
        off, tag, bits, t = path_off(self.mod, sname, path)
        if v is None:
            st.mem.pop((root[1], root[2] + off), None)
            st.zero = zsub(st.zero, root[1], root[2] + off, root[2] + off + bits // 8)
        else:
            st.mem[(root[1], root[2] + off)] = (v, bits // 8, tag)

    def mkargs(self, st, op, root):
        eng, r = self.eng, []
        for k, a in enumerate(op.args):
            if a == 'ctx':
                r.append(root)
            elif a == 'buf':
                r.append(eng.fresh(st, 64, 4096))
            elif a == 'size':
                r.append(eng.fresh(st, 64, 0, (1 << 62)))
            elif a == 'int':
                r.append(eng.fresh(st, 32))
            elif a in ('u32', 'u8'):
                r.append(eng.fresh(st, int(a[1:])))
            elif a in ('in', 'out'):
                sn = 'FL2_inBuffer' if a == 'in' else 'FL2_outBuffer'
                o = ('p', ('u', a), 0)
                eng.clear(st, o[1])
                self.setfield(st, o, sn, 'src' if a == 'in' else 'dst', eng.fresh(st, 64, 4096))
                r.append(o)
            elif a == 'obj':
                o = ('p', ('u', 'obj%d' % k), 0)
                eng.clear(st, o[1])
                r.append(o)
            else:
                r.append(a)
        return r

    def run(self, op, st, root):
        w = self.w
        w.op = op.name
        st.note('call of %s' % op.name)
        for k in ('job', 'outer', 'joberr'):
            st.ts.pop(k, None)
        st.ts['failed'] = st.ts['err'] = None
        self.runs += 1
        args = self.mkargs(st, op, root)
        if op.pre:
            op.pre(self, st, args)
        t = time.time()
        r = self.eng.run(self.mod.fn(op.fn), args, st)
        self.rets += len(r)
        a = self.tm.setdefault(op.name, [0, 0, 0, 0])
        dt = time.time() - t
        a[0] += 1
        a[1] += dt
        a[2] += len(r)
        a[3] = max(a[3], dt)
        return r

    def canon(self, st, root):
        eng, w = self.eng, self.w
        st = st.copy()
        if self.dropwhen:
            self.dropwhen(self, st, root)
        live = set(w.live(st))
        # fields which still have the zero of calloc become explicit where they matter
        for o in {z[0] for z in st.zero}:
            t = w.otype(o[1]) if o[0] == 'h' else None
            if t:
                for off, n, tag, p in w.layout(t):
                    if (o, off) not in st.mem and zcover(st.zero, o, off, n) and (p or tag in w.control or tag[1] in w.control):
                        st.mem[(o, off)] = (0, n, tag)
                st.zero = zsub(st.zero, o, -BIG, BIG)
        keep = {}
        for k, e in st.mem.items():
            if k[0][0] != 'h' or k[0] not in live:
                continue
            v = eng.norm(st, e[0])
            e = (v, e[1], e[2])
            if not w.kept(eng, e):
                continue
            if e[2] and not eng.isptr(e) and w.control.get(e[2], w.control.get(e[2][1])) == 'op':
                continue
            if v.__class__ is tuple and v[0] == 't':
                md = w.control.get(e[2], w.control.get(e[2][1])) if e[2] else None
                r = st.iv.get(v[1], (0, FULL))
                full = (1 << (8 * e[1])) - 1
                if eng.isptr(e) or md is None:
                    continue
                if r == (0, full):
                    continue
                if md in ('nz', 'nzc'):
                    if r[0] == 0:
                        continue
                    r = (1, full)
            elif v.__class__ is int and v > 1 and not eng.isptr(e):
                md = w.control.get(e[2], w.control.get(e[2][1])) if e[2] else None
                if md in ('nz', 'nzc'):
                    r = (1, (1 << (8 * e[1])) - 1)
                    v = ('t', 'x')
                else:
                    r = None
            elif v == 1 and e[2] and w.control.get(e[2], w.control.get(e[2][1])) in ('nz', 'nzc'):
                r, v = (1, (1 << (8 * e[1])) - 1), ('t', 'x')
            else:
                r = None
            keep[k] = (v, e[1], e[2], r if v.__class__ is tuple and v[0] == 't' else None)
        # objects are renamed in the order in which they are reached
        order, seen, wl = [], set(), [root[1]] if root else []
        byo = {}
        for k in sorted(keep, key=lambda k: (k[1], repr(k[0]))):
            byo.setdefault(k[0], []).append(k)
        while wl:
            o = wl.pop(0)
            if o in seen:
                continue
            seen.add(o)
            order.append(o)
            for k in byo.get(o, ()):
                v = keep[k][0]
                if v.__class__ is tuple and v[0] == 'p' and v[1][0] == 'h' and v[1] in live:
                    wl.append(v[1])
        order += sorted(live - seen)
        cnt, m = {}, {}
        for o in order:
            c = cnt.get(o[1], 0)
            cnt[o[1]] = c + 1
            m[o] = ('h', o[1], c)
            w.site.setdefault(m[o], w.site.get(o))

        def rv(v):
            if v.__class__ is tuple and v[0] == 'p':
                return ('p', m.get(v[1], v[1]), v[2])
            return v
        n = St()
        n.trail = st.trail
        sig = []
        for k, (v, sz, tag, r) in keep.items():
            kk = (m[k[0]], k[1])
            if r is not None:
                t = eng.fresh(n, 64, r[0], r[1])
                n.mem[kk] = (t, sz, tag)
                sig.append((kk, ('t', r)))
            else:
                # pointers to freed objects or to the caller's memory carry no state
                if v.__class__ is tuple and v[0] == 'p' and v[1][0] != 'h':
                    continue
                n.mem[kk] = (rv(v), sz, tag)
                sig.append((kk, rv(v) if not (v.__class__ is tuple and v[0] == 'p' and v[1] not in live) else ('stale',)))
        n.ts['live'] = tuple(sorted(m[o] for o in live))
        n.ts['pools'] = tuple(sorted(((m[q[0]], q[1], rv(q[2]), q[3], q[4]) for q in st.ts.get('pools', ()) if q[4]), key=repr))
        key = (n.ts['live'], n.ts['pools'], frozenset(sig))
        return n, key, ('p', m[root[1]], root[2]) if root else None

    def merge(self, st, root):
        n, key, rt = self.canon(st, root)
        if key in self.states:
            return None
        if len(self.states) >= self.maxstates:
            raise AnalysisError('more than %d states between calls' % self.maxstates)
        e = self.states[key] = (n, rt)
        return e

    def found(self, rule, key, i, msg, st=None):
        """a violation reported by a hook; i: instruction, function or None"""
        k = (rule, key)
        if k not in self.findings:
            f = i.fn if hasattr(i, 'bb') else i
            self.findings[k] = {'file': i.file if i else '?', 'line': i.line if i else 0, 'fn': f.name if f else '?', 'msg': msg,
                                'trail': show_trail(st.trace(80))[-25:] if st else []}

    def count(self, rule, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n

    def step(self, e, creators=None):
        """all operations applied to one state: list of new (key, state, root)"""
        new, have = [], set()

        def add(s2, root):
            n, key, rt = self.canon(s2, root)
            if key not in have and key not in self.states:
                have.add(key)
                new.append((key, n, rt))
        if e is None:
            for op in creators:
                for s2, v in self.run(op, St(), None):
                    self.after(op, s2, v, None, True)
                    if v != 0 and op.ptr and (self.keep is None or self.keep(self, s2, v)):
                        add(s2, v)
            return new
        st, root = e
        for op in self.ops:
            s = st.copy()
            s.mem, s.iv = dict(st.mem), dict(st.iv)
            if op.guard and not op.guard(self, s, root):
                continue
            for s2, v in self.run(op, s, root):
                self.after(op, s2, v, (st, root), False)
                if not op.frees:
                    add(s2, root)
        return new

    def pack(self):
        """what has been recorded since the last call, in picklable form"""
        eng, obl = self.eng, {}
        for k, o in eng.obl.items():
            f = o['fail']
            if f and 'shown' not in f:
                f = o['fail'] = {'msg': f['msg'], 'stack': f['stack'], 'trail': show_trail(f['trail'])[-25:], 'shown': 1}
            d = self.sent.get(k)
            if d != (o['n'], bool(f)):
                obl[k] = dict(o, n=o['n'] - (d[0] if d else 0))
                self.sent[k] = (o['n'], bool(f))
        r = (obl, self.findings, self.counts, set(eng.fns) - self.fsent, eng.steps, self.runs, self.rets, self.tm, set(self.w.escapes) | {str(x) for x in self.w.lost})
        self.fsent |= eng.fns
        self.findings, self.counts, self.runs, self.rets, self.tm = {}, {}, 0, 0, {}
        eng.steps = 0
        return r

    def unpack(self, r):
        obl, fnd, cnt, fns, steps, runs, rets, tm, esc = r
        for k, o in obl.items():
            a = self.eng.obl.get(k)
            if a is None:
                self.eng.obl[k] = dict(o)
            else:
                a['n'] += o['n']
                a['fail'] = a['fail'] or o['fail']
        for k, f in fnd.items():
            self.allfound.setdefault(k, f)
        for k, n in cnt.items():
            self.allcounts[k] = self.allcounts.get(k, 0) + n
        self.eng.fns |= fns
        self.total[0] += steps
        self.total[1] += runs
        self.total[2] += rets
        self.esc |= esc
        for k, v in tm.items():
            a = self.alltm.setdefault(k, [0, 0, 0, 0])
            for j in range(3):
                a[j] += v[j]
            a[3] = max(a[3], v[3])

    stop = None

    def explore(self, creators, ops, budget=None, procs=None):
        global _H
        t0 = time.time()
        stopping = False
        self.ops, self.total, self.allfound, self.allcounts, self.alltm, self.esc = ops, [0, 0, 0], {}, {}, {}, set()
        wl = []

        def take(new):
            for key, n, rt in new:
                if key not in self.states:
                    self.states[key] = (n, rt)
                    wl.append((n, rt))
                    if len(self.states) > self.maxstates:
                        raise AnalysisError('more than %d states between calls' % self.maxstates)
        take(self.step(None, creators))
        self.unpack(self.pack())
        _H = self
        procs = procs or min(8, os.cpu_count() or 1)
        with ProcessPoolExecutor(procs, mp_context=multiprocessing.get_context('fork')) as ex:
            run = set()
            try:
                while wl or run:
                    while wl and len(run) < procs + 2:
                        n, rt = wl.pop(0)
                        run.add(ex.submit(_task, freeze(n), rt))
                    done, run = wait(run, return_when=FIRST_COMPLETED)
                    for f in done:
                        new, rec = f.result()
                        self.unpack(rec)
                        take([(k, thaw(n), rt) for k, n, rt in new])
                    if self.stop is not None and not stopping and self.stop(self):
                        # a violation has been found: do not explore all of what follows from it
                        stopping, budget = True, time.time() - t0 + 10
                    if budget and time.time() - t0 > budget:
                        raise AnalysisError('exploration ended early (%d states)' % len(self.states))
            except BaseException:
                for p in list(ex._processes.values()):
                    p.kill()
                raise
        self.time = time.time() - t0

    def after(self, op, st, v, start, created):
        for h in self.hooks:
            h(self, op, st, v, start, created)


_H = None


def freeze(s):
    t, c = [], s.trail
    while c is not None and len(t) < 60:
        t.append(c[0])
        c = c[1]
    return s.mem, s.zero, s.iv, s.ts, show_trail(reversed(t))


def thaw(x):
    s = St()
    s.mem, s.zero, s.iv, s.ts = x[:4]
    for n in x[4]:
        s.note(n)
    return s


def _task(x, rt):
    h = _H
    st = thaw(x)
    # unknowns of this process start above those of the state
    h.eng.n = max([h.eng.n] + list(st.iv))
    new = h.step((st, rt))
    for k, n, r in new:
        h.states[k] = None
    return [(k, freeze(n), r) for k, n, r in new], h.pack()
