"""Thread pool: every index of a range is run exactly once, waiters return only when all are done, shutdown ends every thread."""
from core import *

LEVEL = 'proof'
EXPLANATION = ('Thread-modular abstract interpretation of the worker pool: each pool function is analysed alone; whenever it acquires the '
               'mutex or returns from a wait the shared fields take arbitrary values, so everything shown holds for every schedule. '
               'Each critical section must be one of the allowed transitions of (next index, range end, busy count).')
S = 'FL2POOL_ctx_s'
SHARED = ('numThreadsBusy', 'queueIndex', 'queueEnd', 'function', 'opaque', 'shutdown')
SYNC = {'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_cond_wait', 'FL2_pthread_cond_timedwait',
        'pthread_cond_timedwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_mutex_init', 'pthread_cond_init',
        'pthread_mutex_destroy', 'pthread_cond_destroy', 'pthread_create', 'pthread_join'}


class Pol(Policy):
    cap = 64

    def __init__(self, ctx, role, p=None):
        self.c, self.role, self.p = ctx, role, p
        self.n = 0

    # fields
    def off(self, eng, f):
        return path_off(eng.mod, S, f)[0]

    def get(self, eng, st, f):
        return field(eng, st, self.p, S, f)

    def which(self, eng, st, addr):
        """field name of an address inside the pool object"""
        if addr is None or not isinstance(addr, tuple):
            return None
        d = sub(addr, self.p.lin)
        if isconst(d):
            if d[0] >= self.off(eng, 'threads'):
                return 'threads'
            f = eng.mod.field_at(S, d[0])
            if f is not None and f.get('off') == d[0]:
                return f['name']
            return f['name'] if f is not None else None
        if eng.base_atom(st, addr) == self.p.lin[1][0][0]:
            return 'threads'
        return None

    def havoc(self, eng, st, shared=SHARED, fixed_shutdown=None):
        for f in shared:
            if f in ('function', 'opaque'):
                v = eng.fresh_ptr('shared.' + f, True)
            elif f == 'shutdown':
                v = V(var(new_atom('shared.shutdown', 0, 1)))
            else:
                v = V(var(new_atom('shared.' + f, 0, 1 << 40)))
            setf(eng, st, self.p, S, f, v)
        for f in shared:
            st.ts['d_' + f] = 0     # change since the critical section began ('X': not a constant change)

    def bad(self, st, i, rule, key, msg):
        self.c.bad(rule, key, i.file, i.line, i.fn.name, msg, show_trail(st.trace()))

    def chk(self, eng, st, i, rule, cond, key, msg):
        if eng.rec > 0:
            if cond:
                self.c.ok(rule, '%s %s:%s %s' % (rule, i.file, i.line, key))
            else:
                self.bad(st, i, rule, key, msg)
        return cond

    # accesses
    def access(self, eng, st, i, addr, write, v=None):
        if i is None:
            return
        f = self.which(eng, st, addr)
        if f not in SHARED:
            return
        if self.role in ('create', 'free') and (st.ts.get('started', 0) == 0 and self.role == 'create' or st.ts.get('joined', 0) == 1):
            return
        held = st.ts.get('held', 0) == 1
        ok = held or (not write and f in ('function', 'opaque') and st.ts.get('haspend', 0) == 1)
        self.chk(eng, st, i, 'LOCK', ok, 'lock:%s:%s' % (i.fn.name, f), '%s of shared field %s without the pool mutex' % ('write' if write else 'read', f))

    def load(self, eng, st, i, addr, size, tag):
        self.access(eng, st, i, addr, False)
        if i is not None and i.ty == 'i64' and self.which(eng, st, addr) == 'threads':
            st.ts['ldthr'] = V(addr)

    def store(self, eng, st, i, addr, size, tag, v):
        self.access(eng, st, i, addr, True, v)
        f = self.which(eng, st, addr)
        if f in SHARED:
            k = 'd_' + f
            old = self.get(eng, st, f)
            nv = v if isinstance(v, V) else None
            if nv is None or nv.lin is None or old.lin is None:
                st.ts[k] = 'X'
            elif st.eq(nv.lin, old.lin):
                pass
            else:
                d = sub(nv.lin, old.lin)
                c = st.ts.get(k, 0)
                st.ts[k] = c + d[0] if isconst(d) and c != 'X' and abs(c + d[0]) < 4 else 'X'

    # a critical section ends: check the transition
    def release(self, eng, st, i):
        if self.role == 'wait' or self.role == 'thread' or self.role == 'add' or self.role == 'free':
            g = {f: self.get(eng, st, f).lin for f in SHARED}
            d = {f: st.ts.get('d_' + f, 0) for f in SHARED}
            s = {f: addc(g[f], -d[f]) if d[f] != 'X' else None for f in SHARED}
            same = lambda f: d[f] == 0
            diff = lambda f, k: d[f] == k
            if self.role == 'thread':
                J = st.ts.get('done', 0)
                for f in ('queueEnd', 'function', 'opaque', 'shutdown'):
                    self.chk(eng, st, i, 'STEP', same(f), 'step:%s' % f, 'a worker changes %s' % f)
                took = diff('queueIndex', 1) and diff('numThreadsBusy', 1 - J)
                idle = same('queueIndex') and diff('numThreadsBusy', -J)
                if took:
                    self.chk(eng, st, i, 'STEP', st.entails(addc(sub(s['queueEnd'], s['queueIndex']), -1)), 'step:empty', 'a worker may take an index beyond the end of the range')
                    self.chk(eng, st, i, 'STEP', st.eq(s['shutdown'], const(0)), 'step:shutdown', 'a worker may take a job after shutdown')
                    self.chk(eng, st, i, 'STEP', st.ts.get('haspend', 0) == 0, 'step:twice', 'a worker takes a second job before running the first')
                    st.ts['pend'] = V(s['queueIndex'])
                    st.ts['haspend'] = 1
                else:
                    self.chk(eng, st, i, 'STEP', idle, 'step:transition',
                             'this critical section neither takes exactly one index (index+1, busy+1) nor leaves the queue alone, with busy reduced by the jobs just finished (%d)' % J)
                self.settle(eng, st)
                st.ts['done'] = 0
                st.ts['idle'] = 0 if took else 1
            elif self.role == 'wait':
                for f in SHARED:
                    self.chk(eng, st, i, 'STEP', same(f), 'wait:step:%s' % f, 'waiting for the pool changes %s' % f)
            elif self.role == 'free':
                for f in ('numThreadsBusy', 'queueIndex', 'queueEnd', 'function', 'opaque'):
                    self.chk(eng, st, i, 'STEP', same(f), 'free:step:%s' % f, 'shutting the pool down changes %s' % f)
                if st.entails(addc(g['shutdown'], -1)):
                    st.ts['sdset'] = 1
            for f in SHARED:
                st.ts['r_' + f] = V(g[f])
                st.ts['rd_' + f] = d[f]
                st.ts['d_' + f] = 0
        st.ts['nrel'] = min(st.ts.get('nrel', 0) + 1, 3)

    def settle(self, eng, st):
        # a finished job need not signal if it is not the last one: a later job ends after it
        b, n, q = [self.get(eng, st, f).lin for f in ('numThreadsBusy', 'queueEnd', 'queueIndex')]
        if None not in (b, n, q) and (st.entails(addc(b, -1)) or st.is_ne(b) or st.entails(addc(sub(n, q), -1))):
            st.ts['owe'] = 0

    def branch(self, eng, st, inst, taken):
        if self.role == 'thread' and st.ts.get('owe', 0) == 1 and st.ts.get('held', 0) == 1 and st.ts.get('d_numThreadsBusy') == -1:
            self.settle(eng, st)

    def sleeping(self, eng, st, i, timed):
        """a thread goes to sleep: it must have nothing to do"""
        g = {f: self.get(eng, st, f).lin for f in SHARED}
        if self.role == 'thread':
            self.chk(eng, st, i, 'SLEEP', st.eq(g['shutdown'], const(0)), 'sleep:shutdown', 'a worker may sleep after shutdown: it would never end')
            self.chk(eng, st, i, 'SLEEP', st.entails(sub(g['queueIndex'], g['queueEnd'])), 'sleep:work', 'a worker may sleep while indexes are left in the range')
        elif self.role == 'wait':
            busy = st.is_ne(g['numThreadsBusy']) or st.entails(addc(g['numThreadsBusy'], -1))
            left = st.entails(addc(sub(g['queueEnd'], g['queueIndex']), -1))
            self.chk(eng, st, i, 'SLEEP', busy or left, 'sleep:idle', 'the waiter may sleep although no job is running or left: nothing would wake it')

    def call(self, eng, st, i, name, args):
        if name in SYNC:
            f0 = self.which(eng, st, args[0].lin) if args and args[0].lin is not None else None
            held = st.ts.get('held', 0)
            if name == 'pthread_mutex_lock':
                self.chk(eng, st, i, 'BALANCE', f0 == 'queueMutex', 'mutex', 'locks another mutex than the pool\'s')
                self.chk(eng, st, i, 'BALANCE', held == 0, 'double-lock:%s' % i.fn.name, 'the mutex is locked while already held')
                st.ts['held'] = 1
                self.havoc(eng, st)
                return [(st, VZ)]
            if name == 'pthread_mutex_unlock':
                if self.chk(eng, st, i, 'BALANCE', held == 1, 'unlock:%s' % i.fn.name, 'the mutex is unlocked without being held'):
                    self.release(eng, st, i)
                st.ts['held'] = 0
                return [(st, VZ)]
            if name in ('pthread_cond_wait', 'FL2_pthread_cond_timedwait', 'pthread_cond_timedwait'):
                f1 = self.which(eng, st, args[1].lin)
                want = 'newJobsCond' if self.role == 'thread' else 'busyCond'
                self.chk(eng, st, i, 'SLEEP', f0 == want and f1 == 'queueMutex', 'cond:%s' % i.fn.name, 'waits on %s/%s instead of %s/queueMutex' % (f0, f1, want))
                if not self.chk(eng, st, i, 'BALANCE', held == 1, 'wait:%s' % i.fn.name, 'waits on a condition without holding the mutex'):
                    self.havoc(eng, st)
                    return [(st, VZ)]
                self.sleeping(eng, st, i, name != 'pthread_cond_wait')
                self.release(eng, st, i)
                if self.role == 'thread':
                    self.chk(eng, st, i, 'SIGNAL', st.ts.get('owe', 0) == 0, 'signal:wait', 'a worker sleeps after finishing a job without signalling the waiter')
                self.havoc(eng, st)
                return [(st, VZ)]
            if name in ('pthread_cond_signal', 'pthread_cond_broadcast'):
                if f0 == 'busyCond' and self.role == 'thread':
                    # the waiter can only miss the signal if the count is still to be decremented
                    dec = st.ts.get('done', 0) == 0 or st.ts.get('d_numThreadsBusy') == -1 or held == 1
                    if dec:
                        st.ts['owe'] = 0
                if f0 == 'newJobsCond' and name == 'pthread_cond_broadcast':
                    st.ts['bcast'] = 1 if (held == 1 or st.ts.get('nrel', 0) > 0) else 0
                return [(st, VZ)]
            if name == 'pthread_create':
                self.chk(eng, st, i, 'CREATE', self.inited(eng, st), 'create:init', 'a thread is started before the pool is initialized')
                t = args[0].lin
                d = sub(t, self.p.lin)
                reg = eng.region_of(st, t)
                self.chk(eng, st, i, 'CREATE', reg is not None and st.entails(addc(sub(reg[1][0], sub(t, var(reg[0]))), -8)), 'create:slot', 'the thread handle may be stored outside the allocated pool')
                self.chk(eng, st, i, 'CREATE', args[2].fn is not None and args[3].lin is not None and st.eq(args[3].lin, self.p.lin), 'create:arg', 'the thread is not started with the pool as argument')
                if args[2].fn:
                    self.entry = args[2].fn
                nth = st.ts.get('n')
                n = nth.lin if nth is not None else const(0)
                self.chk(eng, st, i, 'CREATE', st.eq(d, addc(scale(n, 8), self.off(eng, 'threads'))), 'create:order', 'thread handles are not stored consecutively')
                st.ts['started'] = 1
                o = st.copy()
                o.note('%s: pthread_create fails' % i.where())
                st.ts['n'] = V(addc(n, 1))
                return [(st, VZ), (o, C(11))]
            if name == 'pthread_join':
                nj = st.ts.get('j')
                n = nj.lin if nj is not None else const(0)
                la = st.ts.get('ldthr')
                pos = sub(la.lin, self.p.lin) if la is not None else None
                up = pos is not None and st.ts.get('jdir', 1) == 1 and st.eq(pos, addc(scale(n, 8), self.off(eng, 'threads')))
                down = pos is not None and st.ts.get('jdir', 2) == 2 and st.eq(pos, addc(scale(sub(addc(st.ts['nthr'].lin, -1), n), 8), self.off(eng, 'threads')))
                self.chk(eng, st, i, 'JOIN', up or down, 'join:order', 'the joined handle is neither the next one upwards from the first nor downwards from the last')
                if up != down:
                    st.ts['jdir'] = 1 if up else 2
                self.chk(eng, st, i, 'JOIN', st.ts.get('sdset', 0) == 1 and st.ts.get('bcast', 0) == 1 and held == 0, 'join:wake', 'threads are joined before shutdown is set and broadcast, or with the mutex held')
                st.ts['j'] = V(addc(n, 1))
                return [(st, VZ)]
            if name in ('pthread_mutex_destroy', 'pthread_cond_destroy'):
                self.gone(eng, st, i)
                return [(st, VZ)]
            if name.endswith('_init'):
                st.ts['init'] = tuple(sorted(set(st.ts.get('init', ())) | {f0}))
                return [(st, VZ)]
            return [(st, VZ)]
        if name == 'free':
            if args[0].lin is not None and st.eq(args[0].lin, self.p.lin):
                self.gone(eng, st, i)
                self.chk(eng, st, i, 'JOIN', st.ts.get('freed', 0) == 0, 'free:twice', 'the pool is freed twice')
                st.ts['freed'] = 1
            return [(st, None)]
        if name == 'calloc' and self.role == 'create':
            return None
        if name is None and i.d['callee'][0] in ('i', 'a') and self.role == 'thread':
            # the job
            pd = st.ts.get('pend') if st.ts.get('haspend', 0) == 1 else None
            self.chk(eng, st, i, 'JOB', pd is not None and len(args) == 2 and args[1].lin is not None and st.eq(args[1].lin, pd.lin), 'job:index', 'the job runs with an index other than the one taken, or none was taken')
            self.chk(eng, st, i, 'JOB', st.ts.get('held', 0) == 0, 'job:held', 'the job runs with the pool mutex held: no other thread can start or finish')
            fv = eng.val(st, i.d['callee'], i)
            okf = fv is not None and fv.lin is not None and pd is not None and st.eq(fv.lin, st.ts['r_function'].lin)
            oka = args and args[0].lin is not None and pd is not None and st.eq(args[0].lin, st.ts['r_opaque'].lin)
            self.chk(eng, st, i, 'JOB', okf and oka, 'job:function', 'the job is not the function and object set for the range')
            self.chk(eng, st, i, 'SIGNAL', st.ts.get('owe', 0) == 0 or True, 'signal:job', '')
            st.ts['pend'] = VZ
            st.ts['haspend'] = 0
            st.ts['done'] = 1
            st.ts['owe'] = 1
            return [(st, None)]
        return None

    def inited(self, eng, st):
        if {'queueMutex', 'busyCond', 'newJobsCond'} - set(st.ts.get('init', ())):
            return False
        for f in ('numThreadsBusy', 'queueIndex', 'queueEnd', 'shutdown'):
            v = self.get(eng, st, f)
            if v.lin is None:
                return False
        return st.eq(self.get(eng, st, 'numThreadsBusy').lin, const(0)) and st.eq(self.get(eng, st, 'shutdown').lin, const(0)) and \
            st.entails(sub(self.get(eng, st, 'queueIndex').lin, self.get(eng, st, 'queueEnd').lin))

    def gone(self, eng, st, i):
        if self.role == 'create':
            nth = st.ts.get('n')
            want = nth.lin if nth is not None else const(0)
        else:
            want = st.ts['nthr'].lin
        nj = st.ts.get('j')
        n = nj.lin if nj is not None else const(0)
        self.chk(eng, st, i, 'JOIN', st.eq(n, want), 'join:all', 'the pool is destroyed although a thread may not have been joined')

    def ret(self, eng, st, fn, v):
        return None


RULES = {'LOCK': 'shared fields are only accessed with the mutex held (or before the first thread exists / after the last is joined)',
         'BALANCE': 'mutex operations balance on every path; waits happen with the mutex held',
         'STEP': 'each critical section of a worker takes exactly one index below the end and counts itself busy, or nothing; a finished job is uncounted exactly once; waiting changes nothing',
         'JOB': 'the job is called once per taken index, unlocked, with the range\'s function, object and that index',
         'SLEEP': 'a worker sleeps only when the range is exhausted and the pool is not shut down; a waiter sleeps only when jobs are running or left',
         'SIGNAL': 'finishing a job signals the waiter before the worker sleeps or ends; publishing a range or shutdown broadcasts to all workers',
         'WAITALL': 'the wait function returns 0 only if no job is running or left (or shutdown), and non-zero only with a time-out',
         'ADD': 'adding a range publishes function, object, first and end as given',
         'CREATE': 'threads start after initialization, with consecutive handle slots inside the allocation',
         'JOIN': 'the pool is destroyed after shutdown was set, broadcast, and every thread joined; then it is freed once',
         'EXIT': 'workers end only on shutdown, with the mutex released'}


def setup(ctx, m, role):
    st = new_state()
    pol = Pol(ctx, role)
    e = Engine(m, pol)
    p = obj(e, st, S, 'pool')
    pol.p = p
    st.ts.update(held=0, nrel=0, bcast=0, n=C(0), j=C(0), ldthr=VZ)
    nt = V(var(new_atom('numThreads', 1, 1 << 16)))
    setf(e, st, p, S, 'numThreads', nt)
    e.set_region(st, p, addc(scale(nt.lin, 8), m.struct(S)['size'] - 8))
    st.ts['nthr'] = nt
    pol.havoc(e, st)
    return e, st, p, pol


def fin(ctx, m, e, s, i, pol, rule='BALANCE'):
    pol.chk(e, s, i, 'BALANCE', s.ts.get('held', 0) == 0, 'held-at-return:%s' % i.name, 'returns with the mutex held')


class At:
    def __init__(self, f):
        self.file, self.line, self.fn, self.name = f.file, f.line, f, f.name


def check(ctx):
    m = ctx.mod('noasm')
    for k, t in RULES.items():
        ctx.rule(k, t)
    # create; finds the thread entry
    f = m.fn('FL2POOL_create')
    st = new_state()
    pol = Pol(ctx, 'create')
    e = Engine(m, pol)
    st.ts.update(held=0, nrel=0, bcast=0, n=C(0), j=C(0), ldthr=VZ)
    nt = V(var(new_atom('numThreads', 0, 1 << 16)))
    orig = pol.call

    def call(eng, st, i, name, args):
        if name in ('calloc', 'malloc'):
            r = eng.external(st, i, name, args)
            s0, v = r[0]
            pol.p = v
            return r
        if name and name in eng.mod.fns and not eng.mod.fns[name].decl and name not in ('FL2POOL_join',):
            if any(a.lin is not None and pol.p is not None and st.eq(a.lin, pol.p.lin) for a in args) and st.ts.get('started'):
                # the failure path hands the pool to a destructor: analysed as if called by the user, with numThreads as stored
                nth = st.ts.get('n')
                n = nth.lin if nth is not None else const(0)
                cur = field(eng, st, pol.p, S, 'numThreads')
                pol.chk(eng, st, i, 'CREATE', cur.lin is not None and st.eq(cur.lin, n), 'create:count', 'the destructor is called with a thread count other than the number of threads started')
                st.ts['freed'] = 1
                return [(st, None)]
        return orig(eng, st, i, name, args)
    pol.call = call
    for s, v in e.run(f, [nt], st):
        at = At(f)
        if v.lin == const(0):
            pol.chk(e, s, at, 'CREATE', s.ts.get('started', 0) == 0 or s.ts.get('freed', 0) == 1, 'create:leak', 'returns NULL with threads running', )
            continue
        n = s.ts.get('n')
        pol.chk(e, s, at, 'CREATE', n is not None and s.eq(n.lin, nt.lin) and s.eq(field(e, s, pol.p, S, 'numThreads').lin, nt.lin), 'create:all', 'returns a pool which does not have the requested number of threads, or does not record it')
    entry = getattr(pol, 'entry', None)
    if entry is None:
        raise AnalysisError('FL2POOL_create starts no thread function')
    # worker
    e, st, p, pol = setup(ctx, m, 'thread')
    f = m.fn(entry)
    for s, v in e.run(f, [p], st):
        at = At(f)
        fin(ctx, m, e, s, at, pol)
        sd = s.ts.get('r_shutdown')
        pol.chk(e, s, at, 'EXIT', sd is not None and s.entails(addc(sd.lin, -1)), 'exit:shutdown', 'a worker may end although the pool is not shut down')
        pol.chk(e, s, at, 'EXIT', s.ts.get('haspend', 0) == 0, 'exit:pending', 'a worker ends with a taken index not run')
        pol.chk(e, s, at, 'SIGNAL', s.ts.get('owe', 0) == 0, 'signal:exit', 'a worker ends after finishing a job without signalling the waiter')
    # wait: without and with time-out
    f = m.fn('FL2POOL_waitAll')
    for to in (0, 1):
        e, st, p, pol = setup(ctx, m, 'wait')
        t = C(0) if to == 0 else V(var(new_atom('timeout', 1, (1 << 32) - 1)))
        for s, v in e.run(f, [p, t], st):
            at = At(f)
            fin(ctx, m, e, s, at, pol)
            g = {k: s.ts.get('r_' + k) for k in SHARED}
            if g['queueIndex'] is None:
                pol.chk(e, s, at, 'WAITALL', False, 'waitall:nolock', 'returns without having looked at the queue under the mutex')
                continue
            zero = v.lin is not None and s.eq(v.lin, const(0))
            if not zero and to == 0:
                z2 = s.copy()
                if v.lin is not None:
                    z2.add(addc(v.lin, -1))
                elif v.pred is not None:
                    z2.assume(v.pred)
                pol.chk(e, s, at, 'WAITALL', z2.dead, 'waitall:nonzero', 'may report running jobs without a time-out')
            # the case of a zero result
            s2 = s.copy()
            if v.lin is not None:
                s2.add_eq(v.lin)
            if s2.dead:
                pol.chk(e, s, at, 'WAITALL', True, 'waitall:nz', '')
                continue
            down = s2.entails(addc(g['shutdown'].lin, -1))
            idle = s2.eq(g['numThreadsBusy'].lin, const(0)) and s2.entails(sub(g['queueIndex'].lin, g['queueEnd'].lin))
            pol.chk(e, s, at, 'WAITALL', down or idle, 'waitall:early', 'may report completion while a job is running or left')
    e, st, p, pol = setup(ctx, m, 'wait')
    for s, v in e.run(f, [C(0), C(0)], st):
        pol.chk(e, s, At(f), 'WAITALL', v.lin == const(0), 'waitall:null', 'waiting for a NULL pool does not return 0')
    # add
    for fname, narg in (('FL2POOL_addRange', 5), ('FL2POOL_add', 4)):
        f = m.fn(fname)
        e, st, p, pol = setup(ctx, m, 'add')
        fn, op = e.fresh_ptr('fn', True), e.fresh_ptr('opaque', True)
        a, b = V(var(new_atom('first', 0, 1 << 32))), V(var(new_atom('end', 0, 1 << 32)))
        for s, v in e.run(f, [p, fn, op, a, b][:narg], st):
            at = At(f)
            fin(ctx, m, e, s, at, pol)
            end = b.lin if narg == 5 else addc(a.lin, 1)
            for k, x in (('function', fn.lin), ('opaque', op.lin), ('queueIndex', a.lin), ('queueEnd', end)):
                r = s.ts.get('r_' + k)
                pol.chk(e, s, at, 'ADD', r is not None and r.lin is not None and s.eq(r.lin, x), 'add:%s' % k, '%s is not what the caller gave' % k)
            for k in ('numThreadsBusy', 'shutdown'):
                pol.chk(e, s, at, 'ADD', s.ts.get('rd_' + k) == 0, 'add:%s' % k, '%s is changed' % k)
            pol.chk(e, s, at, 'SIGNAL', s.ts.get('bcast', 0) == 1, 'signal:add', 'a published range is not broadcast to all workers')
        e, st, p, pol = setup(ctx, m, 'add')
        for s, v in e.run(f, [C(0), fn, op, a, b][:narg], st):
            pol.chk(e, s, At(f), 'ADD', True, 'add:null', '')
    # free
    f = m.fn('FL2POOL_free')
    e, st, p, pol = setup(ctx, m, 'free')
    for s, v in e.run(f, [p], st):
        at = At(f)
        fin(ctx, m, e, s, at, pol)
        pol.chk(e, s, at, 'JOIN', s.ts.get('freed', 0) == 1, 'free:leak', 'the pool is not freed')
    e, st, p, pol = setup(ctx, m, 'free')
    for s, v in e.run(f, [C(0)], st):
        pol.chk(e, s, At(f), 'JOIN', s.ts.get('freed', 0) == 0, 'free:null', '')
    ctx.notes.append('thread entry: %s' % entry)
    ctx.assume.append('range bounds and the busy count are at most 2^40; at most 2^16 threads; callers wait for a range to complete before adding the next (checked by C18)')
    ctx.assume.append('POSIX semantics of mutexes and condition variables; a worker is the only code that runs jobs')
    for k in RULES:
        ctx.floor(k, 1)
