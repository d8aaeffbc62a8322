"""The caller's buffers: every access lies between position and size (or inside dst/src of a one-shot call), positions only move forward."""
from core import *
import effects

LEVEL = 'proof'
EXPLANATION = ('Every exported function which takes a stream buffer structure, or the source and destination of a one-shot operation, is interpreted abstractly '
               'from an arbitrary state of its context; each read and write through a pointer derived from the caller\'s buffers is shown to lie inside them, '
               'and the positions at each return between their values at entry and the sizes.')
INB, OUTB = ('FL2_inBuffer_s', 'FL2_inBuffer'), ('FL2_outBuffer_s', 'FL2_outBuffer')
# size_t fields which hold results and may be error codes
ERRORS = {'asyncRes', 'res', 'cSize'}


class Pol(Policy):
    max_depth = 16
    coarse_sig = True
    cap = 6

    def __init__(self, run):
        self.r = run
        self.force = False

    def inline(self, eng, name):
        f, self.force = self.force, False
        return f or name in self.r.inl

    def cap_for(self, fn):
        n = getattr(fn, 'name', fn)
        return 32 if n in self.r.forced else 16 if n in self.r.inl else 8

    def valsig(self, st, v):
        if v is None or v.lin is None:
            return 'x'
        r = is_err(st, v, self.r.maxcode)
        return 'x' if r is None else r

    def call(self, eng, st, i, name, args):
        r = self.r
        self.force = False
        if name in r.contracts:
            return r.contracts[name](eng, st, i, args)
        if name in ('FL2POOL_add',) and args[1].fn:
            # the job runs some time during the call or later
            f = r.m.fn(args[1].fn)
            out = []
            for s, _ in eng.run(f, [args[2], args[3]], st):
                out.append((s, None))
            return out
        if name is not None and name in r.readers and name not in r.inl:
            r.block(eng, st, i)
            if r.ctxp is not None and r.keeps(name):
                # the block of the context is read and left alone
                b = [(x, field(eng, st, r.ctxp, 'FL2_CCtx_s', 'curBlock.' + x)) for x in ('data', 'start', 'end')]
                v = r.result(eng, st, i, name, args)
                for x, y in b:
                    setf(eng, st, r.ctxp, 'FL2_CCtx_s', 'curBlock.' + x, y)
                return [(st, v)]
        if name in r.shots and name != r.entry and r.oneshot:
            return r.shot(eng, st, i, name, args)
        if name in r.setters:
            return self.whole(eng, st, i, r.m.fns[name], args)
        if name is not None and any(r.user(a) for a in args):
            g = r.m.fns.get(name)
            if g is not None and not g.decl:
                self.force = True
                if g.loops:
                    r.forced.add(name)
                    return self.whole(eng, st, i, g, args)
        return None

    def whole(self, eng, st, i, g, args):
        """a function which works on the caller's memory: its results are kept apart by what they are (error, other)"""
        groups = {}
        for s, v in eng.run(g, args, st):
            if not s.dead:
                x = is_err(s, v, self.r.maxcode) if v is not None else None
                if v is not None:
                    s.ts['rv'] = v
                    if x:
                        x = 'neg' if v.lin is not None and s.entails(addc(scale(v.lin, -1), -1)) else 'err'
                groups.setdefault(x, []).append(s)
        out = []
        for x, l in groups.items():
            s = l[0] if len(l) == 1 else eng.join(l, g)
            v = s.ts.pop('rv', None)
            s.ts['rc'] = x
            out.append((s, v))
        return out

    def fresh_load(self, eng, st, i, addr, size, tag, v):
        if tag == ('FL2_decInbuf_s', 'length') and v.lin is not None:
            # the read position of the chain of inputs is inside its current element (assumption)
            for c, n, t in list(st.mem.values()):
                if t == ('FL2_decMt', 'curPos') and c.lin is not None:
                    st.add(sub(v.lin, c.lin))
        b = self.r.ranges.get(tag)
        if b is None:
            b = self.r.limits.get(tag)
            if b is not None and v.lin is not None:
                self.r.seen.append(v)
        if b is not None and v.lin is not None:
            st.add(addc(scale(v.lin, -1), b))
        elif tag is not None and size == 8 and v.lin is not None and tag[1] not in ERRORS and ATOMS[v.lin[1][0][0]].kind != 'ptr':
            # a count of bytes (assumption)
            st.add(addc(scale(v.lin, -1), 1 << 60))

    def loop_key(self, eng, fn, st):
        if self.r.ctxp is None:
            return None
        v = peek(eng, st, self.r.ctxp, 'FL2_CCtx_s', 'curBlock.end')
        return None if v is None else v.lin

    def hints(self, eng, fn, header, slots):
        """sums of an offset into the caller's memory and two counters (what is left, what was kept) are candidates for loop invariants"""
        l = [(s, a, e.lin) for s, (a, e) in slots.items() if a is not None and e is not None and e.lin is not None]
        ptr = [x for x in l if self.r.user(x[2]) is not None]
        num = [x for x in l if x not in ptr and not any(ATOMS[a].kind in ('ptr', 'heap', 'alloca') for a, _ in x[2][1])]
        out = []
        for s, a, e in ptr:
            e = sub(e, var(self.r.user(e)))
            for x in range(len(num)):
                for y in range(x):
                    d = sub(add(var(a), add(var(num[x][1]), var(num[y][1]))), add(e, add(num[x][2], num[y][2])))
                    out += [d, scale(d, -1)]
        # what is known at entry of two values which change together
        plain = {e[1][0][0]: a for s, a, e in ((s, a, sub(e, var(self.r.user(e))) if self.r.user(e) is not None else e) for s, a, e in l)
                 if len(e[1]) == 1 and e[1][0][1] == 1 and e[0] == 0}
        for t, c in eng.loop_entry.facts.items():
            if sum(a in plain for a, _ in t) >= 2:
                d = (c, t)
                for a, k in t:
                    if a in plain:
                        d = add(sub(d, var(a, k)), var(plain[a], k))
                out.append(d)
        live = set()
        for v in eng.loop_entry.frames[-1].values():
            if isinstance(v, V) and v.lin is not None:
                live |= set(L.deep_atoms(v.lin))
        for s, a, e in num:
            out += [sub(b, var(a)) for b in eng.pol.join_bounds]
            if s[0] == 'm':
                out += [sub(g.lin, var(a)) for g in self.r.seen if g.lin[1][0][0] in live]
        return out

    def load(self, eng, st, i, addr, size, tag):
        self.r.access(eng, st, i, addr, size if size.__class__ is tuple else const(size), tag, False)

    def store(self, eng, st, i, addr, size, tag, v):
        n = size if size.__class__ is tuple else const(size)
        self.r.access(eng, st, i, addr, n, tag, True)
        b = self.r.ranges.get(tag)
        if b is not None and v is not None and isinstance(v, V):
            eng.check(st, i, 'counter', lambda: v.lin is not None and st.entails(v.lin) and st.entails(addc(scale(v.lin, -1), b)),
                      lambda: '%s.%s may exceed the memory it counts (%d)' % (tag + (b,)))


class Run:
    def __init__(self, ctx, m, eff):
        self.ctx, self.m = ctx, m
        self.maxcode = m.enum('FL2_error_maxCode')
        self.e = Engine(m, None, eff)
        self.e.pol = Pol(self)
        self.kept = {}
        self.forced = set()
        self.seen = []
        self.limits = {('RMF_parameters', 'overlap_fraction'): 14, ('RMF_parameters', 'dictionary_size'): 1 << 30}
        self.bufs = {}          # base atom -> (writable, first offset, end)
        self.contracts = {'LZMA2_decodeToBuf': self.decode_buf, 'LZMA2_decodeToDic': self.decode_dic, 'XXH32_update': self.hash_update, 'XXH32': self.hash_all}

    def begin(self, st, f, args, pos):
        pass

    def done(self, st, v):
        pass

    def keeps(self, name):
        if name not in self.kept:
            self.kept[name] = outside(self.m, self.e.eff, name, [('FL2_dataBlock', x) for x in ('data', 'start', 'end')], ('FL2_CCtx_s', 'curBlock'))
        return self.kept[name]

    # ---- the caller's memory ----
    def user(self, v):
        l = v.lin if isinstance(v, V) else v
        if l is None:
            return None
        for a, k in l[1]:
            if k == 1 and a in self.bufs:
                return a
        return None

    def inside(self, eng, st, i, addr, size, write, what=None):
        a = self.user(addr)
        if a is None:
            return
        wr, lo, hi = self.bufs[a]
        off = sub(addr, var(a))
        if write and not wr:
            eng.check(st, i, 'inside', False, 'the input is written')
            return
        eng.check(st, i, 'inside', lambda: st.eq(size, L.ZERO) or st.entails(sub(off, lo)) and st.entails(size) and st.entails(sub(hi, add(off, size))),
                  lambda: 'cannot show that the %s of %s bytes at offset %s stays inside the %s' % (
                      what or ('write' if write else 'read'), L.show(size), L.show(off), 'output' if wr else 'input'))

    def access(self, eng, st, i, addr, size, tag, write):
        if self.user(addr) is not None:
            return self.inside(eng, st, i, addr, size, write)
        x = self.arrays.get(tag)
        if x is not None and size != const(1) or x is not None and write:
            off = None
            for a, k in addr[1]:
                if k == 1 and ATOMS[a].kind in ('ptr', 'heap', 'alloca'):
                    off = sub(addr, var(a))
                    break
            if off is not None and not any(ATOMS[a].kind in ('ptr', 'heap') for a, k in off[1]):
                eng.check(st, i, 'array', lambda: st.eq(size, L.ZERO) or st.entails(addc(off, -x[0])) and st.entails(size) and st.entails(addc(scale(add(off, size), -1), x[1])),
                          lambda: 'cannot show that the %s of %s bytes at offset %s stays inside %s.%s' % ((
                              'write' if write else 'read', L.show(size), L.show(addc(off, -x[0]))) + tag))

    def block(self, eng, st, i):
        """a function which works on the current block is called"""
        if self.ctxp is None:
            return
        b = [field(eng, st, self.ctxp, 'FL2_CCtx_s', 'curBlock.' + x) for x in ('data', 'start', 'end')]
        if self.user(b[0]) is None:
            return
        eng.check(st, i, 'block', lambda: st.entails(sub(b[2].lin, b[1].lin)), 'the block given to the compressor has a negative length')
        self.inside(eng, st, i, b[0].lin, b[2].lin, False, 'block to compress, ')

    # ---- functions represented by what C02/C27 show of them ----
    def mem(self, eng, st, p):
        e = st.mem.get(p.lin)
        return e[0] if e is not None else eng.load_mem(st, None, p.lin, 8, 'i64', None)

    def result(self, eng, st, i, name, args):
        eng.havoc_call(st, i, name, args)
        return eng.fresh(('ret', name), 64)

    def shot(self, eng, st, i, name, args):
        """another one-shot function, which is an entry point of its own"""
        ks = self.shots[name]
        cap = None
        for k, x in enumerate(ks):
            if not isinstance(x, tuple) or args[k].lin is None:
                continue
            n = args[x[1]]
            eng.check(st, i, 'inside', n.lin is not None, 'the size of a buffer is not known')
            if x[0] == 'dst':
                cap = n
            if self.user(args[k]) is not None:
                self.inside(eng, st, i, args[k].lin, n.lin, x[0] == 'dst', 'buffer for %s, ' % name)
        v = self.result(eng, st, i, name, args)
        if cap is None:
            return [(st, v)]
        o = st.copy()
        st.add(sub(cap.lin, v.lin))
        o.add(addc(v.lin, -((1 << 64) - self.maxcode + 1)))
        return [(x, v) for x in (st, o) if not x.dead]

    def decode_buf(self, eng, st, i, args):
        n, s = self.mem(eng, st, args[2]), self.mem(eng, st, args[4])
        for p, c, w in ((args[1], n, True), (args[3], s, False)):
            if p.lin is not None and c.lin is not None:
                self.inside(eng, st, i, p.lin, c.lin, w)
        v = self.result(eng, st, i, 'LZMA2_decodeToBuf', args)
        for p, c in ((args[2], n), (args[4], s)):
            x = eng.fresh('moved', 64)
            st.add(sub(c.lin, x.lin))
            st.mem[p.lin] = (x, 8, None)
        return [(st, v)]

    def decode_dic(self, eng, st, i, args):
        s = self.mem(eng, st, args[3])
        if args[2].lin is not None:
            self.inside(eng, st, i, args[2].lin, s.lin, False)
        d = field(eng, st, args[0], 'LZMA2_DCtx', 'dic') if args[0].lin is not None else None
        pos = field(eng, st, args[0], 'LZMA2_DCtx', 'dic_pos') if args[0].lin is not None else None
        if d is not None and self.user(d) is not None:
            self.inside(eng, st, i, add(d.lin, pos.lin), sub(args[1].lin, pos.lin), True)
        v = self.result(eng, st, i, 'LZMA2_decodeToDic', args)
        x = eng.fresh('moved', 64)
        st.add(sub(s.lin, x.lin))
        st.mem[args[3].lin] = (x, 8, None)
        if d is not None:
            y = field(eng, st, args[0], 'LZMA2_DCtx', 'dic_pos')
            st.add(sub(y.lin, pos.lin))
            st.add(sub(args[1].lin, y.lin))
            setf(eng, st, args[0], 'LZMA2_DCtx', 'dic', d)
        return [(st, v)]

    def hash_update(self, eng, st, i, args):
        if args[1].lin is not None and args[2].lin is not None:
            self.inside(eng, st, i, args[1].lin, args[2].lin, False, 'hash of ')
        return [(st, eng.fresh('xxh', 32))]

    def hash_all(self, eng, st, i, args):
        if args[0].lin is not None and args[1].lin is not None:
            self.inside(eng, st, i, args[0].lin, args[1].lin, False, 'hash of ')
        return [(st, eng.fresh('xxh', 32))]


def kinds(m, f):
    """what each parameter is: 'in'/'out' (stream buffer), ('dst'|'src', index of its size), or None"""
    r = []
    for k, a in enumerate(f.args):
        d = a.get('di') or {}
        to = d.get('to') or {}
        x = None
        if d.get('k') == 'ptr' and to.get('k') == 'struct' and to.get('name') in INB:
            x = 'in'
        elif d.get('k') == 'ptr' and to.get('k') == 'struct' and to.get('name') in OUTB:
            x = 'out'
        elif d.get('k') == 'ptr' and to.get('k') == 'void' and k + 1 < len(f.args) and f.args[k + 1].get('ty') == 'i64':
            x = ('src' if d.get('const') or to.get('const') else 'dst', k + 1)
        r.append(x)
    return r


def targets(m):
    return [(n, kinds(m, f)) for n, f in sorted(m.fns.items())
            if not f.decl and not f.internal and n.startswith('FL2_') and any(kinds(m, f))]


def outside(m, eff, name, tags, field):
    """every store to the tags reachable from a function goes to a structure other than the given field"""
    reach = eff.reach([name])
    seen = set()

    def ok(f, op, inner):
        if op[0] == 'a':
            if (f.name, op[1], inner) in seen:
                return True
            seen.add((f.name, op[1], inner))
            sites = [(m.fns[n], i) for n in reach for i in m.fns[n].insts.values() if i.op == 'call' and i.d['callee'][0] == 'f' and i.d['callee'][1] == f.name]
            return f.name != name and bool(sites) and all(ok(g, i.ops[op[1]], inner) for g, i in sites)
        if op[0] != 'i':
            return False
        i = f.insts[op[1]]
        if i.op == 'getelementptr':
            for p in reversed(i.d.get('path', [])):
                if p[0] == 's':
                    x = m.field_at(p[1], p[3])
                    t = (p[1], x['name'] if x else None)
                    if t == field:
                        return False
                    if p[1] != tags[0][0]:
                        return True
            return ok(f, i.ops[0], inner)
        if i.op == 'alloca':
            return True
        if i.op == 'phi':
            return (f.name, i.id, 0) in seen or (seen.add((f.name, i.id, 0)) or all(ok(f, o, inner) for o, _ in i.ops))
        if i.op == 'select':
            return ok(f, i.ops[1], inner) and ok(f, i.ops[2], inner)
        return False

    for n in reach:
        f = m.fns[n]
        for i in f.insts.values():
            if i.op == 'store':
                op = i.ops[1]
            elif i.op == 'call' and i.d['callee'][0] == 'f' and i.d['callee'][1].startswith(('llvm.mem', 'mem')):
                op = i.ops[0]
            else:
                continue
            if any(t[0] in ('tag', 'ptag') and t[-1] in tags for t in eff.root(f, op)) and not ok(f, op, 0):
                return False
    return True


def arrays(m, eff):
    """fixed arrays which data is copied into: tag -> (offset in the structure, end)"""
    r = {}
    for sn, fn in (('FL2_DStream_s', 'overlap'), ('FL2_DStream_s', 'xxhIn')):
        f = m.field(sn, fn)
        n = f['bits'] // 8 or f['size']
        r[sn, fn] = (f['off'], f['off'] + n)
    return r


def one(ctx, m, eff, inl, readers, setters, task, cls=None):
    name, ks, nulls, thr = task
    r = (cls or Run)(ctx, m, eff)
    r.inl, r.readers, r.setters = inl, readers, setters
    r.forced.add(name)
    r.entry = name
    r.shots = {n: k for n, k in targets(m) if any(isinstance(x, tuple) for x in k)}
    r.arrays = arrays(m, eff)
    r.oneshot = any(isinstance(x, tuple) for x in ks)
    r.ranges = {('FL2_DStream_s', c): r.arrays['FL2_DStream_s', a][1] - r.arrays['FL2_DStream_s', a][0] for c, a in (('overlapSize', 'overlap'), ('xxhPos', 'xxhIn'))}
    e = r.e
    f = m.fn(name)
    st = new_state()
    args, pos = [None] * len(f.args), []
    r.ctxp = None
    for k, a in enumerate(f.args):
        if args[k] is not None:
            continue
        d = a.get('di') or {}
        x = ks[k]
        if x in ('in', 'out') and k in nulls:
            args[k] = VZ
        elif x in ('in', 'out'):
            sn = d['to']['name']
            p = obj(e, st, sn, x)
            b = field(e, st, p, sn, 'src' if x == 'in' else 'dst')
            sz, ps = field(e, st, p, sn, 'size'), field(e, st, p, sn, 'pos')
            st.add(addc(scale(sz.lin, -1), 1 << 60))
            st.add(sub(sz.lin, ps.lin))
            st.add(addc(b.lin, -4096))
            e.set_region(st, b, sz.lin, 'user')
            r.bufs[b.lin[1][0][0]] = (x == 'out', ps.lin, sz.lin)
            pos.append((x, sn, p, b, sz, ps))
            args[k] = p
        elif x:
            p = e.fresh_ptr(x[0], True)
            n = e.fresh(x[0] + "Size", 60)
            e.set_region(st, p, n.lin, 'user')
            r.bufs[p.lin[1][0][0]] = (x[0] == 'dst', L.ZERO, n.lin)
            args[k], args[x[1]] = p, n
        elif d.get('k') == 'ptr' and (d.get('to') or {}).get('k') == 'struct':
            sn = d['to']['name']
            args[k] = obj(e, st, sn, 'ctx')
            if sn == 'FL2_CCtx_s':
                r.ctxp = args[k]
            for fn, nul in thr:
                if any(y['name'] == fn for y in m.struct(sn)['fields']):
                    v = field(e, st, args[k], sn, fn)
                    st.add(addc(v.lin, -4096)) if not nul else setf(e, st, args[k], sn, fn, 0)
        else:
            args[k] = e.fresh_ty('arg', a['ty'])
    e.pol.join_bounds = [args[y[1]].lin for y in ks if isinstance(y, tuple)] + [x[4].lin for x in pos]
    # the values at entry stay known: they live in a local of nobody
    ghost = var(new_atom(('ghost',), 4096, 1 << 62, 'alloca'))
    for k, x in enumerate([y[j] for y in pos for j in (3, 4, 5)] + [args[j] for y in ks if isinstance(y, tuple) for j in (y[1],)]):
        st.mem[addc(ghost, 8 * k)] = (x, 8, None)
    st.note('entry of %s%s' % (name, ' (no output buffer)' if nulls else ''))
    r.begin(st, f, args, pos)
    n = 0
    for s, v in e.run(f, args, st):
        if s.dead:
            continue
        n += 1
        r.done(s, v)
        if not 'position' in ctx.rules:
            continue
        for x, sn, p, b, sz, ps in pos:
            b1, sz1, ps1 = field(e, s, p, sn, 'src' if x == 'in' else 'dst'), field(e, s, p, sn, 'size'), field(e, s, p, sn, 'pos')
            w = {'in': 'input', 'out': 'output'}[x]
            ctx.check('position', s.entails(sub(ps1.lin, ps.lin)), 'position:%s:%s:back' % (name, x), f, 'after %s the %s position may be lower than before' % (name, w), show_trail(s.trace()))
            ctx.check('position', s.entails(sub(sz.lin, ps1.lin)), 'position:%s:%s:beyond' % (name, x), f, 'after %s the %s position may be beyond the size' % (name, w), show_trail(s.trace()))
            ctx.check('position', s.eq(b1.lin, b.lin) and s.eq(sz1.lin, sz.lin), 'position:%s:%s:changed' % (name, x), f, '%s may change address or size of the %s buffer' % (name, w), show_trail(s.trace()))
        if any(y and y[0] == 'dst' for y in ks) and v is not None and v.lin is not None:
            k = next(i for i, y in enumerate(ks) if y and y[0] == 'dst')
            er = is_err(s, v, r.maxcode)
            ctx.check('result', er is True or s.entails(sub(args[ks[k][1]].lin, v.lin)), 'result:%s' % name, f, '%s may report more bytes than the capacity' % name, show_trail(s.trace()))
    if not n:
        raise AnalysisError('no path through %s' % name)
    for o in e.obl.values():
        if o['kind'] not in ctx.rules:
            continue
        if o['fail']:
            ctx.bad(o['kind'], '%s:%s' % (o['kind'], o['fn']), o['file'], o['line'], o['fn'], '%s [%s]' % (o['fail']['msg'], name), show_trail(o['fail']['trail']))
        else:
            ctx.ok(o['kind'], '%s %s:%s' % (name, o['fn'], o['line']))


def sets(m, eff):
    """functions which work on the caller's buffers, functions which read the block to compress, setters of parameters"""
    ub = set(INB + OUTB)
    touch = lambda n: any(t[0] == 'tag' and t[1][0] in ub for t in eff.w.get(n, set()) | eff.r.get(n, set()))
    inl = {n for n, f in m.fns.items() if not f.decl and touch(n)}
    inl |= {n for n, f in m.fns.items() if not f.decl and not f.loops and len(f.insts) < 60 and not any(c[0] in m.fns and not m.fns[c[0]].decl and m.fns[c[0]].loops for c in eff.callees[n])}
    par = {t[1] for n in ('FL2_CCtx_setParameter',) for t in eff.w[n] if t[0] == 'tag'}
    setters = {n for n, f in m.fns.items() if not f.decl and not f.loops and any(t[0] == 'tag' and t[1] in par for t in eff.w[n]) and all(t[0] == 'tag' and t[1] in par for t in eff.w[n])}
    inl |= setters
    readers = {n for n, f in m.fns.items() if not f.decl and n not in inl and any(
        t[0] == 'tag' and t[1] in (('FL2_CCtx_s', 'curBlock'), ('FL2_dataBlock', 'data')) for t in eff.r.get(n, set()))}
    return inl, readers, setters


def check(ctx):
    m = ctx.mod('noasm')
    ctx.rule('inside', 'every access through the caller\'s buffers lies between position and size (or inside src / dst)')
    ctx.rule('position', 'positions end between the value at entry and the size; address and size are not changed')
    ctx.rule('result', 'a one-shot call reports no more bytes than the capacity')
    ctx.rule('block', 'a block handed to the compressor lies inside the source')
    ctx.rule('array', 'copies into fixed arrays of a stream stay inside them')
    ctx.rule('counter', 'counters of stored bytes stay within the memory they count')
    eff = effects.Effects(m)
    inl, readers, setters = sets(m, eff)
    tasks = []
    for n, ks in targets(m):
        for nulls in ((), tuple(k for k, x in enumerate(ks) if x == 'out')) if 'out' in ks and not n.startswith('FL2_decompress') else ((),):
            thr = [()]
            if n == 'FL2_decompressStream':
                thr = [(('decompressThread', a), ('decmt', b)) for a in (0, 1) for b in (0, 1)]
            if n == 'FL2_decompressDCtx':
                thr = [(('blocks', 1),)]
            for t in thr:
                tasks.append((n, ks, nulls, t))
    for a in ('overlap_fraction is at most 14 and dictionary_size at most 2^30 (shown by C07); 64-bit counts are at most 2^60 unless they carry an error code',
              'LZMA2_decodeToBuf and LZMA2_decodeToDic report no more bytes consumed or produced than they were given (their contract; the decoder inside is not analysed here)',
              'the read position in the input chain is at most the length of its current node; a job given to the thread pool runs at once',
              'a one-shot function may rely on the same property of the one-shot functions it calls',
              'FL2_decompressDCtx is decided for a context without a block list (single-threaded); the sums over blocks of the multi-threaded one are not'):
        ctx.assume.append(a)
    ctx.notes.append('entry points: ' + ', '.join(sorted({t[0] for t in tasks})))
    ctx.parallel(tasks, lambda c, t: one(c, m, eff, inl, readers, setters, t))
    for r, n in (('inside', 20), ('position', 60), ('result', 5), ('block', 1), ('array', 4), ('counter', 4)):
        ctx.floor(r, n)
