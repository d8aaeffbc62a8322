"""Decompression calls interpreted from every state of a stream or context: what was hashed, what was compared, what moved."""
import sys
from core import *
import effects
import p_c27

DS = 'FL2_DStream_s'
DC = 'FL2_DCtx_s'


class Pol(p_c27.Pol):
    cap = 8

    def cap_for(self, fn):
        n = getattr(fn, 'name', fn)
        return 100 if n in self.r.wide else p_c27.Pol.cap_for(self, fn)

    def key(self, st):
        return (Policy.key(self, st), self.r.shape(st))

    def fkey(self, fn, st):
        if fn.name in self.r.wide and self.r.entry == 'FL2_decompressStream' and 'progress' in self.r.ctx.rules:
            return self.r.moves(st)

    def loop_key(self, eng, fn, st):
        return self.r.shape(st)

    def ret(self, eng, st, fn, v):
        self.r.norm(st)

    def call(self, eng, st, i, name, args):
        g = self.r.m.fns.get(name)
        if self.r.fds is None and name not in self.r.contracts and g is not None and not g.decl and g.loops and any(self.r.user(a) for a in args):
            # work on several threads: any result, any contents
            v = self.r.result(eng, st, i, name, args)
            o = st.copy()
            st.add(addc(scale(v.lin, -1), 1 << 60))
            x = eng.fresh('error')
            o.add(addc(scale(x.lin, -1), -1))
            o.add(addc(x.lin, self.r.maxcode - 1))
            return [(st, v), (o, x)]
        return p_c27.Pol.call(self, eng, st, i, name, args)

    def store(self, eng, st, i, addr, size, tag, v):
        p_c27.Pol.store(self, eng, st, i, addr, size, tag, v)
        if tag == ('FL2_outBuffer', 'pos') and isinstance(v, V):
            self.r.norm(st, v.lin)
        if tag == (DS, 'xxhPos') and isinstance(v, V) and v.lin is not None:
            n = self.r.g(st, self.r.G)
            if n is not None and n != v.lin and st.eq(n, v.lin):
                self.r.setg(st, self.r.G, v.lin)
        if tag == (DS, 'loopCount') and self.r.entry == 'FL2_decompressStream':
            self.r.count(st, i, v)

    def hints(self, eng, fn, header, slots):
        """values which change together keep their difference"""
        out = p_c27.Pol.hints(self, eng, fn, header, slots)
        l = [(a, e.lin) for s, (a, e) in slots.items() if a is not None and e is not None and e.lin is not None and ATOMS[a].kind not in ('ptr', 'heap', 'alloca')]
        for k in range(len(l)):
            for j in range(k):
                d = sub(sub(var(l[k][0]), var(l[j][0])), sub(l[k][1], l[j][1]))
                out += [d, scale(d, -1)]
        return out


class Run(p_c27.Run):
    def __init__(self, ctx, m, eff):
        p_c27.Run.__init__(self, ctx, m, eff)
        self.e.pol = Pol(self)
        self.fds = None
        self.ctxp = None
        self.last = None
        self.ghost = var(new_atom(('ghost',), 4096, 1 << 62, 'alloca'))
        self.contracts.update({'XXH32_digest': self.digest, 'XXH32_hashFromCanonical': self.canon, 'XXH32_reset': self.hash_reset})

    def g(self, st, k):
        e = st.mem.get(addc(self.ghost, 8 * k))
        return None if e is None else e[0].lin

    def setg(self, st, k, v):
        st.mem[addc(self.ghost, 8 * k)] = (v if isinstance(v, V) else V(v), 8, None)

    def norm(self, st, p=None):
        """the end of what is hashed is written like the position of the output where they are equal"""
        if self.fds is None:
            return
        h = self.g(st, self.H)
        if p is None:
            v = peek(self.e, st, self.outp, 'FL2_outBuffer', 'pos')
            p = v.lin if v is not None else None
        if h is not None and p is not None and h != p and st.eq(h, p):
            self.setg(st, self.H, p)
        n = self.g(st, self.G)
        v = peek(self.e, st, self.fds, DS, 'xxhPos')
        if n is not None and v is not None and v.lin is not None and n != v.lin and st.eq(n, v.lin):
            self.setg(st, self.G, v.lin)

    def count(self, st, i, v):
        o0, i0, l0 = self.at0
        o1, i1 = field(self.e, st, self.outp, 'FL2_outBuffer', 'pos').lin, field(self.e, st, self.inp, 'FL2_inBuffer', 'pos').lin
        do, di = sub(o1, o0), sub(i1, i0)
        moved = any(st.entails(addc(d, -1)) or st.is_ne(d) for d in (do, di))
        still = st.eq(do, L.ZERO) and st.eq(di, L.ZERO)
        sg = field(self.e, st, self.fds, DS, 'stage').lin
        fin = isconst(sg) and sg[0] == self.m.enums['FL2DEC_STAGE_FINISHED']
        x = v.lin if isinstance(v, V) else None
        if x is not None and st.eq(x, L.ZERO):
            self.e.check(st, i, 'progress', moved or fin, 'the count of calls without progress is cleared though neither position has moved')
            st.ts['count'] = 'zero'
        else:
            self.e.check(st, i, 'progress', x is not None and st.eq(x, addc(l0, 1)), 'the count of calls without progress is set to another value')
            self.e.check(st, i, 'progress', still, 'a call is counted as idle though it may have made progress')
            st.ts['count'] = 'idle'

    def shape(self, st):
        if self.fds is None:
            return None
        r = []
        for n in ('doHash', 'stage'):
            v = peek(self.e, st, self.fds, DS, n)
            l = v.lin if v is not None else None
            r.append(None if l is None else l[0] if isconst(l) else 1 if st.entails(addc(l, -1)) else 0 if st.eq(l, L.ZERO) else None)
        v = peek(self.e, st, self.fds, DS, 'asyncRes')
        r.append(None if v is None or v.lin is None else is_err(st, v, self.maxcode))
        return tuple(r)

    def moves(self, st):
        """whether a position is known to have moved (1), or none (0)"""
        r = []
        for p, sn, x0 in ((self.outp, 'FL2_outBuffer', self.at0[0]), (self.inp, 'FL2_inBuffer', self.at0[1])):
            q = peek(self.e, st, p, sn, 'pos')
            d = None if q is None or q.lin is None else sub(q.lin, x0)
            r.append(None if d is None else 0 if d == L.ZERO else 1 if st.is_ne(d) or st.entails(addc(d, -1)) else 0 if st.eq(d, L.ZERO) else None)
        return (1 if 1 in r else 0 if r == [0, 0] else None)

    def access(self, eng, st, i, addr, size, tag, write):
        if self.user(addr) is not None:
            if not write:
                self.last = (i.id, i.line, addr)
                if size == const(4) and self.fds is None:
                    self.setg(st, self.FROM, addr)
            return
        if write and tag in ((DS, 'xxhIn'), ('XXH32_canonical_t', 'digest')) and self.fds is not None and any(a == self.fdsatom for a, _ in addr[1]):
            lo = self.arrays[DS, 'xxhIn'][0]
            n = self.g(st, self.G)
            off = addc(sub(addr, self.fds.lin), -lo)
            eng.check(st, i, 'gather', lambda: st.eq(size, L.ZERO) or n is not None and st.eq(off, n),
                      lambda: 'bytes of the check sum are stored at offset %s, after %s were received' % (L.show(off), n and L.show(n)))
            if self.last is not None and self.last[0] == i.id and self.user(self.last[2]) is not None:
                a = self.last[2]
                p = field(eng, st, self.inp, 'FL2_inBuffer', 'pos')
                eng.check(st, i, 'gather', lambda: st.eq(size, L.ZERO) or st.eq(sub(a, var(self.user(a))), p.lin),
                          lambda: 'bytes of the check sum are not read at the position of the input')
            if n is not None:
                self.setg(st, self.G, add(n, size))

    H, G, D, K, LEN, DIFF, FROM, POS = range(1, 9)

    def both(self, st, k, v):
        """digest or expected value; their difference is kept"""
        self.setg(st, k, v)
        d, e = self.g(st, self.D), self.g(st, self.K)
        if d is not None and e is not None:
            self.setg(st, self.DIFF, sub(d, e))

    def block(self, eng, st, i):
        pass

    def inside(self, *a):
        pass

    def hash_update(self, eng, st, i, args):
        if self.fds is None:
            return None
        h = self.g(st, self.H)
        a, n = args[1].lin, args[2].lin
        u = self.user(a) if a is not None else None
        eng.check(st, i, 'hashed', lambda: st.eq(n, L.ZERO) or u == self.outatom and h is not None and st.eq(sub(a, var(u)), h),
                  lambda: 'the hash is continued with bytes at %s, but it covers the output up to %s' % (a and L.show(a), h and L.show(h)))
        eng.check(st, i, 'reset', self.stage0 != 'INIT' or st.ts.get('reset') is True, 'the hash is continued for a new frame without being reset')
        x = field(eng, st, self.fds, DS, 'xxh')
        eng.check(st, i, 'hashed', args[0].lin is not None and st.eq(args[0].lin, x.lin), 'another hash state is used')
        if h is not None:
            self.setg(st, self.H, add(h, n))
        self.both(st, self.D, eng.fresh('stale', 32))
        return [(st, eng.fresh('xxh', 32))]

    def hash_reset(self, eng, st, i, args):
        eng.check(st, i, 'reset', args[1].lin is not None and st.eq(args[1].lin, L.ZERO), 'the seed of the hash is not 0')
        st.ts['reset'] = True
        return [(st, eng.fresh('xxh', 32))]

    def digest(self, eng, st, i, args):
        d = eng.fresh('digest', 32)
        x = field(eng, st, self.fds, DS, 'xxh')
        eng.check(st, i, 'compared', args[0].lin is not None and st.eq(args[0].lin, x.lin), 'the digest is not that of the stream')
        self.both(st, self.D, d)
        return [(st, d)]

    def canon(self, eng, st, i, args):
        d = eng.fresh('expected', 32)
        if self.fds is not None:
            lo = self.arrays[DS, 'xxhIn'][0]
            n = self.g(st, self.G)
            eng.check(st, i, 'gather', args[0].lin is not None and st.eq(addc(sub(args[0].lin, self.fds.lin), -lo), L.ZERO) and n is not None and st.eq(n, const(4)),
                      'the check sum is evaluated before its four bytes were received')
        else:
            a, p = self.g(st, self.FROM), self.g(st, self.POS)
            eng.check(st, i, 'gather', lambda: a is not None and (p is None or st.eq(a, p)), 'the check sum is not read where the data ends')
        self.both(st, self.K, d)
        return [(st, d)]

    def hash_all(self, eng, st, i, args):
        d = eng.fresh('digest', 32)
        if self.fds is None:
            eng.check(st, i, 'hashed', args[0].lin is not None and self.user(args[0]) == self.outatom and st.eq(args[0].lin, var(self.outatom)), 'the hash is not that of the output')
            eng.check(st, i, 'reset', st.eq(args[2].lin, L.ZERO), 'the seed of the hash is not 0')
            self.both(st, self.D, d)
            self.setg(st, self.LEN, args[1])
        return [(st, d)]


    def decode_dic(self, eng, st, i, args):
        a = args[2].lin
        out = p_c27.Run.decode_dic(self, eng, st, i, args)
        if self.fds is None and a is not None:
            for s, v in out:
                self.setg(s, self.POS, add(a, s.mem[args[3].lin][0].lin))
        return out


def buffers(r, st):
    e = r.e
    out = []
    for sn, fn, w in (('FL2_outBuffer', 'dst', True), ('FL2_inBuffer', 'src', False)):
        p = obj(e, st, sn, fn)
        b, sz, ps = field(e, st, p, sn, fn), field(e, st, p, sn, 'size'), field(e, st, p, sn, 'pos')
        st.add(addc(scale(sz.lin, -1), 1 << 60))
        st.add(sub(sz.lin, ps.lin))
        st.add(addc(b.lin, -4096))
        e.set_region(st, b, sz.lin, 'user')
        a = b.lin[1][0][0]
        r.bufs[a] = (w, ps.lin, sz.lin)
        if w:
            r.outatom = a
        out.append((p, b, sz, ps))
    r.outp, r.inp = out[0][0], out[1][0]
    return out


def prepare(ctx, m, eff, sets):
    r = Run(ctx, m, eff)
    r.inl, r.readers, r.setters = sets
    r.shots, r.oneshot = {}, False
    r.wide = {n for n in m.fns if ('tag', (DS, 'loopCount')) in eff.w.get(n, ())} | writers(m, eff, (DS, 'loopCount'))
    r.arrays = p_c27.arrays(m, eff)
    r.ranges = {(DS, c): r.arrays[DS, a][1] - r.arrays[DS, a][0] for c, a in (('overlapSize', 'overlap'),)}
    return r


def writers(m, eff, tag):
    return {n for n, f in m.fns.items() if not f.decl and any(
        i.op == 'store' and any(t[0] in ('tag', 'ptag') and t[-1] == tag for t in eff.root(f, i.ops[1])) for i in f.insts.values())}


def sets(m, eff):
    ub = set(p_c27.INB + p_c27.OUTB)
    touch = lambda n: any(t[0] == 'tag' and t[1][0] in ub for t in eff.w.get(n, set()) | eff.r.get(n, set()))
    inl = {n for n, f in m.fns.items() if not f.decl and touch(n)}
    inl |= {n for n, f in m.fns.items() if not f.decl and not f.loops and len(f.insts) < 60
            and not any(c[0] in m.fns and not m.fns[c[0]].decl and m.fns[c[0]].loops for c in eff.callees[n])}
    return inl, set(), set()


STATE = [(DS, n) for n in ('stage', 'xxhPos', 'doHash')]
STAGES = ('INIT', 'DECOMP', 'MT_WRITE', 'HASH', 'FINISHED')


def stream(ctx, m, eff, ss, task):
    """FL2_decompressStream from one stage"""
    stage, mt, thr = task
    S = m.enums
    r = prepare(ctx, m, eff, ss)
    e = r.e
    f = m.fn('FL2_decompressStream')
    r.entry = f.name
    r.forced.add(f.name)
    r.stage0 = stage
    st = new_state()
    p = obj(e, st, DS, 'fds')
    (po, bo, so, o0), (pi, bi, si, i0) = buffers(r, st)
    for n, x in (('decmt', mt), ('decompressThread', thr)):
        if x:
            v = field(e, st, p, DS, n)
            st.add(addc(v.lin, -4096))
        else:
            setf(e, st, p, DS, n, 0)
    setf(e, st, p, DS, 'stage', S['FL2DEC_STAGE_' + stage])
    early = stage in ('INIT', 'DECOMP', 'MT_WRITE')
    x = e.fresh('xxhPos', 60)
    setf(e, st, p, DS, 'xxhPos', 0 if early else x)
    st.add(addc(scale(x.lin, -1), 4))
    if stage != 'INIT':
        x = e.fresh('doHash', 8)
        setf(e, st, p, DS, 'doHash', x)
        if 'compared' in ctx.rules:
            st.add(addc(x.lin, -1)) if stage != 'FINISHED' else None
        elif stage == 'HASH':
            st.add(addc(x.lin, -1))
    if not mt:
        if stage == 'MT_WRITE':
            return
    lc = e.fresh('loopCount', path_off(m, DS, 'loopCount')[2])
    st.add(addc(scale(lc.lin, -1), 2 * LIMIT))
    setf(e, st, p, DS, 'loopCount', lc)
    r.fds, r.fdsatom = p, p.lin[1][0][0]
    r.setg(st, r.H, o0.lin)
    r.setg(st, r.G, field(e, st, p, DS, 'xxhPos').lin)
    r.at0 = (o0.lin, i0.lin, lc.lin)
    for k, v in enumerate((bo.lin, so.lin, o0.lin, bi.lin, si.lin, i0.lin, lc.lin)):
        r.setg(st, 10 + k, v)
    e.pol.join_bounds = [so.lin, si.lin, o0.lin, i0.lin]
    what = 'FL2_decompressStream in stage %s%s%s' % (stage, ', several threads' if mt else '', ', background thread' if thr else '')
    st.note('entry: ' + what)
    n = 0
    for s, v in e.run(f, [p, po, pi], st):
        if s.dead:
            continue
        n += 1
        tr = show_trail(s.trace())
        er = is_err(s, v, r.maxcode)
        if er is True:
            continue
        h = lambda k: field(e, s, p, DS, k).lin
        ck = lambda rule, ok, key, msg: rule in ctx.rules and ctx.check(rule, ok, '%s:%s' % (rule, key), f, '%s: %s' % (what, msg), tr)
        if stage == 'FINISHED' and thr:
            pass
        o1, i1 = field(e, s, po, 'FL2_outBuffer', 'pos').lin, field(e, s, pi, 'FL2_inBuffer', 'pos').lin
        sg, dh = h('stage'), h('doHash')
        fin = isconst(sg) and sg[0] == S['FL2DEC_STAGE_FINISHED']
        known = isconst(sg) or s.is_ne(addc(sg, -S['FL2DEC_STAGE_FINISHED'])) or s.entails(addc(scale(sg, -1), S['FL2DEC_STAGE_FINISHED'] - 1))
        zero = v.lin is not None and s.eq(v.lin, L.ZERO)
        ck('end', known and zero == fin and (zero or v.lin is not None and (s.entails(addc(v.lin, -1)) or s.is_ne(v.lin))), 'result',
           'the result may say the frame is complete though it is not, or the reverse')
        nohash = s.eq(dh, L.ZERO)
        if not nohash:
            ck('hashed', s.eq(r.g(s, r.H), o1), 'all', 'bytes were written to the output which the hash does not cover')
            if fin and stage != 'FINISHED':
                d = r.g(s, r.DIFF)
                ck('compared', d is not None and s.eq(d, L.ZERO), 'equal', 'the frame is reported complete though the check sum was not found equal')
            elif not fin:
                ck('gather', s.eq(h('xxhPos'), r.g(s, r.G)), 'count', 'the number of bytes of the check sum received so far is not kept')
        if isconst(sg) and sg[0] < S['FL2DEC_STAGE_HASH']:
            ck('gather', s.eq(h('xxhPos'), L.ZERO), 'early', 'bytes of the check sum are counted before the end of the data')
        if stage == 'INIT' and not nohash and not (isconst(sg) and sg[0] == S['FL2DEC_STAGE_INIT']):
            ck('reset', s.ts.get('reset') is True, 'init', 'the hash is not reset when a frame is started')
        if not fin:
            l1 = h('loopCount')
            k = s.ts.get('count')
            ck('progress', k is not None, 'counted', 'the count of calls without progress is not updated')
            if k == 'idle':
                ck('progress', s.eq(l1, addc(lc.lin, 1)) and s.entails(addc(scale(l1, -1), LIMIT)), 'limit', 'more than %d calls without progress may succeed in a row' % LIMIT)
            elif k == 'zero':
                ck('progress', s.eq(l1, L.ZERO), 'zero', 'the count of calls without progress is not cleared by progress')
    if not n:
        raise AnalysisError('no path: ' + what)
    take(ctx, e, what)


LIMIT = 16


def take(ctx, e, what):
    for o in e.obl.values():
        if o['kind'] not in ctx.rules:
            continue
        if o['fail']:
            ctx.bad(o['kind'], '%s:%s' % (o['kind'], o['fn']), o['file'], o['line'], o['fn'], '%s [%s]' % (o['fail']['msg'], what), show_trail(o['fail']['trail']))
        else:
            ctx.ok(o['kind'], '%s %s:%s' % (what, o['fn'], o['line']))


def unset(m, eff):
    """constants which mark that a context has no property yet"""
    r = set()
    for f in m.fns.values():
        for i in f.insts.values():
            if i.op == 'store' and i.ops[0][0] == 'c' and any(t[0] in ('tag', 'ptag') and t[-1] == (DC, 'lzma2prop') for t in eff.root(f, i.ops[1])):
                r.add(i.ops[0][1] & 0xFF)
    return r


def oneshot(ctx, m, eff, ss, task):
    """FL2_decompressDCtx: property byte given before or first in the source"""
    blocks, first = task
    r = prepare(ctx, m, eff, ss)
    e = r.e
    f = m.fn('FL2_decompressDCtx')
    r.entry = f.name
    r.forced.add(f.name)
    r.stage0 = None
    st = new_state()
    p = obj(e, st, DC, 'dctx')
    u = e.fresh('lzma2prop', 8)
    setf(e, st, p, DC, 'lzma2prop', u)
    marks = unset(m, eff)
    if not marks:
        raise AnalysisError('no value marks a context without property')
    if first:
        if len(marks) != 1:
            raise AnalysisError('several values mark a context without property')
        setf(e, st, p, DC, 'lzma2prop', marks.copy().pop())
    else:
        for x in marks:
            st.add_ne(addc(u.lin, -x))
    if blocks:
        st.add(addc(field(e, st, p, DC, 'blocks').lin, -4096))
    else:
        setf(e, st, p, DC, 'blocks', 0)
    args, b = [p], None
    for n in ('dst', 'src'):
        q, z = e.fresh_ptr(n, True), e.fresh(n + 'Size', 60)
        e.set_region(st, q, z.lin, 'user')
        r.bufs[q.lin[1][0][0]] = (n == 'dst', L.ZERO, z.lin)
        args += [q, z]
    r.outatom = args[1].lin[1][0][0]
    b = e.fresh('first byte', 8)
    st.mem[args[3].lin] = (b, 1, None)
    flag = b.lin if first else u.lin
    for k, v in enumerate((args[2].lin, args[4].lin, flag)):
        r.setg(st, 10 + k, v)
    e.pol.join_bounds = [args[2].lin, args[4].lin]
    what = 'FL2_decompressDCtx, property %s%s' % ('first in the source' if first else 'set before', ', several threads' if blocks else '')
    st.note('entry: ' + what)
    n = 0
    for s, v in e.run(f, args, st):
        if s.dead or is_err(s, v, r.maxcode) is True:
            continue
        n += 1
        if s.eq(e.div_(s, flag, 128), L.ZERO):
            continue
        tr = show_trail(s.trace())
        d, l = r.g(s, r.DIFF), r.g(s, r.LEN)
        ctx.check('compared', d is not None and s.eq(d, L.ZERO), 'compared:dctx', f, '%s: data with check sum is accepted though it was not found equal' % what, tr)
        ctx.check('hashed', l is not None and v.lin is not None and s.eq(l, v.lin), 'hashed:dctx', f, '%s: the hash covers %s bytes, %s are reported' % (
            what, l and L.show(l), v.lin and L.show(v.lin)), tr)
    if not n:
        raise AnalysisError('no path: ' + what)
    take(ctx, e, what)


def start(ctx, m, eff, ss, name):
    """functions which begin a frame or make a stream"""
    r = prepare(ctx, m, eff, ss)
    e = r.e
    S = m.enums
    f = m.fn(name)
    r.inl = r.inl | {n for n, g in m.fns.items() if not g.decl and any(t[0] == 'tag' and t[1] in STATE for t in eff.w[n])}
    r.entry = name
    r.forced.add(name)
    r.stage0 = 'INIT'
    st = new_state()
    make = not any((a.get('di') or {}).get('k') == 'ptr' for a in f.args)
    args = []
    for a in f.args:
        if (a.get('di') or {}).get('k') == 'ptr':
            p = obj(e, st, DS, 'fds')
            args.append(p)
        else:
            args.append(e.fresh_ty('arg', a['ty']))
    if not make:
        r.fds, r.fdsatom = p, p.lin[1][0][0]
        r.setg(st, r.G, L.ZERO)
        r.outp = obj(e, st, 'FL2_outBuffer', 'none')
        r.outatom = -1
    st.note('entry: ' + name)
    n = 0
    for s, v in e.run(f, args, st):
        if s.dead or (s.eq(v.lin, L.ZERO) if make else is_err(s, v, r.maxcode) is True):
            continue
        n += 1
        tr = show_trail(s.trace())
        q = v if make else p
        h = lambda k: field(e, s, q, DS, k).lin
        sg, dh = h('stage'), h('doHash')
        ctx.check('gather', s.eq(h('xxhPos'), L.ZERO), 'gather:%s' % name, f, 'after %s bytes of an earlier check sum may count for the next frame' % name, tr)
        ctx.check('end', isconst(sg) and sg[0] in (S['FL2DEC_STAGE_INIT'], S['FL2DEC_STAGE_DECOMP']), 'end:%s' % name, f, 'after %s the stream may not be at the start of a frame' % name, tr)
        if not (isconst(sg) and sg[0] == S['FL2DEC_STAGE_INIT']):
            ctx.check('reset', s.eq(dh, L.ZERO) or s.ts.get('reset') is True, 'reset:%s' % name, f, 'the hash is not reset by %s' % name, tr)
            b = args[1].lin if len(args) > 1 else None
            ctx.check('reset', b is not None and s.eq(dh, e.div_(s, b, 128)),
                      'reset:%s:flag' % name, f, '%s may not follow the check sum flag of the property byte' % name, tr)
    if not n:
        raise AnalysisError('no path: ' + name)
    take(ctx, e, name)


class CPol(p_c27.Pol):
    def cap_for(self, fn):
        n = getattr(fn, 'name', fn)
        return 48 if n == self.r.entry or n in self.r.wide else p_c27.Pol.cap_for(self, fn)

    def key(self, st):
        return (Policy.key(self, st), self.r.moves(st))

    def store(self, eng, st, i, addr, size, tag, v):
        p_c27.Pol.store(self, eng, st, i, addr, size, tag, v)
        if tag == (CS, 'loopCount'):
            self.r.count(st, i, v)


CS = 'FL2_CCtx_s'


class CRun(p_c27.Run):
    """compression stream: which calls are counted as idle"""

    def __init__(self, ctx, m, eff):
        p_c27.Run.__init__(self, ctx, m, eff)
        self.e.pol = CPol(self)
        self.wide = writers(m, eff, (CS, 'loopCount'))
        self.at0 = ()

    def moves(self, st):
        """which positions are known to have moved"""
        r = []
        for x, sn, p, b, sz, ps in self.at0:
            q = peek(self.e, st, p, sn, 'pos')
            d = None if q is None or q.lin is None else sub(q.lin, ps.lin)
            r.append(None if d is None else 0 if d == L.ZERO else 1 if st.is_ne(d) or st.entails(addc(d, -1)) else 0 if st.eq(d, L.ZERO) else None)
        return tuple(r)

    def begin(self, st, f, args, pos):
        self.f = f
        self.at0 = pos
        l = self.e.fresh('loopCount', path_off(self.m, CS, 'loopCount')[2])
        setf(self.e, st, self.ctxp, CS, 'loopCount', l)
        st.add(addc(scale(l.lin, -1), 2 * LIMIT))
        self.l0 = l.lin
        ghost = var(new_atom(('ghost',), 4096, 1 << 62, 'alloca'))
        st.mem[ghost] = (l, 8, None)

    def count(self, st, i, v):
        d = [sub(field(self.e, st, p, sn, 'pos').lin, ps.lin) for x, sn, p, b, sz, ps in self.at0]
        moved = any(st.entails(addc(x, -1)) or st.is_ne(x) for x in d)
        still = all(st.eq(x, L.ZERO) for x in d)
        x = v.lin if isinstance(v, V) else None
        if x is not None and st.eq(x, L.ZERO):
            self.e.check(st, i, 'progress', moved or not self.at0, 'the count of calls without progress is cleared though no position has moved [%s]' % self.f.name)
            st.ts['count'] = 'zero'
        else:
            self.e.check(st, i, 'progress', x is not None and st.eq(x, addc(self.l0, 1)), 'the count of calls without progress is set to another value')
            self.e.check(st, i, 'progress', still and bool(self.at0), 'a call is counted as idle though it may have made progress')
            st.ts['count'] = 'idle'

    def done(self, s, v):
        if is_err(s, v, self.maxcode) is True:
            return
        tr = show_trail(s.trace())
        n = self.f.name
        k = s.ts.get('count')
        l1 = field(self.e, s, self.ctxp, CS, 'loopCount').lin
        ck = lambda ok, key, msg: self.ctx.check('progress', ok, 'progress:%s:%s' % (n, key), self.f, '%s: %s' % (n, msg), tr)
        ck(k is not None, 'counted', 'the count of calls without progress is not updated')
        if k == 'idle':
            ck(s.eq(l1, addc(self.l0, 1)) and s.entails(addc(scale(l1, -1), LIMIT)), 'limit', 'more than %d calls without progress may succeed in a row' % LIMIT)
        elif k == 'zero':
            ck(s.eq(l1, L.ZERO), 'zero', 'the count of calls without progress is not cleared by progress')


def compress(ctx, m, eff, cs, task):
    p_c27.one(ctx, m, eff, *cs, task, CRun)
