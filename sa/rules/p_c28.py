"""The stream's input buffers: writes stay inside them, and never hit what a background compression is reading."""
from core import *
from ai import p_ge, p_gt, p_not
import apimodel
import effects

LEVEL = 'proof'
EXPLANATION = ('Inductive invariant of the dictionary buffer(s) inside a compression stream: every exported stream function is interpreted '
               'abstractly from every state in which the invariant holds, with a background compression running or not; each copy into a '
               'buffer is shown to lie inside it and outside the block being compressed, and the invariant is shown to hold again afterwards.')
S = 'FL2_CCtx_s'
B = 'buf.'


class Pol(Policy):
    cap = 6
    max_depth = 12

    def __init__(self, run, inl):
        self.r, self.inl = run, inl

    def key(self, st):
        x = [st.ts.get('busy')]
        for f in (B + 'index', 'lockParams', 'endMarked'):
            v = peek(self.r.e, st, self.r.p, S, f)
            l = v.lin if v is not None else None
            x.append(l if l is not None and isconst(l) else None)
        for f in (B + 'start', B + 'end', 'curBlock.data', 'curBlock.start', 'curBlock.end'):
            v = peek(self.r.e, st, self.r.p, S, f)
            x.append(v and v.lin)
        for k in range(2):
            v = st.mem.get(self.r.cells[k])
            x.append(v and v[0].lin)
        v = peek(self.r.e, st, self.r.p, S, B + 'size')
        x.append(v and v.lin)
        return tuple(x)

    def fresh_load(self, eng, st, i, addr, size, tag, v):
        # the parameters keep their documented ranges (see `param`)
        if tag == ('RMF_parameters', 'dictionary_size'):
            st.add(addc(v.lin, -(1 << 20)))
            st.add(addc(scale(v.lin, -1), 1 << 30))
        if tag == ('RMF_parameters', 'overlap_fraction'):
            st.add(addc(scale(v.lin, -1), 14))

    def valsig(self, st, v):
        # a result which is an error is not merged with one which is not
        if v is None or v.lin is None:
            return 'x'
        r = is_err(st, v, self.r.maxcode)
        return 'x' if r is None else r

    def cap_for(self, fn):
        if getattr(fn, 'name', fn) == self.r.op.fn:
            return 24
        return self.cap if getattr(fn, 'name', fn) in self.inl else 2

    def cut(self, eng, f, h, items):
        """loops which work on the input buffers: the invariant of the buffers is the loop invariant"""
        r = self.r
        body = f.loops[h]
        called = {i.d['callee'][1] for b in body for i in f.blocks[b] if i.op == 'call' and i.d['callee'][0] == 'f'}
        if not any(n in self.inl and r.dict(n) for n in called):
            return None
        if ('tag', ('DICT_buffer', 'data')) in eng.eff.w[f.name] or ('tag', ('DICT_buffer', 'size')) in eng.eff.w[f.name]:
            return None
        entry = []
        for s, p in items:
            if p is not None and p != -1:
                eng.do_phis(f, s, h, p)
            if not s.dead:
                entry.append(s)
        phis = [i.id for i in f.blocks[h] if i.op == 'phi']
        res = {'ret': [], 'exit': []}

        def obligation(s, where):
            bad = r.holds(s)
            if eng.rec > 0:
                k = 'invariant:%s:%s:%s' % (f.name, where, bad and bad[0])
                r.ctx.check('invariant', not bad, k, f.blocks[h][0], 'at the loop of %s (%s) cannot show: %s' % (f.name, where, '; '.join(bad)), show_trail(s.trace()))

        def frame(s):
            lk = field(eng, s, r.p, S, 'lockParams').lin
            em = field(eng, s, r.p, S, 'endMarked').lin
            return 'open' if s.entails(addc(lk, -1)) else 'ended' if s.entails(addc(em, -1)) else None
        for s in entry:
            obligation(s, 'first entered')
        work, seen = list(entry), set()
        while work:
            s = work.pop()
            fr = frame(s)
            k = (fr, tuple(v.lin if isinstance(v, V) and isconst(v.lin or L.ZERO) else None for v in (s.frames[-1].get(x) for x in phis)), s.ts.get('busy') if fr is None else 0)
            if k in seen:
                continue
            seen.add(k)
            n = s.copy()
            eng.havoc_tags(n, {t[1] for t in eng.eff.w[f.name] if t[0] == 'tag'} - {(S, 'lockParams'), (S, 'endMarked')})
            for a in list(n.mem):
                if n.mem[a][2] is None or n.mem[a][2][0] == 'DICT_buffer' and n.mem[a][2][1] not in ('data', 'size', 'async', 'overlap', 'reset_interval'):
                    del n.mem[a]
            fm = dict(n.frames[-1])
            for x in phis:
                if x in fm and isinstance(fm[x], V) and not (fm[x].lin is not None and isconst(fm[x].lin)):
                    fm[x] = eng.fresh_ty(('loop', f.name), f.insts[x].ty)
            n.frames = n.frames[:-1] + (fm,)
            for c in r.cases(fr):
                q = r.assume(n.copy(), *c)
                if q is None:
                    continue
                x = eng.run_region(f, body, h, [(q, -1)], h)
                res['ret'] += x['ret']
                res['exit'] += x['exit']
                for b, p in x['back']:
                    eng.do_phis(f, b, h, p)
                    if not b.dead:
                        obligation(b, 'around')
                        work.append(b)
        return res

    def inline(self, eng, name):
        return name in self.inl

    def call(self, eng, st, i, name, args):
        r = self.r
        if name == 'FL2POOL_waitAll':
            ct = field(eng, st, r.p, S, 'compressThread')
            if args[0].lin is None or args[0].lin != ct.lin:
                return [(st, eng.fresh('waited', 32))]
            out = []
            for s in st.copy().assume(('ne', args[0].lin)) if st.ts.get('busy') else ():
                if args[1].lin is not None and args[1].lin != const(0):
                    o = s.copy()
                    o.note('%s: the wait times out' % i.where())
                    out.append((o, C(1)))
                s.ts['busy'] = 0
                out.append((s, C(0)))
            if not st.ts.get('busy'):
                out.append((st, C(0)))
            return out
        if name in ('FL2POOL_add', 'FL2POOL_addRange'):
            ct = field(eng, st, r.p, S, 'compressThread')
            if args[0].lin is not None and args[0].lin == ct.lin:
                r.inblock(eng, st, i)
                eng.check(st, i, 'excluded', not st.ts.get('busy'), 'a compression is started while another may still be running')
                st.ts['busy'] = 1
            return [(st, None)]
        if name == 'FL2POOL_free':
            ct = field(eng, st, r.p, S, 'compressThread')
            if args[0].lin is not None and args[0].lin == ct.lin:
                st.ts['busy'] = 0
            return [(st, None)]
        if name == 'FL2POOL_create':
            v = eng.fresh_ptr('pool', True)
            o = st.copy()
            return [(st, v), (o, VZ)]
        if name in r.readers:
            r.inblock(eng, st, i)
        if name in r.keepcur and not self.inline(eng, name):
            b = [addc(r.p.lin, path_off(r.m, S, 'curBlock.' + x)[0]) for x in ('data', 'start', 'end')]
            b = [(k, st.mem[k]) for k in b if k in st.mem]
            ct = field(eng, st, r.p, S, 'compressThread')
            eng.havoc_call(st, i, name, args)
            for k, v in b:
                st.mem[k] = v
            if name not in r.starters:
                return [(st, None)]
            # may start the background compression
            eng.check(st, i, 'excluded', not st.ts.get('busy'), 'a compression is started while another may still be running')
            out = [(st, None)]
            for s in st.copy().assume(('ne', ct.lin)):
                s.ts['busy'] = 1
                s.note('%s: %s starts a background compression' % (i.where(), name))
                out.append((s, None))
            return out
        return None

    def store(self, eng, st, i, addr, size, tag, v):
        if tag is None:
            self.r.access(eng, st, i, addr, size if size.__class__ is tuple else const(size), 'write')

    def load(self, eng, st, i, addr, size, tag):
        if tag is None:
            self.r.access(eng, st, i, addr, size if size.__class__ is tuple else const(size), 'read')


class Run:
    """one exported function from one case of the invariant"""

    def __init__(self, ctx, m, eff, inl):
        self.ctx, self.m, self.inl = ctx, m, inl
        self.maxcode = m.enum('FL2_error_maxCode')
        self.e = Engine(m, None, eff)
        self.e.pol = Pol(self, inl)

    def dict(self, fn):
        """the function itself, or one it calls, works on the input buffers"""
        fn = getattr(fn, 'name', fn)
        return any(t[0] == 'tag' and t[1][0] == 'DICT_buffer' for t in self.e.eff.w.get(fn, set()) | self.e.eff.r.get(fn, set()))

    def g(self, st, f):
        return field(self.e, st, self.p, S, f).lin

    def cell(self, st, k):
        off = path_off(self.m, S, 'buf.data')[0] + 8 * k
        return self.e.load_mem(st, None, addc(self.p.lin, off), 8, 'ptr', ('DICT_buffer', 'data'))

    def start(self, asy, idx, frame, busy, shape):
        """a state of the invariant"""
        e = self.e
        st = new_state()
        self.p = obj(e, st, S, 'stream')
        self.asy = asy
        self.cells = [addc(self.p.lin, path_off(self.m, S, 'buf.data')[0] + 8 * k) for k in range(2)]
        setf(e, st, self.p, S, B + 'async', asy)
        sz = field(e, st, self.p, S, B + 'size').lin
        for k in range(2):
            p = e.fresh_ptr('data%d' % k, bool(frame))
            if k == 0 or asy:
                c = e.fresh('alloc%d' % k, 62)
                e.set_region(st, p, c.lin, 'dict')
                st.add(sub(c.lin, sz))
            else:
                p = VZ
            off = path_off(self.m, S, 'buf.data')[0] + 8 * k
            st.mem[addc(self.p.lin, off)] = (p, 8, ('DICT_buffer', 'data'))
        return self.assume(st, idx, frame, busy, shape)

    def assume(self, st, idx, frame, busy, shape):
        """restrict st to one case of the invariant. frame: None (no frame), 'open' or 'ended'; busy: None, 'same' or 'other' (the buffer
        being compressed); shape: which alternative of the invariant of the busy/other case holds"""
        e = self.e
        setf(e, st, self.p, S, 'buf.index', idx)
        g = lambda f: field(e, st, self.p, S, f).lin
        s, en, sz, ov, tot, rs = (g(B + x) for x in ('start', 'end', 'size', 'overlap', 'total', 'reset_interval'))
        lk, em = g('lockParams'), g('endMarked')
        st.add(addc(scale(tot, -1), 1 << 60))
        st.add(addc(scale(rs, -1), 1 << 60))
        st.ts['busy'] = 1 if busy else 0
        if not frame:
            setf(e, st, self.p, S, 'lockParams', 0)
            setf(e, st, self.p, S, 'endMarked', 0)
        else:
            if frame == 'open':
                st.add(addc(lk, -1))
                setf(e, st, self.p, S, 'endMarked', 0)
            else:
                setf(e, st, self.p, S, 'lockParams', 0)
                st.add(addc(em, -1))
                st.add_eq(sub(s, en))
            st.add(sub(en, s))
            st.add(sub(sz, en))
            st.add(addc(sz, -(1 << 20)))
            st.add(addc(scale(sz, -1), 1 << 30))
            st.add(addc(sub(sz, ov), -64))
        if busy:
            st.add(addc(g('compressThread'), -4096))
            cb, cs, ce = self.block(st)
            k = idx ^ (busy == 'other')
            setf(e, st, self.p, S, 'curBlock.data', self.cell(st, k))
            st.add(sub(ce.lin, cs.lin))
            st.add(sub(sz, ce.lin))
            if busy == 'same':
                st.add(sub(s, ce.lin))
            else:
                for q in self.safe(st)[shape]:
                    st = (st.assume(q) or [None])[0]
                    if st is None:
                        return None
        return None if st.dead else st

    def cases(self, frame):
        r = []
        for idx in range(1 + self.asy):
            r += [(idx, frame, None, None)]
            if frame == 'open':
                r += [(idx, frame, 'same', None)] + [(idx, frame, 'other', k) for k in range(3) if self.asy]
        return r

    def safe(self, st):
        """while the other buffer is being compressed the buffers must not be exchanged: the alternatives which exclude that"""
        g = lambda f: field(self.e, st, self.p, S, B + f).lin
        return [[p_gt(g('end'), g('start'))], [('eq', g('end'))],
                [('ne', g('overlap')), p_ge(addc(g('overlap'), 15), g('end')), p_ge(g('reset_interval'), sub(add(g('total'), g('size')), g('overlap')))]]

    def holds(self, st):
        """what of the invariant is not shown to hold in st: list of texts"""
        bad = []
        g = lambda f: field(self.e, st, self.p, S, f)
        gl = lambda f: g(B + f).lin
        lk, em = g('lockParams').lin, g('endMarked').lin
        asy, idx = gl('async'), gl('index')
        if not isconst(asy) or not isconst(idx) or idx[0] not in (0, asy[0]):
            return ['the index of the current buffer']
        for frame in ([('ne', lk)], [('eq', lk), ('ne', em)], [('eq', lk), ('eq', em)]):
            ss = [st.copy()]
            for q in frame:
                ss = [t for s in ss for t in s.assume(q)]
            for s in ss:
                if s.dead:
                    continue
                for k in range(1 + asy[0]):
                    c = self.cell(s, k)
                    if c.lin == L.ZERO or c.lin is None:
                        if frame[0][0] == 'ne' or frame[1][0] == 'ne':
                            bad.append('a buffer of an open frame is missing')
                        continue
                    a = c.lin[1][0][0]
                    if a not in s.reg or not s.entails(sub(s.reg[a][0], gl('size'))):
                        bad.append('the buffer has at least the recorded size')
                if frame[0][0] == 'eq' and frame[1][0] == 'eq':
                    if s.ts.get('busy'):
                        bad.append('no background compression outside a frame')
                    continue
                if not s.entails(sub(gl('end'), gl('start'))):
                    bad.append('start <= end')
                if not s.entails(sub(gl('size'), gl('end'))):
                    bad.append('end <= size')
                if not s.entails(addc(sub(gl('size'), gl('overlap')), -64)):
                    bad.append('the overlap is smaller than the buffer')
                if frame[0][0] == 'eq' and not s.entails(sub(gl('start'), gl('end'))):
                    bad.append('no input is left after the end of the stream was written')
                if s.ts.get('busy'):
                    b, cs, ce = self.block(s)
                    x = self.buf(s, b.lin) if b.lin is not None else None
                    if x is None or x[1] != L.ZERO or not s.entails(sub(ce.lin, cs.lin)) or not s.entails(sub(gl('size'), ce.lin)):
                        bad.append('the block being compressed is known')
                    elif x[0] == idx[0]:
                        if not s.entails(sub(gl('start'), ce.lin)):
                            bad.append('new input begins after the block being compressed')
                    else:
                        # every alternative excluded: must be impossible
                        rest = [s.copy()]
                        for alt in self.safe(s):
                            nxt = []
                            for r in rest:
                                for q in alt:
                                    nxt += r.copy().assume(p_not(q))
                            rest = [r for r in nxt if not r.dead]
                        if rest:
                            bad.append('the buffers are not exchanged while the other one is being compressed')
        return bad

    def block(self, st):
        return [field(self.e, st, self.p, S, 'curBlock.' + x) for x in ('data', 'start', 'end')]

    def buf(self, st, addr):
        """(which buffer, offset, allocated size) of an address inside one of the input buffers"""
        for k in range(2):
            v = self.cell(st, k)
            if v.lin is not None and len(v.lin[1]) == 1 and v.lin[1][0][1] == 1 and v.lin[1][0][0] in st.reg:
                a = v.lin[1][0][0]
                if any(x == a and n == 1 for x, n in addr[1]):
                    return k, sub(addr, v.lin), st.reg[a][0]
        return None

    def access(self, eng, st, i, addr, size, what):
        x = self.buf(st, addr)
        if x is None:
            return
        k, off, cap = x
        eng.check(st, i, 'inside', lambda: st.entails(off) and st.entails(sub(cap, add(off, size))),
                  lambda: 'cannot show that a %s of %s bytes at offset %s stays inside the input buffer' % (what, L.show(size), L.show(off)))
        if what == 'write':
            eng.check(st, i, 'excluded', lambda: self.free(st, k, off) or st.eq(size, L.ZERO),
                      'the input buffer is written where a background compression may be reading it')

    def free(self, st, k, off):
        """buffer k from offset off on is not in use by a background compression"""
        if not st.ts.get('busy'):
            return True
        b, s, e = self.block(st)
        x = self.buf(st, b.lin) if b.lin is not None else None
        return x is not None and (x[0] != k or x[1] == L.ZERO and st.entails(sub(off, e.lin)))

    def inblock(self, eng, st, i):
        b, s, e = self.block(st)
        x = self.buf(st, b.lin) if b.lin is not None else None
        eng.check(st, i, 'block', lambda: x is not None and st.entails(sub(e.lin, s.lin)) and st.entails(sub(x[2], add(x[1], e.lin))) and st.entails(add(x[1], s.lin)),
                  'the block given to the compressor is not shown to lie inside the input buffer')

    def never(self, st, preds):
        """no state in which all of preds hold"""
        ss = [st.copy()]
        for p in preds:
            ss = [t for s in ss for t in s.assume(p)]
        return not [s for s in ss if not s.dead]


def check(ctx):
    m = ctx.mod('noasm')
    ctx.rule('inside', 'every copy into or out of an input buffer lies inside its allocation')
    ctx.rule('excluded', 'no part of a buffer which a background compression may be reading is written, and no other compression is started meanwhile')
    ctx.rule('block', 'a block given to the compressor lies inside the buffer')
    ctx.rule('handed', 'the buffer handed out for direct writing lies inside the allocation, outside the block being compressed')
    ctx.rule('invariant', 'every exported call preserves start <= end <= size <= allocation, and the exclusion of the buffer being compressed')
    eff = effects.Effects(m)
    thread = (S, 'compressThread')
    inl = {n for n, f in m.fns.items() if not f.decl and any(t[0] == 'tag' and (t[1][0] == 'DICT_buffer' or t[1] in (thread, (S, 'lockParams'), (S, 'endMarked')))
                                                             for t in eff.w.get(n, set()) | eff.r.get(n, set()))}
    readers = {n for n, f in m.fns.items() if not f.decl and n not in inl and ('tag', (S, 'curBlock')) in eff.r.get(n, set())
               or not f.decl and n not in inl and ('tag', ('FL2_dataBlock', 'data')) in eff.r.get(n, set())}
    # functions without effects which only compute their result
    inl |= {n for n, f in m.fns.items() if not f.decl and not eff.w[n] and not eff.r[n] and not f.loops and len(f.insts) < 40}
    keepcur = keeps(m, eff)
    # functions which do no more than start the compression of the current block
    starters = {n for n in keepcur & inl if starts(eff, n) and not any(t[0] == 'tag' and (t[1][0] == 'DICT_buffer' or t[1] in (
        (S, 'lockParams'), (S, 'endMarked'), thread)) for t in eff.w[n]) and not any(t[0] == 'tag' and t[1][0] == 'DICT_buffer' for t in eff.r[n])}
    inl -= starters
    readers |= starters
    H, cr, ops = apimodel.group(m, 'cstream1')
    ctx.assume.append('FL2_updateDictionary() is given no more than the size of the buffer handed out, as its documentation requires; the total of all input since a dictionary reset is below 2^60')
    seen, tasks = set(), []
    for op in ops:
        if op.frees or op.fn in seen and op.args[1:2] != [0]:
            continue
        seen.add(op.fn)
        for asy, idx in ((0, 0), (1, 0), (1, 1)):
            for frame, busy, shape in [(None, None, None), ('open', None, None), ('ended', None, None), ('open', 'same', None)] + \
                    ([('open', 'other', k) for k in range(3)] if asy else []):
                tasks.append((op, asy, idx, frame, busy, shape))
    # the longest first
    tasks.sort(key=lambda t: (t[0].fn != 'FL2_compressStream', t[3] != 'open', not t[1]))
    ctx.parallel(tasks, lambda c, t: one(c, m, eff, inl, (readers, starters, keepcur), *t))
    for r, n in (('inside', 10), ('excluded', 10), ('block', 5), ('handed', 5), ('invariant', 100)):
        ctx.floor(r, n)


def keeps(m, eff):
    """functions which do not write the stream's current block: all they write of that type lies inside other structures"""

    def chain(f, o):
        r = []
        while o[0] == 'i' and f.insts[o[1]].op in ('getelementptr', 'bitcast'):
            i = f.insts[o[1]]
            if i.op == 'getelementptr':
                for p in reversed(i.d.get('path', [])):
                    if p[0] == 's':
                        x = m.field_at(p[1], p[3])
                        r.append((p[1], x['name'] if x else None))
            o = i.ops[0]
        return r, o

    # the linker merges types of one layout: the names the block type has in the program
    D = {'FL2_dataBlock'}
    for n in eff.callees:
        for i in m.fns[n].insts.values():
            if i.op == 'getelementptr':
                r = chain(m.fns[n], ('i', i.id))[0]
                if (S, 'curBlock') in r:
                    D |= {t[0] for t in r[:r.index((S, 'curBlock'))]}

    def may(f, o):
        r, base = chain(f, o)
        if (S, 'curBlock') in r:
            return True
        own = base[0] == 'i' and f.insts[base[1]].op == 'alloca' or base[0] == 'a' and f.args[base[1]].get('byval')
        if own:
            return False
        if r:
            return all(t[0] in D for t in r)
        # an untagged pointer: only as a whole block
        di = f.args[base[1]].get('di') if base[0] == 'a' else (f.vars.get(str(base[1])) or (0, None))[1] if base[0] == 'i' else None
        return 'FL2_dataBlock' in repr(di)

    bad = set()
    for n in eff.callees:
        f = m.fns[n]
        for b in f.blocks:
            for i in b:
                if i.op == 'store' and may(f, i.ops[1]) or i.op == 'call' and i.d['callee'][0] == 'f' and i.d['callee'][1].startswith(('llvm.mem', 'mem')) and may(f, i.ops[0]):
                    bad.add(n)
    return {n for n in eff.callees if not eff.reach([n]) & bad}


def starts(eff, n):
    return any(c in ('FL2POOL_add', 'FL2POOL_addRange') and a and any(x[0] == 'loaded' and (S, 'compressThread') in [y[1] for y in x[1:]] for x in a[0])
               for g in eff.reach([n]) for c, a in eff.callees[g])


def arg(r, st, kind):
    e = r.e
    if kind == 'ctx':
        return r.p
    if kind in ('in', 'out'):
        sn = next((x for x in (('FL2_inBuffer', 'FL2_inBuffer_s') if kind == 'in' else ('FL2_outBuffer', 'FL2_outBuffer_s')) if x in r.m.structs), None)
        if sn is None:
            raise AnalysisError('anchor: the buffer type of the stream interface not found')
        p = obj(e, st, sn, kind)
        b = field(e, st, p, sn, 'src' if kind == 'in' else 'dst')
        sz, pos = field(e, st, p, sn, 'size'), field(e, st, p, sn, 'pos')
        st.add(addc(scale(sz.lin, -1), (1 << 62)))
        st.add(sub(sz.lin, pos.lin))
        st.add(addc(b.lin, -4096))
        e.set_region(st, b, sz.lin, 'user')
        return p
    if kind == 'obj':
        return e.fresh_ptr('result', True)
    if kind == 'int':
        return e.fresh('arg', 32, True)
    if kind in ('u8', 'u32'):
        return e.fresh('arg', int(kind[1:]))
    if kind == 'size':
        return e.fresh('size', 64)
    return C(kind)


def one(ctx, m, eff, inl, readers, op, asy, idx, frame, busy, shape):
    r = Run(ctx, m, eff, inl)
    r.readers, r.starters, r.keepcur = readers
    r.op = op
    st = r.start(asy, idx, frame, busy, shape)
    if st is None:
        return
    args = [arg(r, st, k) for k in op.args]
    if op.fn == 'FL2_updateDictionary' and frame:
        st.add(sub(sub(r.g(st, B + 'size'), r.g(st, B + 'end')), args[1].lin))
    f = m.fn(op.fn)
    case = '%s, %s buffer(s), current %d%s' % ({None: 'no frame', 'open': 'frame open', 'ended': 'end written'}[frame], 1 + asy, idx,
                                              '' if not busy else ', the %s buffer being compressed' % busy)
    st.note('entry: ' + case)
    for s, v in r.e.run(f, args, st):
        if s.dead:
            continue
        bad = r.holds(s)
        ctx.check('invariant', not bad, 'invariant:%s:%s' % (op.fn, bad and bad[0]), f, 'after %s (%s) cannot show: %s' % (op.name, case, '; '.join(bad)), show_trail(s.trace()))
        if op.fn == 'FL2_getDictionaryBuffer':
            s = (s.copy().assume(('eq', v.lin)) or [None])[0]      # success is 0
            if s is None or s.dead:
                continue
            b, n = field(r.e, s, args[1], 'FL2_dictBuffer', 'dst'), field(r.e, s, args[1], 'FL2_dictBuffer', 'size')
            x = r.buf(s, b.lin) if b.lin is not None else None
            ctx.check('handed', x is not None and s.entails(x[1]) and s.entails(sub(x[2], add(x[1], n.lin))), 'handed:size', f,
                      'the buffer handed out may reach beyond the allocation (%s)' % case, show_trail(s.trace()))
            ctx.check('handed', x is not None and r.free(s, x[0], x[1]), 'handed:busy', f,
                      'the buffer handed out may be in use by a background compression (%s)' % case, show_trail(s.trace()))
    for o in r.e.obl.values():
        if o['kind'] not in ctx.rules:
            continue
        if o['fail']:
            ctx.bad(o['kind'], '%s:%s' % (o['kind'], o['fn']), o['file'], o['line'], o['fn'], '%s [%s, %s]' % (o['fail']['msg'], op.name, case), show_trail(o['fail']['trail']))
        else:
            ctx.ok(o['kind'], None)
