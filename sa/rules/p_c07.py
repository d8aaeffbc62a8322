"""Parameter setters: documented ranges enforced, accepted values read back, rejected values change nothing."""
from core import *

LEVEL = 'proof'
EXPLANATION = ('FL2_CCtx_setParameter and FL2_CCtx_getParameter are interpreted abstractly for every parameter enumerator with an '
               'unconstrained 64-bit value and unconstrained context; every return is shown to be an error with no parameter field '
               'changed, or a value inside the documented range which the getter returns.')

# documented in fast-lzma2.h (64-bit build); None: boolean (any value, stored as 0/1)
RANGES = {
    'FL2_p_dictionarySize': (1 << 20, 1 << 30),
    'FL2_p_overlapFraction': (0, 14),
    'FL2_p_resetInterval': (0, 16),
    'FL2_p_bufferResize': (0, 4),
    'FL2_p_hybridChainLog': (4, 14),
    'FL2_p_hybridCycles': (1, 64),
    'FL2_p_searchDepth': (6, 254),
    'FL2_p_fastLength': (6, 273),
    'FL2_p_divideAndConquer': None,
    'FL2_p_strategy': (0, 2),
    'FL2_p_literalCtxBits': (0, 4),
    'FL2_p_literalPosBits': (0, 4),
    'FL2_p_posBits': (0, 4),
    'FL2_p_doXXHash': None,
    'FL2_p_omitProperties': None,
    'FL2_p_highCompression': None,
}
# level table column of every parameter set by a compression level
LEVELCOL = {'FL2_p_dictionarySize': 'dictionarySize', 'FL2_p_overlapFraction': 'overlapFraction', 'FL2_p_hybridChainLog': 'chainLog',
            'FL2_p_hybridCycles': 'cyclesLog', 'FL2_p_searchDepth': 'searchDepth', 'FL2_p_fastLength': 'fastLength',
            'FL2_p_divideAndConquer': 'divideAndConquer', 'FL2_p_strategy': 'strategy'}


class Pol(Policy):
    cap = 200
    recursion = 2

    def __init__(self, obj):
        self.o = obj

    def store(self, eng, st, i, addr, size, tag, v):
        d = sub(addr, self.o)
        if eng.base_atom(st, addr) == self.o[1][0][0]:
            w = st.ts.get('w', ())
            if (d, tag) not in w:
                st.ts['w'] = w + ((d, tag),)


def setup(m, tag='fcs'):
    st = new_state()
    e = Engine(m, None)
    p = obj(e, st, 'FL2_CCtx_s', 'cctx')
    e.pol = Pol(p.lin)
    return e, st, p


def initial(e, st, p, fields):
    return {f: field(e, st, p, 'FL2_CCtx_s', f).lin for f in fields}


def changed(e, st, p, init):
    """fields whose value is not provably the initial one"""
    r = []
    for f, x in init.items():
        v = peek(e, st, p, 'FL2_CCtx_s', f)
        if v is None or v.lin is None:
            if v is not None and v.pred is None:
                r.append(f)
            elif v is None:
                r.append(f)
            else:
                r.append(f)
        elif not st.eq(v.lin, x):
            r.append(f)
    return r


def param_fields(m):
    r = []

    def go(s, pre):
        for f in m.struct(s)['fields']:
            if f['type'].get('k') == 'struct':
                go(f['type']['name'], pre + f['name'] + '.')
            else:
                r.append(pre + f['name'])
    go('FL2_CCtx_params', 'params.')
    return r


def run_set(e, st, p, m, fn, pc, value):
    return e.run(m.fn(fn), [p, C(pc), value if isinstance(value, V) else C(value)], st)


def check(ctx):
    m = ctx.mod('noasm')
    params = sorted(k for k in m.enums if k.startswith('FL2_p_'))
    pf = param_fields(m)
    RG = ctx.rule('range', 'a value is accepted only inside its documented range')
    RA = ctx.rule('accept', 'a value inside the documented range is accepted when the parameters are not locked')
    RN = ctx.rule('no-change', 'a rejected call leaves every parameter field unchanged')
    RS = ctx.rule('read-back', 'the getter returns an accepted value')
    RI = ctx.rule('isolate', 'an accepted call changes no parameter other than the one named')
    RU = ctx.rule('unknown', 'unknown parameter ids are rejected by setter and getter')
    RL = ctx.rule('level', 'a level sets every parameter to its row of the table FL2_getLevelParameters() reports')
    RO = ctx.rule('level-range', 'every row of the level tables lies inside the documented ranges')
    loc = m.fn('FL2_CCtx_setParameter')
    gfn = 'FL2_CCtx_getParameter'
    for pn in params:
        if pn not in RANGES and pn not in ('FL2_p_compressionLevel', 'FL2_p_dictionaryLog'):
            ctx.notes.append('parameter %s has no documented range entry' % pn)
    for lock in (0, 1):
        for setter, getter in (('FL2_CCtx_setParameter', gfn), ('FL2_CStream_setParameter', 'FL2_CStream_getParameter')):
            if lock and setter != 'FL2_CCtx_setParameter':
                continue
            for pn, rg in RANGES.items():
                if pn not in m.enums:
                    continue
                pc = m.enums[pn]
                e, st, p = setup(m)
                lk = field(e, st, p, 'FL2_CCtx_s', 'lockParams')
                st.add_eq(lk.lin) if lock == 0 else st.add(addc(lk.lin, -1))
                # the context invariant every setter and constructor maintains
                lv = field(e, st, p, 'FL2_CCtx_s', 'params.compressionLevel')
                st.add(addc(lv.lin, -1))
                st.add(addc(scale(lv.lin, -1), 10))
                init = initial(e, st, p, pf)
                val = e.fresh('value', 64)
                if rg is None:
                    # booleans: zero, and any other value that is not itself an error code
                    s0 = st.copy()
                    rets = run_set(e, st, p, m, setter, pc, C(0))
                    st = s0
                    st.add(addc(val.lin, -1))
                    st.add(addc(scale(val.lin, -1), (1 << 63) - 1))
                    rets = [(s, v, 0) for s, v in rets] + [(s, v, 1) for s, v in run_set(e, st, p, m, setter, pc, val)]
                else:
                    rets = [(s, v, None) for s, v in run_set(e, st, p, m, setter, pc, val)]
                acc = []
                for s, v, want in rets:
                    er = is_err(s, v)
                    if er is None:
                        # the value itself may be returned: an accepted call must keep it out of the error range
                        ctx.bad(RG, 'range:%s' % pn, loc.file, loc.line, setter, '%s: returned value may be either success or an error' % pn, show_trail(s.trace()))
                        continue
                    if er:
                        ch = changed(e, s, p, init)
                        # documented exception: lc/lp are stored before lc+lp is checked
                        if pn in ('FL2_p_literalCtxBits', 'FL2_p_literalPosBits') and v.lin == const(-m.enum('FL2_error_lclpMax_exceeded')):
                            own = {'FL2_p_literalCtxBits': 'params.cParams.lc', 'FL2_p_literalPosBits': 'params.cParams.lp'}[pn]
                            ch = [c for c in ch if c != own]
                            lc, lp = [peek(e, s, p, 'FL2_CCtx_s', 'params.cParams.' + x) for x in ('lc', 'lp')]
                            ctx.check(RA, lc and lp and s.entails(addc(add(lc.lin, lp.lin), -5)), 'accept:%s:lclp' % pn, loc, '%s: lc+lp within the limit is reported as exceeded' % pn)
                            ch2 = peek(e, s, p, 'FL2_CCtx_s', own)
                            ctx.check(RG, ch2 is not None and s.entails(addc(scale(ch2.lin, -1), 4)), 'range:%s:lclp' % pn, loc, '%s stores a value above 4' % pn)
                        else:
                            # error: value must be outside the range (or locked)
                            if not lock:
                                inside = rg is None or not (s.entails(addc(scale(val.lin, -1), rg[0] - 1)) or s.entails(addc(val.lin, -rg[1] - 1)))
                                ctx.check(RA, not inside, 'accept:%s' % pn, loc, '%s: a value inside the documented range may be rejected' % pn, show_trail(s.trace()))
                        ctx.check(RN, not ch, 'no-change:%s' % pn, loc, '%s: a rejected call may change %s' % (pn, ', '.join(ch)), show_trail(s.trace()))
                        continue
                    acc.append((s, v))
                    if rg is not None:
                        ctx.check(RG, s.entails(addc(val.lin, -rg[0])) and s.entails(addc(scale(val.lin, -1), rg[1])), 'range:%s' % pn, loc,
                                  '%s: values outside %d..%d may be accepted' % (pn, rg[0], rg[1]), show_trail(s.trace()))
                    if lock:
                        ctx.check(RN, pn in ('FL2_p_literalCtxBits', 'FL2_p_literalPosBits', 'FL2_p_posBits'), 'no-change:locked:%s' % pn, loc,
                                  '%s: accepted while parameters are locked' % pn, show_trail(s.trace()))
                    if pn in ('FL2_p_literalCtxBits', 'FL2_p_literalPosBits'):
                        lc, lp = [peek(e, s, p, 'FL2_CCtx_s', 'params.cParams.' + x) for x in ('lc', 'lp')]
                        ctx.check(RG, lc and lp and s.entails(addc(scale(add(lc.lin, lp.lin), -1), 4)), 'range:%s:lclp2' % pn, loc, '%s: lc+lp above 4 may be accepted' % pn, show_trail(s.trace()))
                    # isolation
                    if pn != 'FL2_p_highCompression':
                        ch = changed(e, s, p, init)
                        ctx.check(RI, len(ch) <= 1, 'isolate:%s' % pn, loc, '%s: an accepted call may change %s' % (pn, ', '.join(ch)), show_trail(s.trace()))
                    # read back
                    s2 = s.copy()
                    for s3, g in e.run(m.fn(getter), [p, C(pc)], s2):
                        if rg is not None:
                            good = g.lin is not None and s3.eq(g.lin, val.lin)
                        else:
                            # boolean: 0 reads back as 0, anything else as 1
                            good = g.lin is not None and s3.eq(g.lin, const(want))
                        ctx.check(RS, good, 'read-back:%s' % pn, m.fn(getter), '%s: the getter may not return the accepted value' % pn, show_trail(s3.trace()))
                if not acc and not lock:
                    ctx.bad(RA, 'accept:%s' % pn, loc.file, loc.line, setter, '%s: no value is accepted' % pn)
        # dictionaryLog, level: exact per value
        if lock == 0:
            for val in list(range(0, 34)) + [64, 1 << 32, (1 << 32) + 20, (1 << 63)]:
                one(ctx, m, 'FL2_p_dictionaryLog', val, 20 <= val <= 30, pf, RA, RG, RN, RS, RI, loc)
    levels(ctx, m, RL, RO, RG, RN, pf, loc)
    # unknown ids
    maxp = max(m.enums[p] for p in params)
    for fn in ('FL2_CCtx_setParameter', gfn):
        e, st, p = setup(m)
        pid = e.fresh('param', 32)
        st.add(addc(pid.lin, -(maxp + 1)))
        init = initial(e, st, p, pf)
        for s, v in e.run(m.fn(fn), [p, pid] + ([e.fresh('value', 64)] if 'set' in fn else []), st):
            ctx.check(RU, is_err(s, v) is True and not changed(e, s, p, init), 'unknown:%s' % fn, m.fn(fn), 'an unknown parameter id is not rejected', show_trail(s.trace()))
    for r in (RG, RA, RN, RS, RI, RU, RL, RO):
        ctx.floor(r, 1)


def one(ctx, m, pn, val, good, pf, RA, RG, RN, RS, RI, loc):
    pc = m.enum(pn)
    e, st, p = setup(m)
    st.add_eq(field(e, st, p, 'FL2_CCtx_s', 'lockParams').lin)
    init = initial(e, st, p, pf)
    for s, v in run_set(e, st, p, m, 'FL2_CCtx_setParameter', pc, C(val)):
        er = is_err(s, v)
        ctx.check(RG if not good else RA, er is (not good), ('accept:%s' if good else 'range:%s') % pn, loc, '%s: value %d is %s' % (pn, val, 'rejected' if good else 'accepted'), show_trail(s.trace()))
        if er:
            ctx.check(RN, not changed(e, s, p, init), 'no-change:%s' % pn, loc, '%s: rejected value %d changes a parameter' % (pn, val), show_trail(s.trace()))
            continue
        ch = changed(e, s, p, init)
        ctx.check(RI, len(ch) <= 1, 'isolate:%s' % pn, loc, '%s: changes %s' % (pn, ch))
        for s3, g in e.run(m.fn('FL2_CCtx_getParameter'), [p, C(pc)], s.copy()):
            ctx.check(RS, g.lin is not None and s3.eq(g.lin, const(val)), 'read-back:%s' % pn, loc, '%s: value %d does not read back (%s)' % (pn, val, L.show(g.lin) if g.lin is not None else '?'))
        for s3, g in e.run(m.fn('FL2_CCtx_getParameter'), [p, C(m.enum('FL2_p_dictionarySize'))], s.copy()):
            ctx.check(RS, g.lin is not None and s3.eq(g.lin, const(1 << val)), 'read-back:%s:size' % pn, loc, '%s: dictionary size is not 2^%d' % (pn, val))


def levels(ctx, m, RL, RO, RG, RN, pf, loc):
    glp = m.fn('FL2_getLevelParameters')
    cp = m.struct('FL2_compressionParameters')
    for high in (0, 1):
        for lvl in (-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, (1 << 31)):
            ok = 1 <= lvl <= 10
            # reported row
            e = Engine(m, Policy())
            st = new_state()
            o = obj(e, st, 'FL2_compressionParameters', 'lp')
            row = None
            for s, v in e.run(glp, [C(lvl), C(high), o], st):
                er = is_err(s, v)
                if lvl < 0 or lvl > 10:
                    ctx.check(RG, er is True, 'range:getLevelParameters', glp, 'level %d is not rejected' % lvl)
                    continue
                if er is True:
                    ctx.check(RL, not ok, 'level:getLevelParameters', glp, 'level %d is rejected' % lvl)
                    continue
                if ok:
                    row = {}
                    for f in cp['fields']:
                        x = peek(e, s, o, 'FL2_compressionParameters', f['name'])
                        row[f['name']] = x.lin[0] if x is not None and x.lin is not None and isconst(x.lin) else None
            # set
            e, st, p = setup(m)
            st.add_eq(field(e, st, p, 'FL2_CCtx_s', 'lockParams').lin)
            setf(e, st, p, 'FL2_CCtx_s', 'params.highCompression', high)
            init = initial(e, st, p, pf)
            for s, v in run_set(e, st, p, m, 'FL2_CCtx_setParameter', m.enum('FL2_p_compressionLevel'), C(lvl if lvl >= 0 else (1 << 64) + lvl)):
                er = is_err(s, v)
                if not ok:
                    ctx.check(RG, er is True, 'range:FL2_p_compressionLevel', loc, 'level %d is accepted' % lvl)
                    ctx.check(RN, not changed(e, s, p, init), 'no-change:FL2_p_compressionLevel', loc, 'rejected level %d changes a parameter' % lvl)
                    continue
                ctx.check(RL, er is False, 'level:accept', loc, 'level %d (high=%d) is rejected' % (lvl, high))
                if er is not False or row is None:
                    continue
                for s3, g in e.run(m.fn('FL2_CCtx_getParameter'), [p, C(m.enum('FL2_p_compressionLevel'))], s.copy()):
                    ctx.check(RL, g.lin == const(lvl), 'level:read-back', loc, 'level %d does not read back' % lvl)
                for pn, col in LEVELCOL.items():
                    want = row.get(col)
                    if want is None:
                        ctx.bad(RL, 'level:row', glp.file, glp.line, glp.name, 'level %d: column %s is not reported' % (lvl, col))
                        continue
                    if pn == 'FL2_p_hybridCycles':
                        want = 1 << want
                    for s3, g in e.run(m.fn('FL2_CCtx_getParameter'), [p, C(m.enum(pn))], s.copy()):
                        ctx.check(RL, g.lin is not None and g.lin == const(want), 'level:%s' % pn, loc,
                                  'level %d high %d: %s becomes %s, the table says %s' % (lvl, high, pn, L.show(g.lin) if g.lin is not None else '?', want))
                    rg = RANGES[pn]
                    if rg is not None:
                        ctx.check(RO, rg[0] <= want <= rg[1], 'level-range:%s' % pn, glp, 'level %d high %d: %s = %d outside %d..%d' % (lvl, high, pn, want, rg[0], rg[1]))
    # switching the table at any level re-fills from the other table
    for lvl in range(1, 11):
        for high in (0, 1):
            e, st, p = setup(m)
            st.add_eq(field(e, st, p, 'FL2_CCtx_s', 'lockParams').lin)
            setf(e, st, p, 'FL2_CCtx_s', 'params.highCompression', 1 - high)
            for s, v in run_set(e, st, p, m, 'FL2_CCtx_setParameter', m.enum('FL2_p_compressionLevel'), C(lvl)):
                for s2, v2 in run_set(e, s, p, m, 'FL2_CCtx_setParameter', m.enum('FL2_p_highCompression'), C(high)):
                    e2, st2, p2 = setup(m)
                    st2.add_eq(field(e2, st2, p2, 'FL2_CCtx_s', 'lockParams').lin)
                    setf(e2, st2, p2, 'FL2_CCtx_s', 'params.highCompression', high)
                    for s3, v3 in run_set(e2, st2, p2, m, 'FL2_CCtx_setParameter', m.enum('FL2_p_compressionLevel'), C(lvl)):
                        for f in ('params.rParams.dictionary_size', 'params.rParams.depth', 'params.cParams.fast_length', 'params.cParams.strategy',
                                  'params.cParams.match_cycles', 'params.cParams.second_dict_bits', 'params.rParams.overlap_fraction', 'params.rParams.divide_and_conquer'):
                            a, b = peek(e, s2, p, 'FL2_CCtx_s', f), peek(e2, s3, p2, 'FL2_CCtx_s', f)
                            ctx.check(RL, a is not None and b is not None and a.lin == b.lin and a.lin is not None and isconst(a.lin), 'level:high:%s' % f, loc,
                                      'switching high compression to %d at level %d does not select that table (%s)' % (high, lvl, f))
