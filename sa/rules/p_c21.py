"""Results are recognized: error test, error code, texts, time-out, and every error a function returns is a documented one."""
import re
from core import *
import effects
from rules.p_c22 import reachable
LEVEL = 'proof'
EXPLANATION = ('The functions which classify a result are interpreted for an unconstrained result and for every enumerator; every constant which can reach the '
               'return of a library function which returns a size is traced backward and must be a size or a documented error.')


class Pol(Policy):
    cap = 200


def text(m, s, v):
    """the string a result points at"""
    if v is None or v.lin is None or len(v.lin[1]) != 1 or v.lin[1][0][1] != 1:
        return None
    d = ATOMS[v.lin[1][0][0]].desc
    if d[0] != 'global':
        return None
    init = m.globals.get(d[1], {}).get('init')
    if not isinstance(init, list) or not m.globals[d[1]].get('const'):
        return None
    return bytes(x & 255 for x in init[v.lin[0]:]).split(b'\0')[0].decode('latin1')


def check(ctx):
    m = ctx.mod('noasm')
    ctx.rule('test', 'FL2_isError() is true exactly for the values below zero down to the last error code (as unsigned 64-bit), FL2_isTimedOut() for the time-out alone')
    ctx.rule('code', 'FL2_getErrorCode() gives the code of every error and zero for every other result')
    ctx.rule('text', 'every code has a text of its own, and any other value the text for unknown codes')
    ctx.rule('constant', 'every negative constant which a function returns as a size is a documented error')
    codes = {k: v for k, v in m.enums.items() if k.startswith('FL2_error_')}
    last = m.enum('FL2_error_maxCode')
    real = {k: v for k, v in codes.items() if k != 'FL2_error_maxCode'}
    if len(real) < 10:
        raise AnalysisError('error codes not found')
    top = 1 << 64
    ctx.check('code', len(set(real.values())) == len(real) and all(0 <= v < last for v in real.values()), 'code:enum', m.fn('FL2_getErrorCode'), 'error codes are not distinct or not below the maximum')

    def must(name, rule, lo, hi, want):
        """the result for every code in lo..hi"""
        f = m.fn(name)
        e = Engine(m, None)
        e.pol = Pol()
        st = new_state()
        a = e.fresh('code', 64) if lo < hi else C(lo)
        st.add(addc(a.lin, -lo))
        st.add(addc(scale(a.lin, -1), hi))
        n = 0
        for s, v in e.run(f, [a], st):
            if s.dead:
                continue
            n += 1
            ctx.check(rule, want(s, v, a), '%s:%s:%d' % (rule, name, lo - top if lo > 1 << 63 else lo), f, '%s does not give the right result for results from %s to %s' % tuple(
                [name] + [str(x - top if x > 1 << 63 else x) for x in (lo, hi)]), show_trail(s.trail), '%s %d..%d' % (name, lo, hi))
        if not n:
            raise AnalysisError('no path through ' + name)

    def truth(b):
        def w(s, v, a):
            if v.lin is None:
                return v.pred is not None and s.decide(v.pred) is b
            if b:
                return s.entails(addc(v.lin, -1)) or s.entails(addc(scale(v.lin, -1), -1))
            return s.eq(v.lin, const(0))
        return w
    err, tim = top - last + 1, top - codes['FL2_error_timedOut']
    must('FL2_isError', 'test', 0, err - 1, truth(False))
    must('FL2_isError', 'test', err, top - 1, truth(True))
    must('FL2_isTimedOut', 'test', 0, err - 1, truth(False))
    for c in range(1, last):
        must('FL2_isTimedOut', 'test', top - c, top - c, truth(top - c == tim))
    must('FL2_getErrorCode', 'code', 0, err - 1, truth(False))
    for c in range(1, last):
        must('FL2_getErrorCode', 'code', top - c, top - c, lambda s, v, a: v.lin is not None and s.eq(v.lin, const(c)))
    seen = {}
    for name, conv in (('FL2_getErrorString', lambda c: c), ('FL2_getErrorName', lambda c: top - c if c else 0)):
        other = set()
        for c in range(0, last + 3):
            f = m.fn(name)
            for k in ([c] if name == 'FL2_getErrorString' or c < last else [0, 1, 5, 1 << 40]):
                e = Engine(m, None)
                e.pol = Pol()
                for s, v in e.run(f, [C(conv(k) if c < last else k)], new_state()):
                    if s.dead:
                        continue
                    t = text(m, s, v)
                    if t is None:
                        ctx.bad('text', 'text:%s' % name, f.file, f.line, name, 'no constant text is returned for code %d' % c)
                    elif c in real.values():
                        o = seen.setdefault(t, c)
                        ctx.check('text', o == c and t != '', 'text:%s:%d' % (name, c), f, 'codes %d and %d have the same text' % (o, c), (), '%s %d' % (name, c))
                        seen.setdefault((c,), t)
                        ctx.check('text', seen[c,] == t, 'text:%s:%d:same' % (name, c), f, 'FL2_getErrorName and FL2_getErrorString differ for code %d' % c)
                    elif name == 'FL2_getErrorString' or c < last:
                        other.add(t)
                        ctx.check('text', len(other) == 1 and t not in [x for x in seen if isinstance(x, str)], 'text:%s:%d' % (name, c), f, 'unknown code %d has the text of a known one' % c)
                    else:
                        ctx.check('text', t == seen.get((0,)), 'text:%s:ok' % name, f, 'a result which is no error has the text of an error')
    constants(ctx, m, codes, last)
    for r, n in (('test', 5), ('code', 15), ('text', 30), ('constant', 60)):
        ctx.floor(r, n)


def constants(ctx, m, codes, last):
    ok = {v for k, v in codes.items() if 0 < v < last}
    for n in sorted(reachable(m)):
        f = m.fns.get(n)
        if f is None or f.decl or f.d.get('ret', 'i64') not in ('i64', 64):
            continue
        seen = set()

        def go(o, at):
            if o[0] == 'c' and o[2] == 64:
                c = o[1]
                if -4096 <= c < 0:
                    ctx.check('constant', -c in ok, 'constant:%s:%d' % (n, c), at, '%s returns %d, which is no documented error' % (n, c), (), '%s %d' % (n, c))
                return
            if o[0] != 'i' or o[1] in seen:
                return
            seen.add(o[1])
            i = f.insts[o[1]]
            if i.op == 'phi':
                for x, b in i.ops:
                    go(x, f.blocks[b][-1] if isinstance(b, int) else i)
            elif i.op == 'select':
                go(i.ops[1], i)
                go(i.ops[2], i)
        for i in f.insts.values():
            if i.op == 'ret' and i.ops:
                go(i.ops[0], i)
            # errors kept for a later call
            if i.op == 'store' and i.ops[0][0] in ('c', 'i') and (i.d.get('sty') == 'i64'):
                go(i.ops[0], i)
