"""Decompression never stalls silently: a call without progress is counted, and only a bounded number of them in a row succeeds."""
from core import *
import effects
import dstream
import p_c27

LEVEL = 'proof'
EXPLANATION = ('FL2_decompressStream is interpreted abstractly from every stage of a stream, with one thread and with several, and every exported compression call which keeps the '
               'count (FL2_compressStream, FL2_flushStream, FL2_endStream and so on) from an arbitrary state; at each return which is neither an error nor the end of the frame, either '
               'a position is shown to have moved and the count is zero, or none has, the count has grown by one and stays within the limit.')


def check(ctx):
    m = ctx.mod('noasm')
    ctx.rule('progress', 'a call which moves no position is counted, and the count is bounded; progress clears it')
    eff = effects.Effects(m)
    ss = dstream.sets(m, eff)
    cs = p_c27.sets(m, eff)
    tasks = [('d', (s, mt, 0)) for s in dstream.STAGES for mt in (0, 1)]
    for n, ks in p_c27.targets(m):
        if any(x in ('in', 'out') for x in ks) and any(t[0] == 'tag' and t[1] == (dstream.CS, 'loopCount') for t in eff.w[n]):
            o = tuple(k for k, x in enumerate(ks) if x == 'out')
            tasks += [('c', (n, ks, nulls, ())) for nulls in ((), o)]
    ctx.parallel(tasks, lambda c, t: dstream.stream(c, m, eff, ss, t[1]) if t[0] == 'd' else dstream.compress(c, m, eff, cs, t[1]))
    ctx.notes.append('calls: ' + ', '.join(sorted({t[1][0] for t in tasks if t[0] == 'c'} | {'FL2_decompressStream'})))
    ctx.floor('progress', 60)
    ctx.assume.append('with a background thread the same function runs there; it is analysed once, in the calling thread')
