"""Check sum of a frame: everything decompressed is hashed, and a frame with check sum is complete only when it is equal."""
from core import *
import effects
import dstream

LEVEL = 'proof'
EXPLANATION = ('FL2_decompressStream is interpreted abstractly from every stage of a stream (with one or several threads, with or without background thread), and '
               'FL2_decompressDCtx with the property byte given before or first in the source. Ghost variables record the end of the hashed output, the number of bytes of the '
               'check sum received, and the difference of digest and expected sum; each hash update has to begin where the last one ended, each byte of the sum is stored behind '
               'those received and read at the position of the input, and a return which reports completion needs that difference to be zero. Every exported function which writes '
               'the stage of a stream has to leave it at the start of a frame, without hash or with a fresh one.')


def check(ctx):
    m = ctx.mod('noasm')
    ctx.rule('hashed', 'the hash covers the output without gap or overlap')
    ctx.rule('gather', 'the four bytes of the check sum are collected in order from the input')
    ctx.rule('reset', 'the hash starts with the frame')
    ctx.rule('compared', 'a frame with check sum is complete only when the sums are equal')
    ctx.rule('end', 'the result 0 is given exactly when the frame is complete')
    eff = effects.Effects(m)
    ss = dstream.sets(m, eff)
    tasks = [('stream', (s, mt, thr)) for s in dstream.STAGES for mt in (0, 1) for thr in (0, 1)]
    tasks += [('oneshot', (b, f)) for b in (0, 1) for f in (0, 1)]
    known = {'FL2_decompressStream'}
    for n, f in sorted(m.fns.items()):
        if f.decl or f.internal:
            continue
        if n not in known and any(t[0] == 'tag' and t[1] in dstream.STATE for t in eff.w[n]):
            tasks.append(('start', n))
    ctx.notes.append('functions which begin a frame: ' + ', '.join(t[1] for t in tasks if t[0] == 'start'))
    run = {'stream': dstream.stream, 'oneshot': dstream.oneshot, 'start': dstream.start}
    ctx.parallel(tasks, lambda c, t: run[t[0]](c, m, eff, ss, t[1]))
    ctx.assume.append('XXH32_update, XXH32_digest and XXH32_hashFromCanonical compute the checksum of the bytes they are given; only the library writes to its contexts')
    ctx.assume.append('the decoder writes what it reports through the destination it is given (contract of C27); each entry state is one the calls before can leave: nothing of the sum is received before its stage')
    ctx.floor('hashed', 60)
    ctx.floor('gather', 60)
    ctx.floor('compared', 8)
    ctx.floor('end', 20)
    ctx.floor('reset', 4)
