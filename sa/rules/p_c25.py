"""Errors are never dropped on their way to the caller."""
import apirules
LEVEL = 'proof'
EXPLANATION = ('Explicit-state exploration of every sequence of API calls in which every fallible internal function may fail at every call: '
               'the exported function returns an error, and an error of a background job is kept until a call has returned it.')
REPORT = {'FL2_compressStream', 'FL2_flushStream', 'FL2_endStream', 'FL2_getDictionaryBuffer', 'FL2_getNextCompressedBuffer', 'FL2_waitCStream',
          'FL2_remainingOutputSize'}


def parts(ctx):
    ctx.rule('returned', 'a call in which an internal function returns an error returns an error itself (a multi-threaded decoder may switch to one thread instead)')
    ctx.rule('joberr', 'a background job in which an internal function returns an error leaves an error in the stream')
    ctx.rule('kept', 'an error left by a background job stays until a call has returned it or the frame is abandoned')
    ctx.rule('sticky', 'while a stream holds an error every call which produces output or waits returns an error')

    def kept(h, op, st, v, start, created):
        if op.frees or op.kind == 'abandon' or created:
            return
        sn = h.otype_of(start[1])
        if sn not in ('FL2_CCtx_s', 'FL2_DStream_s'):
            return
        lo = h.eng.errlo
        a = h.field(start[0], start[1], sn, 'asyncRes')
        was = sn == 'FL2_CCtx_s' and a is not None and h.eng.rng(start[0], a)[0] >= lo
        b = h.field(st, start[1], sn, 'asyncRes')
        now = b is not None and h.eng.rng(st, b)[0] >= lo
        f = h.mod.fn(op.fn)
        ret = None if apirules.retty(f) != 'i64' else apirules.errclass(h, st, v)
        if was or st.ts.get('joberr'):
            h.count('kept')
            if not now and ret != 'err':
                h.found('kept', op.fn, f, 'the error of a background job is gone after %s, which does not return an error' % op.name, st)
        if now and (sn == 'FL2_CCtx_s' and op.fn in REPORT or op.fn == 'FL2_waitDStream' and not any(q[4] for q in st.ts.get('pools', ()))):
            h.count('sticky')
            if ret != 'err':
                h.found('sticky', op.fn, f, '%s succeeds although the stream holds the error of a background job' % op.name, st)
    return dict(groups=apirules.SPEED, rules={}, hooks=[apirules.result_hook('returned', 'err', 'an internal function has returned an error'), kept],
                jobs=[('joberr', 'err')])


def check(ctx):
    apirules.run(ctx, **parts(ctx))
    for r, n in (('returned', 100), ('joberr', 50), ('kept', 20), ('sticky', 50)):
        ctx.floor(r, n)
