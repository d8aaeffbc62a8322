"""Background and worker jobs never outlive what they use."""
import apirules
LEVEL = 'proof'
EXPLANATION = ('Explicit-state exploration of every sequence of API calls in which a job given to another thread may still be running: '
               'nothing is freed, no job is added to a busy or missing pool and no call returns while worker threads of a range of jobs may run.')


def parts(ctx):
    ctx.rule('busyfree', 'memory is freed only when no job added earlier can still be running')
    ctx.rule('pool', 'jobs are only added to an existing, idle pool, and no more than the context has threads')
    ctx.rule('idle', 'when a call returns, only a background job of a stream can be pending, and none after the context is freed')
    ctx.rule('cancelled', 'when a cancellation returns no job is running')
    ctx.rule('busyrefused', 'decompression and initialization are refused while a background decompression may be running')

    def idle(h, op, st, v, start, created):
        h.count('idle')
        if op.fn in ('FL2_cancelCStream', 'FL2_cancelDStream'):
            h.count('cancelled')
            for q in st.ts.get('pools', ()):
                if q[4]:
                    h.found('cancelled', op.fn, h.mod.fn(op.fn), '%s returns while %s may be running' % (op.name, q[1]), st)
        for q in st.ts.get('pools', ()):
            if q[4] and q[3] is not None:
                h.found('idle', op.fn, h.mod.fn(op.fn), '%s returns while worker threads may be running %s' % (op.name, q[1]), st)
            elif q[4] and op.frees:
                h.found('idle', op.fn, h.mod.fn(op.fn), '%s returns while %s may be running' % (op.name, q[1]), st)

    def busyrefused(h, op, st, v, start, created):
        if start and op.fn in ('FL2_decompressStream', 'FL2_initDStream', 'FL2_initDStream_withProp') and any(q[4] for q in start[0].ts.get('pools', ())):
            h.count('busyrefused')
            if apirules.errclass(h, st, v) != 'err':
                h.found('busyrefused', op.fn, h.mod.fn(op.fn), '%s is not refused while a background decompression may be running' % op.name, st)
    return dict(groups=apirules.SPEED, rules={'busyfree': 'busyfree', 'addbusy': 'pool', 'nopool': 'pool', 'range': 'pool'}, hooks=[idle, busyrefused])


def check(ctx):
    apirules.run(ctx, **parts(ctx))
    for r, n in (('busyfree', 10), ('pool', 4), ('idle', 300), ('cancelled', 20), ('busyrefused', 50)):
        ctx.floor(r, n)
