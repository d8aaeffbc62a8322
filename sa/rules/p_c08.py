"""Life cycle of a frame: parameters are locked exactly while it is open; calls outside a frame are refused."""
import apirules
from hist import Op
LEVEL = 'proof'
EXPLANATION = ('Explicit-state exploration of every sequence of API calls on a compression context; after every call the frame is open '
               '(structural parameters refused, data accepted) exactly if the specification says so.')
DATA = {'FL2_compressStream', 'FL2_flushStream', 'FL2_getDictionaryBuffer', 'FL2_updateDictionary'}
ANY = ('literalCtxBits', 'literalPosBits', 'posBits')


def parts(ctx):
    ctx.rule('open', 'a frame is open after a successful initialization, and other calls which do not end or abandon a frame leave that as it was')
    ctx.rule('closed', 'no frame is open after creation, after a failed initialization, a cancellation, a one-shot compression with any result, or once the end of the stream has been written')
    ctx.rule('refused', 'calls which process data are refused outside a frame')
    ctx.rule('accepted', 'calls which process data are not refused for lack of a frame while it is open, or while its last output is being read')
    ctx.rule('locked', 'parameters other than literal context bits, literal position bits and position bits are refused while a frame is open')
    ctx.rule('unlocked', 'in no other state is a parameter refused because of the state')
    S = 'FL2_CCtx_s'

    def hook(h, op, st, v, start, created):
        if op.frees or created and (not op.ptr or v == 0):
            return
        root = start[1] if start else v
        if h.otype_of(root) != S:
            return
        f = h.mod.fn(op.fn)
        now = h.field(st, root, S, 'lockParams')
        now = None if now is None else {(0, 0): 0}.get(h.eng.rng(st, now), 1 if h.eng.rng(st, now)[0] > 0 else None)
        was = None
        if start:
            was = h.field(start[0], root, S, 'lockParams')
            was = 0 if h.eng.rng(start[0], was) == (0, 0) else 1
        ret = apirules.errclass(h, st, v) if not created and apirules.retty(f) == 'i64' else None
        def want(rule, ok, msg):
            h.count(rule)
            if not ok:
                h.found(rule, op.fn, f, msg, st)
        if created:
            want('closed', now == 0, 'parameters are locked in a new context')
        elif op.fn == 'FL2_initCStream':
            if ret == 'ok':
                want('open', now == 1, 'after a successful initialization the parameters are not locked')
            elif ret == 'err':
                want('closed', now == 0, 'after a failed initialization the parameters stay locked')
            else:
                want('closed', now == 0, 'cannot tell the result of the initialization')
        elif op.fn in ('FL2_compressCCtx', 'FL2_cancelCStream'):
            want('closed', now == 0, 'after %s the parameters stay locked' % op.name)
        elif op.fn == 'FL2_endStream':
            en = h.field(st, root, S, 'endMarked')
            en = None if en is None else h.eng.rng(st, en)
            if ret != 'err' and en is not None and en[0] > 0:
                want('closed', now == 0, 'the end of the stream has been written but the parameters stay locked')
            elif ret != 'err':
                want('open', now == was, 'FL2_endStream changes whether the parameters are locked but has not written the end of the stream')
            else:
                want('open', now == was or now == 0, 'FL2_endStream opens a frame')
            em = h.field(start[0], root, S, 'endMarked')
            if was == 0 and em is not None and h.eng.rng(start[0], em) == (0, 0):
                want('refused', ret == 'err', 'FL2_endStream is not refused although no frame is open')
        else:
            want('open' if was else 'closed', now == was or now == 0 and ret == 'err', '%s changes whether the parameters are locked' % op.name)
        if was == 0 and op.fn in DATA:
            want('refused', ret == 'err', '%s is not refused although no frame is open' % op.name)
        if op.fn in DATA | {'FL2_endStream'}:
            em = h.field(start[0], root, S, 'endMarked')
            if was or op.fn == 'FL2_endStream' and em is not None and h.eng.rng(start[0], em)[0] > 0:
                want('accepted', v != h.init_missing, '%s reports that no frame is open, but one is' % op.name)
        if op.kind == 'set':
            if was:
                want('locked', ret == 'err', '%s succeeds while a frame is open' % op.name)
        if op.kind in ('set', 'setany') and ret == 'err' and (was == 0 or op.kind == 'setany') and v.__class__ is int:
            want('unlocked', v != h.stage_wrong, '%s is refused because of the state of the context' % op.name)

    def setup(h, cr, ops):
        if cr[0].fn not in ('FL2_createCCtxMt', 'FL2_createCStreamMt'):
            return
        e = h.mod.enums
        h.stage_wrong = (1 << 64) - h.mod.enum('FL2_error_stage_wrong')
        h.init_missing = (1 << 64) - h.mod.enum('FL2_error_init_missing')
        ids = {k: x for k, x in e.items() if k.startswith('FL2_p_')}
        return cr, ops + [Op('FL2_CCtx_setParameter', ['ctx', x, 'size'], name='FL2_CCtx_setParameter(%s)' % k,
                             kind='setany' if k[6:] in ANY else 'set') for k, x in sorted(ids.items())]
    return dict(groups=['cctx1', 'cctx2', 'cstream1', 'cstream2'], rules={}, hooks=[hook], setup=setup)


def check(ctx):
    apirules.run(ctx, **parts(ctx))
    for r, n in (('open', 100), ('closed', 100), ('refused', 50), ('accepted', 50), ('locked', 50), ('unlocked', 50)):
        ctx.floor(r, n)
