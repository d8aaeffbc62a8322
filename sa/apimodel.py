"""The groups of API calls whose histories are explored (see hist.py): per group the constructors, the operations with the
arguments the documentation allows, and the fields which are tracked between calls."""
import effects
from core import path_off
from ex import zsub
from hist import History, Op, World

CENC = {k: 'v' for k in ('lockParams', 'endMarked', 'canceled', 'async', 'doXXH', 'omitProp', 'jobCount', 'thread_count', 'outThread', 'threadCount')}
CENC.update(cSize='op', asyncRes='res', hash_alloc_3='nz')
CDEC = {k: 'v' for k in ('stage', 'failState', 'isFinal', 'canceled', 'numThreads', 'maxThreads', 'srcThread', 'wait', 'ext_dic', 'nbThreads')}
CDEC.update(asyncRes='res', doHash='nz')
CDEC[('FL2_decJob', 'res')] = CDEC[('FL2_blockDecMt', 'res')] = 'op'
CDEC[('FL2_decInbuf_s', 'length')] = 'nzc'


def drop_enc(h, st, root):
    """parameters of a stream take effect when it begins"""
    if root and h.field(st, root, 'FL2_CCtx_s', 'lockParams') == 0:
        for f in ('doXXH', 'omitProp'):
            h.setfield(st, root, 'FL2_CCtx_s', 'params.' + f, None)


def drop_dec(h, st, root):
    """fields which are set before they are used again; a decoder with an external dictionary does not own it"""
    for o in h.w.live(st):
        t = h.w.otype(o[1])
        for off, n, tag, ptr in h.w.layout(t) if t else ():
            if tag == ('LZMA2_DCtx', 'ext_dic'):
                e = st.mem.get((o, off))
                if e is not None and h.eng.rng(st, e[0])[0] > 0:
                    d = off - h.ext_off + h.dic_off
                    st.mem.pop((o, d), None)
                    st.zero = h.zsub(st.zero, o, d, d + 8)
        if t == 'FL2_decMt':
            r = ('p', o, 0)
            g = lambda f: h.field(st, r, t, f)
            if g('failState') == 0:
                h.setfield(st, r, t, 'cur', None)
            if g('numThreads') == 0 and h.w.T > 1:
                off, es = path_off(h.mod, 'FL2_decMt', 'threads')[0], h.mod.structs['FL2_decJob']['size']
                for f in ('first', 'last'):
                    d = off + es + path_off(h.mod, 'FL2_decJob', 'inBlock.' + f)[0]
                    st.mem.pop((o, d), None)
            s = h.field(st, root, 'FL2_DStream_s', 'stage') if root else None
            if s is not None and s != h.write_stage:
                h.setfield(st, r, t, 'srcThread', None)
                h.setfield(st, r, t, 'isFinal', None)
    if root:
        if h.field(st, root, 'FL2_DStream_s', 'stage') in h.off_stages:
            h.setfield(st, root, 'FL2_DStream_s', 'doHash', None)
        if not st.ts.get('pools'):
            h.setfield(st, root, 'FL2_DStream_s', 'asyncRes', None)


def group(mod, name, cls=World, full=True):
    """History, constructors, operations"""
    kind, T = name.rstrip('0123456789'), int(name[-1])
    eff = effects.Effects(mod)
    free = [Op('FL2_freeCCtx', ['ctx'], frees=True)]
    w = cls(mod, eff, T, {})
    if kind in ('cctx', 'cstream', 'oneshot'):
        w.control.update(CENC)
        w.nolink = {('FL2_dataBlock', 'data')}
        if T > 1 or not full:
            w.heavy |= {'LZMA2_encode', 'LZMA2_hashAlloc'}
            w.opaque.add(('LZMA2_ECtx_s', 'hash_buf'))
            del w.control['hash_alloc_3']
    if kind in ('dctx', 'dstream', 'oneshot'):
        w.control.update(CDEC)
        w.heavy |= {'LZMA2_parseInput', 'LZMA2_decodeToDic', 'LZMA2_decodeToBuf', 'LZMA2_getUnpackSize'}
        w.maxof[('FL2_createInbufNode', 'malloc')] = 2
        if kind == 'dstream' and T > 1:
            # the decoder's own dictionary is explored with one thread
            w.heavy |= {'LZMA2_initDecoder'}
            w.opaque.add(('LZMA2_DCtx', 'dic'))
            w.nolink.add(('LZMA2_DCtx', 'dic'))
            del w.control['ext_dic']
    H = History(mod, w)
    H.group = name
    H.zsub = zsub
    H.ext_off, H.dic_off = (path_off(mod, 'LZMA2_DCtx', f)[0] for f in ('ext_dic', 'dic'))
    if kind == 'cctx':
        H.dropwhen = drop_enc
        cr = [Op('FL2_createCCtxMt', [T], ptr=True)]
        ops = [Op('FL2_CCtx_setParameter', ['ctx', 'u32', 'size']), Op('FL2_compressCCtx', ['ctx', 'buf', 'size', 'buf', 'size', 'int'], kind='abandon'),
               Op('FL2_getCCtxDictProp', ['ctx'])] + free
    elif kind == 'cstream':
        H.dropwhen = drop_enc
        cr = [Op('FL2_createCStreamMt', [T, 0], ptr=True), Op('FL2_createCStreamMt', [T, 1], ptr=True, name='FL2_createCStreamMt(dual)')]
        ops = [Op('FL2_initCStream', ['ctx', 'int'], kind='abandon'), Op('FL2_CCtx_setParameter', ['ctx', 'u32', 'size']),
               Op('FL2_setCStreamTimeout', ['ctx', 'u32']), Op('FL2_compressStream', ['ctx', 'out', 'in']),
               Op('FL2_compressStream', ['ctx', 0, 'in'], name='FL2_compressStream(no output)'),
               Op('FL2_getDictionaryBuffer', ['ctx', 'obj']), Op('FL2_updateDictionary', ['ctx', 'size']),
               Op('FL2_getNextCompressedBuffer', ['ctx', 'obj']), Op('FL2_getCStreamProgress', ['ctx', 0]), Op('FL2_waitCStream', ['ctx']),
               Op('FL2_cancelCStream', ['ctx'], kind='abandon'), Op('FL2_remainingOutputSize', ['ctx']), Op('FL2_flushStream', ['ctx', 'out']),
               Op('FL2_endStream', ['ctx', 'out']), Op('FL2_flushStream', ['ctx', 0], name='FL2_flushStream(no output)'),
               Op('FL2_endStream', ['ctx', 0], name='FL2_endStream(no output)'), Op('FL2_copyCStreamOutput', ['ctx', 'out'])] + free
    elif kind == 'dctx':
        cr = [Op('FL2_createDCtxMt', [T], ptr=True)]
        ops = [Op('FL2_initDCtx', ['ctx', 'u8']), Op('FL2_decompressDCtx', ['ctx', 'buf', 'size', 'buf', 'size']),
               Op('FL2_getDCtxThreadCount', ['ctx']), Op('FL2_freeDCtx', ['ctx'], frees=True)]
    elif kind == 'dstream':
        H.off_stages = {mod.enums.get('FL2DEC_STAGE_' + x) for x in ('INIT', 'HASH', 'FINISHED')} - {None}
        H.dropwhen = drop_dec
        H.write_stage = mod.enums.get('FL2DEC_STAGE_MT_WRITE')
        cr = [Op('FL2_createDStreamMt', [T], ptr=True)]
        H.keep = lambda h, st, root: T == 1 or h.field(st, root, 'FL2_DStream_s', 'decmt') != 0
        ops = [Op('FL2_initDStream', ['ctx'], kind='abandon'), Op('FL2_initDStream_withProp', ['ctx', 'u8'], kind='abandon'),
               Op('FL2_setDStreamTimeout', ['ctx', 'u32']), Op('FL2_setDStreamMemoryLimitMt', ['ctx', 'size']), Op('FL2_waitDStream', ['ctx']),
               Op('FL2_cancelDStream', ['ctx'], kind='abandon'), Op('FL2_getDStreamProgress', ['ctx']),
               Op('FL2_decompressStream', ['ctx', 'out', 'in']), Op('FL2_freeDStream', ['ctx'], frees=True)]
    elif kind == 'oneshot':
        cr = [Op('FL2_compressMt', ['buf', 'size', 'buf', 'size', 'int', T]), Op('FL2_decompressMt', ['buf', 'size', 'buf', 'size', T])]
        ops = []
    else:
        raise KeyError(name)
    return H, cr, ops
