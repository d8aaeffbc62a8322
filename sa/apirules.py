"""Rules over the histories of API calls (apimodel.py), shared by the checks which decide them."""
import multiprocessing
import multiprocessing.connection
import os
import traceback
import apimodel
from core import show_trail
from api import retty
from hist import World, iserr
from load import AnalysisError

SPEED = ['dstream1', 'dctx1', 'dctx2', 'oneshot2', 'cstream1', 'cctx2', 'cstream2', 'dstream2']
BUDGET = 700
FOUND = multiprocessing.Value('i', 0)      # a violation has been found in some group
COST = {'dstream2': 31, 'cstream2': 14, 'cctx1': 8}


def errclass(h, st, v):
    """'err', 'ok' or 'maybe' for a size_t result"""
    r = h.eng.rng(st, v)
    return 'err' if r[0] >= h.eng.errlo else 'ok' if r[1] < h.eng.errlo else 'maybe'


def root_of(h, op, v, start):
    return start[1] if start else v


ASSUME = ['streams and contexts are used by one thread at a time, as the documentation requires; background jobs run whenever they like',
          'functions outside fl2_*.c which allocate nothing are taken as: may fail if they return error codes, write only what their effect summary says',
          'thread counts 1 and 2 stand for all; a chain of MT input buffers grows to 2 nodes (3 in the thorough run), further allocations fail',
          'a job which has completed but was not waited for is treated as waited for between two calls']


def explore(ctx, g, rules, hooks, setup, full, jobs):
    """one group: (note, [(rule, key, file, line, fn, message or None, trail)], {rule: count}, error)"""
    mod = ctx.mod('noasm')
    H, cr, ops = apimodel.group(mod, g, Rules, full=g in full)
    if ctx.thorough and ('FL2_createInbufNode', 'malloc') in H.w.maxof:
        H.w.maxof[('FL2_createInbufNode', 'malloc')] = 3
    H.hooks += hooks
    H.w.owner = H
    H.w.watch = jobs
    if setup:
        cr, ops = setup(H, cr, ops) or (cr, ops)
    err = None

    def stop(h):
        if h.allfound or any(o['fail'] and o['kind'] in rules for o in h.eng.obl.values()):
            FOUND.value = 1
        return FOUND.value
    if not os.environ.get('SA_NOSTOP'):
        H.stop = stop
    try:
        H.explore(cr, ops, budget=BUDGET)
    except AnalysisError as e:
        err = '%s: %s' % (g, e)
    note = {'states': len(H.states), 'steps': H.total[0], 'calls explored': H.total[1], 'outcomes': H.total[2],
            'functions in line': sorted(H.eng.fns), 'seconds': round(getattr(H, 'time', 0), 1), 'allocation bound reached at': sorted(H.w.bounded)}
    rep = []
    for o in H.eng.obl.values():
        r = rules.get(o['kind'])
        if r is None:
            continue
        f = o['fail']
        if f:
            rep.append((r, '%s:%s:%s' % (r, o['fn'], o['kind']), o['file'], o['line'], o['fn'],
                        '%s [call path %s; group %s]' % (f['msg'], ' > '.join(f['stack']), g), f['trail'] if 'shown' in f else show_trail(f['trail'])))
        else:
            rep.append((r, o['kind'], o['file'], o['line'], o['fn'], None, None))
    for (r, key), f in sorted(H.allfound.items(), key=repr):
        rep.append((r, '%s:%s' % (r, key), f['file'], f['line'], f['fn'], '%s [group %s]' % (f['msg'], g), f['trail']))
    return note, rep, dict(H.allcounts), err


def run(ctx, groups, rules, hooks=(), setup=None, full=(), jobs=()):
    """explore the groups, each in a process of its own; rules: {obligation kind: rule name} for the engine's own obligations"""
    if os.environ.get('SA_GROUPS'):     # for the self-tests
        groups = os.environ['SA_GROUPS'].split(',')
        ctx.floor = lambda *a: None
    ctx.mod('noasm')
    ctx.assume += ASSUME
    mp = multiprocessing.get_context('fork')
    todo, live, res = list(groups), {}, {}

    def child(w, g):
        try:
            x = explore(ctx, g, rules, hooks, setup, full, jobs)
        except BaseException:
            x = (None, [], {}, '%s: %s' % (g, traceback.format_exc()[-1500:]))
        w.send(x)
        w.close()
    # the longest first
    todo.sort(key=lambda g: -COST.get(g, 5) * (10 if g in full else 1))
    while todo or live:
        while todo and len(live) < min(8, os.cpu_count() or 1):
            g = todo.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=child, args=(w, g))
            p.start()
            w.close()
            live[r] = (g, p)
        for r in multiprocessing.connection.wait(list(live)):
            g, p = live.pop(r)
            try:
                res[g] = r.recv()
            except EOFError:
                res[g] = (None, [], {}, '%s: the exploration was killed' % g)
            p.join()
    seen, err, notes = set(), None, {}
    for g in groups:
        note, rep, counts, e = res[g]
        err = err or e
        notes[g] = note
        for r, key, file, line, fn, msg, trail in rep:
            if msg is not None:
                ctx.bad(r, key, file, line, fn, msg, trail)
            elif (r, file, fn, line, key) not in seen:
                ctx.ok(r, None)
            seen.add((r, file, fn, line, key))
        for r, n in counts.items():
            for _ in range(n):
                ctx.ok(r, None)
    ctx.notes.append({'exploration': notes})
    if err and not ctx.viol:
        raise AnalysisError(err)
    return notes


class Rules(World):
    """hooks into jobs which the rules share"""
    owner = None
    watch = ()           # (rule, flag): an event during a job after which its stream must hold an error

    def job_done(self, eng, s, f, first, opaque):
        """a job has run: an error in a job of its own must end up in the result field of the stream"""
        if first is not None:
            return
        h = self.owner
        t = self.otype(opaque[1][1]) if opaque.__class__ is tuple and opaque[0] == 'p' and opaque[1][0] == 'h' else None
        if not t or not any(x['name'] == 'asyncRes' for x in self.mod.structs[t]['fields']):
            raise AnalysisError('cannot identify the stream a background job works on')
        for rule, flag in self.watch:
            if s.ts.get(flag) and not fellback(h, s):
                s.ts['joberr'] = 1
                h.count(rule)
                v = h.field(s, opaque, t, 'asyncRes')
                if v is None or eng.rng(s, v)[0] < eng.errlo:
                    h.found(rule, 'job:' + f.name, f, 'a background job %s but its result is not kept as an error for the next call' %
                            ('in which an allocation fails' if flag == 'failed' else 'in which an internal function reports an error'), s)


def fellback(h, st):
    """the multi-threaded decoder has switched to its single-threaded mode, which is what it does when it lacks memory"""
    for o in h.w.live(st):
        t = h.w.otype(o[1])
        if t == 'FL2_decMt':
            v = h.field(st, ('p', o, 0), t, 'failState')
            return v is None or h.eng.rng(st, v)[1] > 0
    return False


def result_hook(rule, flag, what):
    """an operation during which an allocation failed / an internal function returned an error reports an error itself"""
    def hook(h, op, st, v, start, created):
        if not st.ts.get(flag) or op.frees:
            return
        f = h.mod.fn(op.fn)
        if retty(f) == 'void':
            return
        h.count(rule)
        if op.ptr:
            # a decoder without its threads works single-threaded
            if v != 0 and not (flag == 'failed' and h.otype_of(v) == 'FL2_DStream_s' and h.field(st, v, 'FL2_DStream_s', 'decmt') == 0):
                h.found(rule, op.fn, f, '%s succeeds although %s' % (op.name, what), st)
        elif errclass(h, st, v) != 'err' and not fellback(h, st):
            h.found(rule, op.fn, f, '%s does not return an error although %s' % (op.name, what), st)
    return hook


def leak_hook(rule):
    def hook(h, op, st, v, start, created):
        if not (op.frees or op.ptr and v == 0 or created and not op.ptr):
            return
        h.count(rule)
        live = h.w.live(st)
        if live:
            h.found(rule, op.fn, h.mod.fn(op.fn), 'after %s memory is still allocated: %s' % (op.name, ', '.join(sorted({str(h.w.site.get(a)) for a in live}))), st)
    return hook
