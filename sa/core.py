"""Shared machinery of the property checks: result collection, evidence, object setup for the abstract interpreter."""
import json, os, sys, time, traceback
import load, effects, ai, lin as L
from load import AnalysisError
from ai import V, State, Policy, Engine, C, VZ
from lin import var, const, add, sub, scale, addc, isconst, new_atom, op_atom, ATOMS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# values of FL2_isError(): codes above (size_t)-FL2_error_maxCode, i.e. small negative numbers


class Ctx:
    """collects obligations and violations of one property check"""

    def __init__(self, prop, thorough=False):
        self.prop, self.thorough = prop, thorough
        self.viol = []
        self.rules = {}
        self.assume = []
        self.notes = []

    def mod(self, variant='noasm'):
        return load.module(variant)

    def rule(self, name, text):
        self.rules.setdefault(name, {'rule': text, 'obligations': 0, 'discharged': 0, 'items': []})
        return name

    def ok(self, rule, item=None, n=1):
        r = self.rules[rule]
        r['obligations'] += n
        r['discharged'] += n
        if item is not None and len(r['items']) < 400:
            r['items'].append(item)

    def bad(self, rule, key, file, line, fn, msg, trail=(), n=1):
        """key: stable identity of the finding (matched with known_findings.txt)"""
        r = self.rules[rule]
        r['obligations'] += n
        v = {'rule': rule, 'key': key, 'file': file, 'line': line, 'fn': fn, 'msg': msg, 'trail': list(trail)}
        if not any(x['key'] == key and x['msg'] == msg for x in self.viol):
            self.viol.append(v)

    def check(self, rule, cond, key, inst, msg, trail=(), item=None):
        if cond:
            self.ok(rule, item)
        elif inst is None:
            self.bad(rule, key, '?', 0, '?', msg, trail)
        else:
            self.bad(rule, key, inst.file, inst.line, inst.fn.name if hasattr(inst, 'fn') else inst.name, msg, trail)
        return cond

    def floor(self, rule, n):
        """an analysis that found nothing to look at has lost its anchors: no answer"""
        if self.rules[rule]['obligations'] < n:
            raise AnalysisError('rule %s found only %d obligations (expected at least %d)' % (rule, self.rules[rule]['obligations'], n))

    def take_engine(self, rule, eng, kinds=None, what=None):
        """move the obligations recorded by an engine run under a rule"""
        for o in eng.obl.values():
            if kinds is not None and o['kind'] not in kinds:
                continue
            if o['fail'] is None:
                self.ok(rule, None)
            else:
                f = o['fail']
                self.bad(rule, '%s:%s:%s' % (rule, o['fn'], o['kind']), o['file'], o['line'], o['fn'],
                         '%s%s [call path %s]' % ((what + ': ') if what else '', f['msg'], ' > '.join(f['stack'])), show_trail(f['trail']))


    def parallel(self, tasks, fn, jobs=None):
        """run fn(ctx, task) for every task in forked processes and merge what they report"""
        import multiprocessing
        mp = multiprocessing.get_context('fork')
        jobs = min(jobs or min(8, os.cpu_count() or 1), len(tasks))
        tasks = list(tasks)
        nxt = mp.Value('i', 0)

        def child(w):
            out = []
            while 1:
                with nxt.get_lock():
                    k = nxt.value
                    nxt.value += 1
                if k >= len(tasks):
                    break
                c = Ctx(self.prop, self.thorough)
                c.rules = {r: {'rule': x['rule'], 'obligations': 0, 'discharged': 0, 'items': []} for r, x in self.rules.items()}
                err = None
                try:
                    fn(c, tasks[k])
                except AnalysisError as e:
                    err = ('analysis', str(e))
                except BaseException:
                    err = ('crash', traceback.format_exc()[-3000:])
                out.append((k, c.rules, c.viol, c.notes, err))
            w.send(out)
            w.close()
        ps, res = [], {}
        for _ in range(jobs):
            r, w = mp.Pipe(False)
            p = mp.Process(target=child, args=(w,))
            p.start()
            w.close()
            ps.append((p, r))
        for p, r in ps:
            try:
                for x in r.recv():
                    res[x[0]] = x[1:]
            except EOFError:
                pass
            p.join()
        err = None
        for k in range(len(tasks)):
            if k not in res:
                err = err or ('crash', 'an analysis process was killed')
                continue
            rules, viol, notes, e = res[k]
            err = err or e
            for r, x in rules.items():
                y = self.rules[r]
                y['obligations'] += x['obligations']
                y['discharged'] += x['discharged']
                y['items'] += x['items'][:max(0, 400 - len(y['items']))]
            for v in viol:
                if not any(x['key'] == v['key'] and x['msg'] == v['msg'] for x in self.viol):
                    self.viol.append(v)
            self.notes += notes
        if err:
            raise AnalysisError(err[1])


def show_trail(t):
    r = []
    for x in t or ():
        if isinstance(x, tuple) and hasattr(x[0], 'file'):
            r.append('%s:%s %s branch %s' % (x[0].file, x[0].line, x[0].fn.name, x[1]))
        else:
            r.append(str(x))
    return r


def known():
    """known findings: lines 'known: property=<id> key=<key> <text>'"""
    r = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                f = l.split(None, 3)
                pid = f[1].split('=', 1)[1]
                key = f[2].split('=', 1)[1]
                r.setdefault(pid, {})[key] = f[3] if len(f) > 3 else ''
    return r


def run_check(prop, fn, level='proof', explanation='', thorough=False):
    t = time.time()
    ctx = Ctx(prop, thorough)
    sys.setrecursionlimit(20000)
    err = None
    try:
        fn(ctx)
    except AnalysisError as e:
        err = e
    ctx.viol.sort(key=lambda v: (v['file'], v['line'], v['key']))
    kn = known().get(prop, {})
    new = [v for v in ctx.viol if v['key'] not in kn]
    if err is not None and not new:
        print('ANALYSIS-ERROR property=%s %s' % (prop, err))
        raise SystemExit(3)
    for k in sorted({v['key'] for v in ctx.viol if v['key'] in kn}):
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
    ob = sum(r['obligations'] for r in ctx.rules.values())
    di = sum(r['discharged'] for r in ctx.rules.values())
    ev = {
        'property': prop,
        'tier': 'thorough' if thorough else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level,
        'wall_s': round(time.time() - t, 2),
        'coverage': {
            'obligations': ob, 'discharged': di,
            'checker_cmd': 'python3 check.py %s' % prop,
            'trusted_base': ['clang 18 -O0 front end and sroa (IR of /repo as built by its Makefile)', 'tool/irdump.cpp', 'sa/*.py abstract interpreter and linear arithmetic'],
            'explanation': explanation,
            'rules': {k: {**r, 'items': r['items'][:200]} for k, r in ctx.rules.items()},
            'notes': ctx.notes,
        },
        'assumptions': ctx.assume,
        'violations': ctx.viol,
    }
    evd = os.environ.get('SA_EVID') or os.path.join(ROOT, 'evidence')
    os.makedirs(evd, exist_ok=True)
    p = os.path.join(evd, '%s.json' % prop)
    json.dump(ev, open(p + '.tmp', 'w'), indent=1, default=str)
    os.replace(p + '.tmp', p)
    if new:
        rp = os.path.join(evd, '%s.replay.json' % prop)
        json.dump(new, open(rp, 'w'), indent=1, default=str)
        for v in new[:40]:
            print('%s:%s: %s: [%s] %s' % (v['file'], v['line'], v['fn'], v['rule'], v['msg']))
            for x in v['trail'][-8:]:
                print('      via %s' % x)
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, ROOT)))
        raise SystemExit(1)
    print('OK property=%s obligations=%d discharged=%d wall=%.1fs' % (prop, ob, di, time.time() - t))
    raise SystemExit(0)


# ---- objects ----

def path_off(mod, sname, path):
    """byte offset, tag, bits, type of a nested field path 'a.b.c'"""
    off = 0
    s = sname
    parts = path.split('.')
    for k, p in enumerate(parts):
        f = mod.field(s, p)
        off += f['off']
        t = f['type']
        tag = (s, p)
        if k < len(parts) - 1:
            if t.get('k') == 'array':
                t = t['of']
            if t.get('k') != 'struct':
                raise AnalysisError('field path %s.%s: %s is no structure' % (sname, path, p))
            s = t['name']
    return off, tag, f['bits'], t


def field(eng, st, p, sname, path):
    """current value of a scalar field of the object p points at (creates an unknown on first use)"""
    off, tag, bits, t = path_off(eng.mod, sname, path)
    ty = 'ptr' if t.get('k') == 'ptr' else 'i%d' % bits
    return eng.load_mem(st, None, addc(p.lin if isinstance(p, V) else p, off), bits // 8, ty, tag)


def peek(eng, st, p, sname, path):
    """the field's abstract value if present in the state, else None"""
    off, tag, bits, t = path_off(eng.mod, sname, path)
    e = st.mem.get(addc(p.lin if isinstance(p, V) else p, off))
    return e[0] if e else None


def setf(eng, st, p, sname, path, v):
    off, tag, bits, t = path_off(eng.mod, sname, path)
    st.mem[addc(p.lin if isinstance(p, V) else p, off)] = (v if isinstance(v, V) else C(v), bits // 8, tag)


def obj(eng, st, sname, desc):
    p = eng.fresh_ptr(desc, True)
    eng.set_region(st, p, const(eng.mod.struct(sname)['size']))
    return p


def new_state():
    st = State()
    st.frames = ({},)
    return st


def is_err(st, v, maxcode=20):
    """True/False/None: is size_t value v an error code"""
    x = v.lin
    if x is None:
        return None
    if isconst(x):
        c = x[0]
        if c >= 1 << 63:
            c -= 1 << 64
        return -maxcode < c < 0
    # unknown: ideal-integer representation of size_t errors is negative or huge
    if st.entails(addc(scale(x, -1), (1 << 64) - 1 - maxcode)) and st.entails(x):
        return False
    if st.entails(addc(scale(x, -1), -1)):
        return True
    if st.entails(addc(x, -((1 << 64) - maxcode + 1))):
        return True
    return None
