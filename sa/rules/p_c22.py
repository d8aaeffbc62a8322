"""No state outside the contexts, no effect outside memory and threads."""
import os, re, subprocess, tempfile, shutil
import effects, load
from load import AnalysisError
LEVEL = 'proof'
EXPLANATION = ('Effect analysis over everything reachable from the exported functions (including functions whose address is taken): every access to a '
               'writable static or thread-local variable and every call of an external function is an obligation. The assembly decoder is assembled and its sections, '
               'relocations and instructions are inspected.')
# external functions without an effect outside the objects they are given, heap, threads or the clock read
PURE = re.compile(r'^(llvm\..*|mem(cpy|move|set|cmp|chr|ccpy|mem|rchr)|str(n?cmp|n?len|r?chr|n?cpy|n?cat|str|p?spn|cspn|pbrk|n?casecmp|to(u?ll?|d|f))|sn?printf|ato(i|l|ll|f)|abs|labs|llabs|ffs[l]*|'
                  r'is(alpha|digit|space|xdigit|alnum|upper|lower|print)|to(upper|lower)|bsearch|qsort|'
                  r'malloc|calloc|realloc|free|aligned_alloc|posix_memalign|'
                  r'pthread_(create|join|detach|self|equal)|pthread_(mutex|cond|rwlock|spin|barrier)(attr)?_\w+|pthread_attr_\w+|sem_\w+|sched_yield|'
                  r'clock_gettime|gettimeofday|sysconf|sched_getaffinity|__errno_location|feof|ferror|fgets|fgetc|fread|fclose|getc|__isoc99_fscanf|__isoc99_sscanf|'
                  r'__sched_cpu\w+|floor|ceil|log2?f?|expf?|exp2f?|powf?|sqrtf?)$')
READERS = {'fopen': 1}      # opens a file: only for reading (index of the mode argument)


def gname(o):
    """the global a constant operand designates"""
    while o[0] == 'ge':
        o = o[1]
    return o[1] if o[0] == 'g' else None


def ops(i):
    if i.op == 'phi':
        return [x for x, _ in i.ops]
    return i.ops


def refs(o, out):
    if o and o[0] == 'f':
        out.add(o[1])
    if o and o[0] == 'ge':
        refs(o[1], out)


def reachable(m):
    wl = [n for n, f in m.fns.items() if not f.decl and not f.internal and re.match(r'FL2_', n)]
    if len(wl) < 30:
        raise AnalysisError('exported functions not found')
    seen = set()
    while wl:
        n = wl.pop()
        if n in seen:
            continue
        seen.add(n)
        f = m.fns.get(n)
        if f is None or f.decl:
            continue
        for i in f.insts.values():
            s = set()
            for o in ops(i):
                refs(o, s)
            if i.op == 'call' and i.d['callee'][0] == 'f':
                s.add(i.d['callee'][1])
            wl += s
            for o in ops(i):
                g = gname(o)
                if g:
                    init = m.globals.get(g, {}).get('init')

                    def fs(x):
                        if isinstance(x, dict):
                            x = list(x.values())
                        if isinstance(x, list):
                            if len(x) == 2 and x[0] == 'f' and isinstance(x[1], str):
                                wl.append(x[1])
                            for y in x:
                                fs(y)
                    fs(init)
    return seen


class Slice:
    """what a value may depend on: args of exported functions, memory, writable statics"""

    def __init__(self, m, reach, writable):
        self.m, self.reach, self.writable = m, reach, writable
        self.callers = {}
        self.taken = set()
        for n in reach:
            f = m.fns.get(n)
            if f is None or f.decl:
                continue
            for i in f.insts.values():
                if i.op == 'call' and i.d['callee'][0] == 'f':
                    self.callers.setdefault(i.d['callee'][1], []).append(i)
                s = set()
                for o in ops(i):
                    refs(o, s)
                self.taken |= s

    def run(self, f, o):
        self.seen, self.leaves = set(), set()
        self.op(f, o)
        return self.leaves

    def op(self, f, o):
        k = o[0]
        if k == 'ge':
            return self.op(f, o[1])
        if k == 'g':
            if o[1] in self.writable:
                self.leaves.add('static ' + o[1])
            return
        if k == 'a':
            if (f.name, 'a', o[1]) in self.seen:
                return
            self.seen.add((f.name, 'a', o[1]))
            if not f.internal and f.name.startswith('FL2_') or f.name in self.taken:
                self.leaves.add('argument of ' + f.name)
            for c in self.callers.get(f.name, ()):
                if o[1] < len(c.ops):
                    self.op(c.fn, c.ops[o[1]])
            return
        if k != 'i' or (f.name, o[1]) in self.seen:
            return
        self.seen.add((f.name, o[1]))
        i = f.insts[o[1]]
        if i.op == 'alloca':
            for j in f.insts.values():
                if j.op == 'store' and ('alloca', i.id) in self.roots(f, j.ops[1]):
                    self.op(f, j.ops[0])
                elif j.op == 'call' and any(('alloca', i.id) in self.roots(f, x) for x in j.ops if x[0] == 'i'):
                    self.op(f, ['i', j.id])
            return
        if i.op == 'call':
            c = i.d['callee']
            for x in i.ops:
                if x[0] == 'i' or x[0] == 'a' or x[0] in ('g', 'ge'):
                    self.op(f, x)
            if c[0] != 'f':
                self.leaves.add('an indirect call')
            else:
                g = self.m.fns.get(c[1])
                if g is not None and not g.decl:
                    for j in g.insts.values():
                        if j.op == 'ret':
                            for x in j.ops:
                                self.op(g, x)
            return
        if i.op == 'load':
            g = self.const(f, i.ops[0])
            if g == 'memory':
                self.leaves.add('memory read at %s:%s' % (i.file, i.line))
        for x in ops(i):
            self.op(f, x)

    def const(self, f, o):
        """memory reached through a pointer which was itself loaded"""
        r = self.roots(f, o)
        return 'memory' if any(x[0] == 'loaded' for x in r) else None

    def roots(self, f, o):
        return EFF.root(f, o)


EFF = None


def check(ctx):
    global EFF
    ctx.rule('static', 'a writable static variable is never written, except as a cache: one final value, which depends on no argument, context or other writable static')
    ctx.rule('escape', 'the address of a writable static variable goes nowhere it could be written through')
    ctx.rule('effect', 'no external function with an effect outside memory, threads and reading the clock or system information is called')
    ctx.rule('asm', 'the assembly decoder has no writable data, calls nothing and enters no system call')
    for variant in ('noasm', 'asm'):
        m = ctx.mod(variant)
        EFF = effects.Effects(m)
        writable = {n for n, g in m.globals.items() if not g.get('const')}
        reach = reachable(m)
        sl = Slice(m, reach, writable)
        ctx.notes.append('%s: %d reachable functions, writable statics: %s' % (variant, len(reach), ', '.join(sorted(writable))))
        for n in sorted(reach):
            f = m.fns.get(n)
            if f is None or f.decl:
                continue
            stores = {}
            for i in f.insts.values():
                if i.op == 'call' and i.d['callee'][0] == 'f':
                    c = i.d['callee'][1]
                    g = m.fns.get(c)
                    if g is None or g.decl:
                        external(ctx, m, variant, i, c)
                if i.op == 'call' and i.d['callee'][0] not in ('f', 'i', 'a'):
                    ctx.bad('effect', 'effect:%s:asm' % n, i.file, i.line, n, 'inline assembly or unknown callee in library code')
                for k, o in enumerate(ops(i)):
                    for r in EFF.root(f, o) if o[0] in ('i', 'g', 'ge') and ptr(m, f, o) else ():
                        if r[0] != 'global':
                            continue
                        g = r[1]
                        w = g in writable
                        if i.op == 'store' and k == 1 or i.op in ('atomicrmw', 'cmpxchg') and k == 0:
                            if i.op == 'store':
                                stores.setdefault(g, []).append(i)
                            else:
                                ctx.bad('static', 'static:%s:%s' % (n, g), i.file, i.line, n, 'the static variable %s is modified: state shared by all contexts' % g)
                        elif i.op in ('load', 'getelementptr', 'icmp', 'phi', 'select', 'bitcast', 'freeze') or not w:
                            if w and i.op == 'load':
                                ctx.ok('static', '%s reads %s' % (n, g))
                            elif i.op == 'call' and not w and not reads_only(m, i, k):
                                ctx.bad('escape', 'escape:%s:%s' % (n, g), i.file, i.line, n, 'the constant %s may be written by the called function' % g)
                        elif i.op == 'call' and reads_only(m, i, k):
                            ctx.ok('escape', '%s passes %s to be read' % (n, g))
                        else:
                            ctx.bad('escape', 'escape:%s:%s' % (n, g), i.file, i.line, n, 'the address of the writable static %s escapes: state shared by all contexts' % g)
            for g, ss in stores.items():
                for i in ss:
                    if g not in writable:
                        ctx.bad('static', 'static:%s:%s' % (n, g), i.file, i.line, n, 'the constant %s is written' % g)
                        continue
                    lv = sl.run(f, i.ops[0])
                    for b in f.blocks:
                        if b[-1].op in ('br', 'switch') and b[-1].ops and b[-1].bb in f.rpoi and reaches(f, b[-1].bb, i.bb):
                            lv |= {x for x in sl.run(f, b[-1].ops[0]) if not x.startswith('static')}
                    if nonzero(m.globals[g].get('init')):
                        lv.add('the initial value before the call')
                    if EFF.root(f, i.ops[1]) != {('global', g)}:
                        lv.add('a choice of variables')
                    if lv:
                        ctx.bad('static', 'static:%s:%s' % (n, g), i.file, i.line, n, 'the static variable %s, shared by all contexts and threads, is written with a value which depends on %s' % (g, ', '.join(sorted(lv))))
                    elif any(j is not i and follows(f, i, j) for j in ss) or follows(f, i, i):
                        ctx.bad('static', 'static:%s:%s' % (n, g), i.file, i.line, n, 'the static variable %s, shared by all contexts and threads, is written again later: others see an intermediate value' % g)
                    elif any(t == ('global', g) for c in f.calls() if c.d['callee'][0] == 'f' and c.d['callee'][1] in EFF.w and after(f, i, c) for t in EFF.w[c.d['callee'][1]]):
                        ctx.bad('static', 'static:%s:%s' % (n, g), i.file, i.line, n, 'the static variable %s is written again by a called function' % g)
                    else:
                        ctx.ok('static', '%s caches %s' % (n, g))
    asm(ctx)
    ctx.floor('effect', 30)
    ctx.floor('asm', 1)


def nonzero(x):
    if isinstance(x, (list, tuple)):
        return any(nonzero(y) for y in x)
    return isinstance(x, str) and bool(x.strip('\0')) or isinstance(x, int) and x != 0


def ptr(m, f, o):
    if o[0] in ('g', 'ge'):
        return True
    return f.insts[o[1]].ty == 'ptr'


def reads_only(m, i, k):
    c = i.d['callee']
    if c[0] != 'f':
        return False
    g = m.fns.get(c[1])
    if g is None or g.decl:
        if re.match(r'(llvm\.)?(mem(cpy|move|ccpy)|str(n?cpy|n?cat))|llvm\.', c[1]):
            return k != 0
        return re.match(r'(strn?cmp|strlen|memcmp|strr?chr|memchr|fopen|ato|strto|fprintf|printf|s?n?printf)', c[1]) is not None
    return not any(t == ('param', k) or t[0] == 'ptag' and t[1] == k for t in EFF.w[g.name])


def reaches(f, a, b):
    """block b lies behind block a"""
    seen, wl = set(), list(f.succ[a])
    while wl:
        x = wl.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            wl += f.succ[x]
    return False


def follows(f, i, j):
    return i.bb == j.bb and j.idx > i.idx or reaches(f, i.bb, j.bb)


after = follows


def external(ctx, m, variant, i, c):
    n = i.fn.name
    if c in READERS:
        o = i.ops[READERS[c]]
        g = gname(o) if o[0] in ('g', 'ge') else None
        init = m.globals.get(g, {}).get('init') if g else None
        s = init if isinstance(init, str) else bytes(x for x in init or [] if isinstance(x, int)).split(b'\0')[0].decode('latin1') if init else None
        ctx.check('effect', s is not None and s[:1] == 'r' and '+' not in s, 'effect:%s:%s' % (n, c), i, 'a file is opened, not only for reading', (), '%s %s' % (n, c))
        return
    if variant == 'asm' and m.fns.get(c) is not None and c.startswith('LZMA_decodeReal'):
        return
    ctx.check('effect', PURE.match(c) is not None, 'effect:%s:%s' % (n, c), i, 'calls %s, which has an effect outside memory and threads' % c, (), '%s %s' % (n, c))


def asm(ctx):
    d = tempfile.mkdtemp(prefix='sa-asm-')
    try:
        srcs = [x for x in sorted(os.listdir(load.REPO)) if x.endswith('.S')]
        if not srcs:
            raise AnalysisError('assembly source not found')
        for s in srcs:
            o = os.path.join(d, s + '.o')
            load._run(['gcc', '-c', '-DMS_x64_CALL=0', os.path.join(load.REPO, s), '-o', o], d)
            sec = load._run([load.LLVM + '/llvm-readelf', '-S', '-W', o], d)
            for l in sec.splitlines():
                t = re.sub(r'\[ *(\d+)\]', r'[\1]', l).split()
                if len(t) > 8 and t[0].startswith('[') and t[1].startswith(('.data', '.bss', '.tdata', '.tbss', '.init', '.fini', '.ctors')):
                    ctx.check('asm', int(t[5], 16) == 0, 'asm:%s:%s' % (s, t[1]), None, '%s has writable or initialization data in section %s' % (s, t[1]))
                elif len(t) > 8 and t[0].startswith('[') and 'W' in t[7] and int(t[5], 16):
                    ctx.bad('asm', 'asm:%s:%s' % (s, t[1]), s, 0, '?', '%s has writable data in section %s' % (s, t[1]))
            sym = load._run([load.LLVM + '/llvm-nm', o], d)
            und = [l.split()[-1] for l in sym.splitlines() if re.search(r' [UuCwV] ', l) and not l.split()[-1].startswith('_GLOBAL')]
            ctx.check('asm', not und, 'asm:%s:extern' % s, None, '%s refers to %s' % (s, ', '.join(und)))
            dis = load._run([load.LLVM + '/llvm-objdump', '-d', '--no-show-raw-insn', o], d)
            ins = [l.split(':', 1)[1].split() for l in dis.splitlines() if re.match(r'\s+[0-9a-f]+:\s', l)]
            bad = sorted({x[0] for x in ins if x and re.match(r'(call|syscall|sysenter|int\d?$|int3|in$|out|hlt|rdtsc|rdrand|rdseed|ud2)', x[0])})
            ctx.check('asm', not bad, 'asm:%s:instr' % s, None, '%s uses %s' % (s, ', '.join(bad)))
            if len(ins) < 100:
                raise AnalysisError('assembly decoder not found in ' + s)
            ctx.notes.append('%s: %d instructions' % (s, len(ins)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
