"""Whole-program effect summaries: for each function, which struct fields it (transitively) may write/read,
which of its pointer parameters it may write through, and which external functions it reaches."""
from load import AnalysisError


def gep_tag(mod, inst):
    """(struct, field) for the innermost struct step of a GEP, else None"""
    path = inst.d.get('path', [])
    for p in reversed(path):
        if p[0] == 's':
            st, off = p[1], p[3]
            f = mod.field_at(st, off)
            return (st, f['name'] if f else '#%d' % p[2])
    return None


class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.w = {}      # fn -> set of tags ('S.f') / ('param', i) / ('global', g) / ('buf',) / ('unknown',)
        self.r = {}
        self.ext = {}
        self.callees = {}
        self.icalls = {}
        for f in mod.defined():
            self._local(f)
        self._close()

    def root(self, f, op, seen=None):
        """set of roots a pointer operand may designate: ('tag',(S,f)) ('param',i) ('alloca',id) ('global',g) ('buf',)"""
        seen = seen if seen is not None else set()
        k = op[0]
        if k == 'a':
            if f.args[op[1]].get('byval'):
                return {('alloca', 'arg%d' % op[1])}      # a copy of its own
            return {('param', op[1])}
        if k == 'g':
            return {('global', op[1])}
        if k == 'ge':
            return self.root(f, op[1], seen)
        if k in ('n', 'u', 'c'):
            return set()
        if k != 'i':
            return {('buf',)}
        if op[1] in seen:
            return set()
        seen.add(op[1])
        i = f.insts[op[1]]
        if i.op == 'getelementptr':
            t = gep_tag(self.mod, i)
            base = self.root(f, i.ops[0], seen)
            if any(b[0] == 'alloca' for b in base):
                return base
            if t:
                # a field of an object a parameter points at: dropped at calls which pass a local object
                if base and all(b[0] in ('param', 'ptag') for b in base):
                    return {('ptag', b[1], t) for b in base}
                return {('tag', t)}
            return base
        if i.op in ('phi',):
            r = set()
            for o, _ in i.ops:
                r |= self.root(f, o, seen)
            return r
        if i.op == 'select':
            return self.root(f, i.ops[1], seen) | self.root(f, i.ops[2], seen)
        if i.op in ('bitcast', 'inttoptr', 'freeze'):
            return self.root(f, i.ops[0], seen)
        if i.op == 'alloca':
            return {('alloca', i.id)}
        if i.op == 'load':
            return {('loaded',) + tuple(sorted(('tag', x[-1]) for x in self.root(f, i.ops[0], seen) if x[0] in ('tag', 'ptag')))}
        if i.op == 'call':
            return {('ret', i.d['callee'][1] if len(i.d['callee']) > 1 else '?')}
        return {('buf',)}

    def fnptrs(self, f, o, seen):
        """functions a called value may be, if it is a choice between named functions"""
        if o[0] == 'f':
            return {o[1]}
        if o[0] != 'i':
            return None
        if o[1] in seen:
            return set()
        seen.add(o[1])
        i = f.insts[o[1]]
        if i.op not in ('phi', 'select'):
            return None
        r = set()
        for x in ([x for x, _ in i.ops] if i.op == 'phi' else i.ops[1:3]):
            t = self.fnptrs(f, x, seen)
            if t is None:
                return None
            r |= t
        return r

    def _local(self, f):
        w, r, ext, cal, ic = set(), set(), set(), [], []
        for b in f.blocks:
            for i in b:
                if i.op == 'store':
                    for t in self.root(f, i.ops[1]):
                        if t[0] != 'alloca':
                            w.add(t)
                            if t[0] not in ('tag', 'ptag', 'param', 'global') and i.d.get('sty') == 'ptr':
                                w.add(('bufp',))
                elif i.op in ('atomicrmw', 'cmpxchg'):
                    for t in self.root(f, i.ops[0]):
                        w.add(t)
                        r.add(t)
                elif i.op == 'load':
                    for t in self.root(f, i.ops[0]):
                        if t[0] != 'alloca':
                            r.add(t)
                elif i.op == 'call':
                    c = i.d['callee']
                    if c[0] == 'f':
                        g = self.mod.fns.get(c[1])
                        n = c[1]
                        if g is None or g.decl:
                            ext.add(n)
                            if n.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'memcpy', 'memset', 'memmove')):
                                for t in self.root(f, i.ops[0]):
                                    if t[0] != 'alloca':
                                        w.add(t)
                                if 'memset' not in n:
                                    for t in self.root(f, i.ops[1]):
                                        if t[0] != 'alloca':
                                            r.add(t)
                        else:
                            for o, a in zip(i.ops, g.args):
                                if a.get('byval'):        # the structure is read by the call
                                    r |= self.root(f, o)
                                    if (a.get('di') or {}).get('name') in self.mod.structs:
                                        r |= {('tag', (a['di']['name'], x['name'])) for x in self.mod.structs[a['di']['name']]['fields']}
                            cal.append((n, [self.root(f, o) if o[0] in ('a', 'i', 'g', 'ge') else set() for o in i.ops]))
                    else:
                        ts = self.fnptrs(f, c, set())
                        if ts and all(n in self.mod.fns and not self.mod.fns[n].decl for n in ts):
                            for n in ts:
                                cal.append((n, [self.root(f, o) if o[0] in ('a', 'i', 'g', 'ge') else set() for o in i.ops]))
                        else:
                            ic.append(i)
        self.w[f.name], self.r[f.name], self.ext[f.name], self.callees[f.name], self.icalls[f.name] = w, r, ext, cal, ic

    def _close(self):
        ch = True
        while ch:
            ch = False
            for f in self.callees:
                for n, args in self.callees[f]:
                    for s in (self.w, self.r):
                        for t in list(s[n]):
                            if t[0] == 'param':
                                add = set(x for x in (args[t[1]] if t[1] < len(args) else ()) if x[0] != 'alloca')
                            elif t[0] == 'ptag':
                                a = args[t[1]] if t[1] < len(args) else ()
                                if a and all(x[0] in ('param', 'ptag') for x in a):
                                    add = {('ptag', x[1], t[2]) for x in a}
                                elif a and all(x[0] == 'alloca' for x in a):
                                    add = set()
                                else:
                                    add = {('tag', t[2])}
                            else:
                                add = {t}
                            if not add <= s[f]:
                                s[f] |= add
                                ch = True
                    if not self.ext[n] <= self.ext[f]:
                        self.ext[f] |= self.ext[n]
                        ch = True
        for s in (self.w, self.r):
            for f in s:
                s[f] = {('tag', t[2]) if t[0] == 'ptag' else t for t in s[f]}

    def wtags(self, n):
        return set(t[1] for t in self.w[n] if t[0] == 'tag')

    def rtags(self, n):
        return set(t[1] for t in self.r[n] if t[0] == 'tag')

    def reach(self, roots):
        seen, wl = set(), list(roots)
        while wl:
            n = wl.pop()
            if n in seen or n not in self.callees:
                continue
            seen.add(n)
            wl += [c for c, _ in self.callees[n]]
        return seen
