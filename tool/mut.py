#!/usr/bin/env python3
"""Self-test of the checks: applies textual mutants of /repo in scratch copies and runs the named checks on them.
usage: mut.py PROP [name-substring]   (specs in tool/mutants/<prop>.txt)
spec blocks:
  @ name bug|quiet file
  <<<
  old text
  ===
  new text
  >>>            (repeat "@+ file" + block to change a second place)
"""
import re, sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(p):
    r, cur, mode, buf = [], None, None, []
    for l in open(p):
        l = l.rstrip('\n')
        if mode is None and l.startswith('@+ '):
            cur['edits'].append([l[3:].strip(), None, None])
        elif mode is None and l.startswith('@ '):
            n, k, f = l[2:].split()
            k, _, g = k.partition('@')
            k, _, want = k.partition(':')
            cur = {'name': n, 'kind': k, 'want': set(filter(None, want.split(','))), 'groups': g, 'edits': [[f, None, None]]}
            r.append(cur)
        elif l == '<<<':
            mode, buf = 'old', []
        elif l == '===' and mode == 'old':
            cur['edits'][-1][1] = '\n'.join(buf)
            mode, buf = 'new', []
        elif l == '>>>':
            cur['edits'][-1][2] = '\n'.join(buf)
            mode = None
        elif mode:
            buf.append(l)
    return r


def one(prop, mt):
    d = tempfile.mkdtemp(prefix='mut')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '_build*', 'bench', '*.o'))
        for f, a, b in mt['edits']:
            p = os.path.join(repo, f)
            s = open(p, encoding='utf-8', errors='surrogateescape', newline='').read()
            crlf = '\r\n' in s
            s = s.replace('\r\n', '\n')
            if s.count(a) < 1:
                return mt, 'NOMATCH', a[:60]
            s = s.replace(a, b, 1)
            if crlf:
                s = s.replace('\n', '\r\n')
            open(p, 'w', encoding='utf-8', errors='surrogateescape', newline='').write(s)
        env = dict(os.environ, SA_REPO=repo, SA_EVID=d)
        if prop == 'API':
            env['SA_NOSTOP'] = '1'
        if mt['groups']:
            env['SA_GROUPS'] = mt['groups']
        x = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), prop], capture_output=True, text=True, env=env, cwd=ROOT)
        fired = set(re.findall(r': \[([\w.-]+)\]', x.stdout))
        if mt['want'] and fired and not fired & mt['want']:
            return mt, 'RULES', '%s instead of %s' % (fired, mt['want'])
        first = [l for l in x.stdout.split('\n') if ': [' in l][:2]
        if x.returncode not in (0, 1):
            first = (x.stdout + x.stderr).strip().split('\n')[-2:]
        return mt, x.returncode, (','.join(sorted(fired)) + ' ' if mt['want'] else '') + ' | '.join(first)[:230]
    finally:
        shutil.rmtree(d)


def main():
    prop = sys.argv[1]
    sub = sys.argv[2] if len(sys.argv) > 2 else ''
    ms = [m for m in parse(os.path.join(ROOT, 'tool', 'mutants', prop + '.txt')) if sub in m['name']]
    bad = 0
    with cf.ThreadPoolExecutor(6) as ex:
        for mt, rc, txt in ex.map(lambda x: one(prop, x), ms):
            good = rc == (1 if mt['kind'] == 'bug' else 0)
            bad += not good
            print('%-4s %-28s %-5s rc=%s %s' % ('ok' if good else 'BAD', mt['name'], mt['kind'], rc, txt), flush=True)
    print('%d mutants, %d wrong' % (len(ms), bad))


main()
