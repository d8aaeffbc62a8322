#!/usr/bin/env python3
"""mkseed.py SPEC: make and confirm a planted bug.
SPEC is a file:
id: NAME / property: Cxx / needs: ... / breaks: ...   (one line each)
@ file, <<< old === new >>>                           (one or more edits)
%% demo                                               (optional: the rest is demo.c, compiled with the library's sources)
The demonstration is confirmed in a scratch copy (passes before, fails after); --tests also runs the test suite."""
import json, os, re, subprocess, sys, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the library's source folder: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -O1 -g %s -pthread -w -I. "$d/demo.c" dict_buffer.c fl2_*.c lzma2_*.c radix_*.c range_enc.c util.c xxhash.c -o "$t/demo" || exit 2
timeout 200 "$t/demo"
'''


def sh(c, cwd=None):
    return subprocess.run(c, cwd=cwd, capture_output=True, text=True, errors='replace')


def main():
    spec = open(sys.argv[1]).read()
    demo = None
    flags = '-fsanitize=address'
    if '%% demo' in spec:
        spec, demo = spec.split('%% demo', 1)
        flags0, demo = demo.split('\n', 1)
        flags = flags0.strip() or flags
        if flags == 'none':
            flags = ''
    meta = dict(re.findall(r'^(id|property|needs|breaks): (.*)$', spec, re.M))
    d = os.path.join(ROOT, 'seeded', meta['id'])
    os.makedirs(d, exist_ok=True)
    if demo is not None:
        open(d + '/demo.c', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO % flags)
    os.chmod(d + '/demo.sh', 0o755)
    t = tempfile.mkdtemp(prefix='seed')
    try:
        w = t + '/repo'
        sh(['git', 'clone', '-q', '/repo', w])
        r0 = sh(['bash', d + '/demo.sh'], w)
        for f, old, new in re.findall(r'^@ (\S+)\n<<<\n(.*?)\n?===\n(.*?)\n?>>>', spec, re.M | re.S):
            p = w + '/' + f
            b = open(p, newline='').read()
            if '\r\n' in b:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if b.count(old) != 1:
                sys.exit('%s: old text occurs %d times in %s' % (meta['id'], b.count(old), f))
            open(p, 'w', newline='').write(b.replace(old, new))
        diff = subprocess.run(['git', 'diff', '--binary'], cwd=w, capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r1 = sh(['bash', d + '/demo.sh'], w)
        print(meta['id'], 'before', r0.returncode, 'after', r1.returncode, 'GOOD' if r0.returncode == 0 and r1.returncode not in (0, 2) else 'BAD')
        print((r0.stdout + r0.stderr)[-600:] if r0.returncode else '', '\n', (r1.stdout + r1.stderr)[:700])
    finally:
        shutil.rmtree(t)


main()
