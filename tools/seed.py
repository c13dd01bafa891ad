#!/usr/bin/env python3
"""Make and try planted changes.
  seed.py make SPEC.py...   SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python text)
  seed.py verify ID...      applies, builds, tests pass, demo 0 without / nonzero with the change (in a scratch copy)
  seed.py run ID [PROP...]  applies it to a scratch copy of /repo and runs the quick checks on that
"""
import json, os, subprocess, sys, tempfile, shutil, runpy

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', 'seeded')
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
DEMO_SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

PRE = '''import asyncio, io, os, sys
loop = asyncio.new_event_loop()
asyncio.set_event_loop(loop)
from nessaid_cli.cli import NessaidCli
from nessaid_cli.cmd import NessaidCmd
from nessaid_cli.compiler import compile_grammar
from nessaid_cli.tokens import *
TOKENS = [StringToken, RangedStringToken, RangedIntToken, RangedDecimalToken, AlternativeStringsToken, BooleanToken, PathToken]


def make(grammar, *handlers, root='root', **kw):
    class Cli(NessaidCli):
        def get_token_classes(self):
            return TOKENS
    for h in handlers:
        setattr(Cli, h, (lambda h: lambda self, *a: self.log.append((h,) + a))(h))
    c = Cli(compile_grammar(grammar), loop=loop, stdout=io.StringIO(), stderr=io.StringIO(), **kw)
    c.log = []
    c.enter_grammar(root)
    return c


def run(c, line):
    n = len(c.log)
    rc = loop.run_until_complete(c.exec_line(line))
    return rc, c.log[n:]


def expect(got, want):
    if got != want:
        sys.exit('got %r, expected %r' % (got, want))


'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    r = d + '/repo'
    sh('git -C /repo archive HEAD | (mkdir %s; tar x -C %s)' % (r, r))
    sh('git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm x', cwd=r)
    return d, r




def make(s):
    d, r = scratch()
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(r, f)
            text = open(p).read()
            if text.count(old) != 1:
                print(s['ID'], 'edit does not apply', text.count(old), repr(old))
                return None
            open(p, 'w').write(text.replace(old, new))
        diff = sh('git diff', cwd=r).stdout
        out = os.path.join(SEEDED, s['ID'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(PRE + s['DEMO'].lstrip())
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d)
    return s['ID']


def blame_ok(patch):
    """Lines the patch removes exist in the base commit's file."""
    res, f = [], None
    for line in open(patch):
        if line.startswith('--- a/'):
            f = line[6:].strip()
            base = sh(['git', '-C', '/repo', 'show', BASE + ':' + f]).stdout.splitlines()
        elif line.startswith('-') and not line.startswith('---'):
            if line[1:].rstrip('\n') not in base:
                res.append(line.rstrip())
    return res


def verify(i):
    out = os.path.abspath(os.path.join(SEEDED, i))
    d, r = scratch()
    ok = True
    try:
        bad = blame_ok(out + '/patch.diff')
        if bad:
            print(i, 'changes lines that are not original:', bad); ok = False
        x = sh(['bash', out + '/demo.sh'], cwd=r)
        if x.returncode:
            print(i, 'demo fails without the change:', x.stdout[-800:], x.stderr[-1500:]); ok = False
        x = sh(['git', 'apply', out + '/patch.diff'], cwd=r)
        if x.returncode:
            print(i, 'does not apply', x.stderr); return False
        x = sh(['/opt/venv/bin/python', '-m', 'compileall', '-q', '-f', 'nessaid_cli'], cwd=r)
        if x.returncode:
            print(i, 'does not compile', x.stdout); ok = False
        x = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider nessaid_cli_tests </dev/null', cwd=r, env=dict(os.environ, PYTHONPATH=r, TERM='dumb', PYTHONHASHSEED='0'))
        if x.returncode or '6 passed' not in x.stdout:
            print(i, 'tests:', x.stdout[-1500:]); ok = False
        x = sh(['bash', out + '/demo.sh'], cwd=r)
        if x.returncode == 0:
            print(i, 'demo passes with the change'); ok = False
        elif ok:
            print(i, 'ok;', (x.stderr.strip().splitlines() or x.stdout.strip().splitlines() or [''])[-1][:200])
    finally:
        shutil.rmtree(d)
    return ok


def run(i, props):
    out = os.path.abspath(os.path.join(SEEDED, i))
    meta = json.load(open(out + '/meta.json'))
    props = props or [meta['property']]
    d, r = scratch()
    x = sh(['git', 'apply', out + '/patch.diff'], cwd=r)
    assert x.returncode == 0, x.stderr
    try:
        for p in props:
            x = sh('cd /verif; timeout 900 python3-vt check.py %s quick' % p, env=dict(os.environ, VERIF_REPO=r))
            v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION') or 'UNDECIDED' in l]
            last = [l for l in x.stdout.splitlines() if ' quick: ' in l]
            print('%s %s: exit %d %s | %s' % (i, p, x.returncode, 'CAUGHT' if x.returncode == 1 else 'missed',
                                            (last or [''])[-1].split(' quick: ')[-1]), v[:2] if x.returncode != 1 else '', flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        specs = [s for a in args[:1] for s in runpy.run_path(a)['SPECS'] if not args[1:] or s['ID'] in args[1:]]
        ids = [make(s) for s in specs]
        for i in ids:
            if i:
                verify(i)
    elif cmd == 'verify':
        for i in args or sorted(os.listdir(SEEDED)):
            verify(i)
    elif cmd == 'run':
        run(args[0], args[1:])
    elif cmd == 'runall':
        for i in args or sorted(os.listdir(SEEDED)):
            run(i, [])
