"""Plant a bug: tools/plant.py SPEC.py  (SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS).

Makes the change in a scratch copy of /repo, checks that it applies, that the
baseline tests still pass, that the demonstration passes without it and fails
with it and that it changes lines of the original repository only; then writes
/verif/seeded/ID.
"""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID, W = spec['ID'], '/tmp/plant_%d' % os.getpid()
out = '/verif/seeded/' + ID
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
try:
    os.makedirs(W + '_d')
    open(W + '_d/demo.py', 'w').write(spec['DEMO'])
    sh = '#!/bin/sh\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
    open(W + '_d/demo.sh', 'w').write(sh)
    run = lambda: subprocess.run(['sh', W + '_d/demo.sh'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    r = run()
    if r.returncode:
        sys.exit('%s: demo fails on the unchanged tree: %s' % (ID, r.stdout.decode()[-1500:]))
    for f, old, new in spec['EDITS']:
        s = open(os.path.join(W, f)).read()
        if s.count(old) != 1:
            sys.exit('%s: %d occurrences of the text in %s' % (ID, s.count(old), f))
        open(os.path.join(W, f), 'w').write(s.replace(old, new))
    r = run()
    if not r.returncode:
        sys.exit('%s: demo passes with the change' % ID)
    print('demo with change:', r.stdout.decode()[-400:].strip())
    diff = subprocess.run(['git', '-C', W, 'diff', '--', '*.py'], stdout=subprocess.PIPE).stdout.decode()
    orig = {}
    for f, old, new in spec['EDITS']:
        o = subprocess.run(['git', '-C', W, 'show', 'c40ae46:' + f], stdout=subprocess.PIPE).stdout.decode()
        orig[f] = o.splitlines()
    cur = None
    removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    allorig = set(sum(orig.values(), []))
    mine = [l for l in removed if l not in allorig]
    if mine:
        sys.exit('%s: changes lines that are not of the original repository: %r' % (ID, mine))
    if not removed:
        print('note: only adds lines')
    base = json.load(open('/opt/vp/BASELINE.json'))
    if '--notest' not in sys.argv:
        # the test script works on /repo: apply there, run, undo
        open('/tmp/plant.diff', 'w').write(diff)
        subprocess.check_call(['git', '-C', '/repo', 'apply', '/tmp/plant.diff'])
        try:
            subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            t = subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/plant.json'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
        finally:
            subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
        passed = set(json.load(open('/tmp/plant.json'))['passed'])
        bad = sorted(x for x in base['stable'] if x not in passed)
        if bad:
            sys.exit('%s: tests fail: %s' % (ID, bad[:5]))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(spec['DEMO'])
    open(out + '/demo.sh', 'w').write(sh)
    json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    print('planted', ID)
finally:
    shutil.rmtree(W, ignore_errors=True)
    shutil.rmtree(W + '_d', ignore_errors=True)
