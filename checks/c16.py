"""C16: configuration layering, conversion and interpolation follow Config.tla."""
import json, os, itertools, tempfile, shutil
from vf import pool
from vf.core import MachineryError


def canon(x):
    if isinstance(x, bool):
        return {'t': 'b', 'v': x}
    if isinstance(x, int):
        return {'t': 'i', 'v': str(x)}
    if isinstance(x, float):
        from decimal import Decimal
        s, d, e = Decimal(repr(x)).as_tuple()
        d = ''.join(map(str, d)).lstrip('0')
        if not d:
            return {'t': 'f', 'v': ['0', 0]}
        k = len(d) - len(d.rstrip('0'))
        return {'t': 'f', 'v': [('-' if s else '') + d.rstrip('0'), e + k]}
    if isinstance(x, str):
        return {'t': 's', 'v': x}
    if isinstance(x, (list, tuple)) and all(isinstance(y, str) for y in x):
        return {'t': 'l', 'v': list(x)}
    if isinstance(x, dict):
        return {'t': 'd', 'v': [[k, canon(v)] for k, v in x.items()]}
    return {'t': 'other', 'v': repr(x)[:100]}


def read(cfg, s, k, how):
    try:
        return canon(cfg[s][k] if how == 0 else cfg[s].get(k) if how == 1 else
                     cfg[s].get(k, 'fallback'))
    except (KeyError, RecursionError):
        return {'t': 'err'}


TABLE = []


def observe(case):
    import plasTeX.client as client
    ev = []
    wd = tempfile.mkdtemp(prefix='c16_', dir=case['work'])
    try:
        argv, rest, files = [], [], []
        for j, lines in enumerate(case['files']):
            fn = os.path.join(wd, 'f%d.ini' % j)
            if lines is None:
                files.append(fn)     # a file that does not exist
                continue
            secs = {}
            for s, k, v in lines:
                secs.setdefault(s, []).append((k, v))
            with open(fn, 'w') as f:
                for s in secs:
                    f.write('[%s]\n' % s)
                    for k, v in secs[s]:
                        f.write('%s%s%s\n' % (k, case['eq'], v))
            files.append(fn)
            # the parser of INI files keeps the order of sections and keys
            ev.append({'k': 'file', 'l': [[s, k, v] for s in secs for k, v in secs[s]]})
        for fn in files:
            argv += ['-c', fn] if case['eq'] == '=' else ['--config', fn]
        for flag, args in case['cli']:
            t = case['types'][flag]
            if t in 'sif' and flag.startswith('--'):
                argv.append('%s=%s' % (flag, args[0]))
            else:
                argv += [flag] + args
        ev.append({'k': 'cli', 'l': [[f, a] for f, a in case['cli']]})
        argv = ['x.tex'] + argv if case['first'] else argv + ['--', 'x.tex']
        got = []
        client.run = lambda fn, cfg: got.append((fn, cfg))
        client.main(argv)
        fn, cfg = got[0]
        if fn != 'x.tex':
            ev.append({'k': 'exc', 'what': 'input file %r' % fn})
        if case.get('table'):
            ev.append({'k': 'table', 'x': [[s, k] for s in cfg for k in cfg[s].keys()]})
        how = 0
        for st in case['steps']:
            s, k = case['opts'][st[1]]
            if st[0] == 'get':
                ev.append({'k': 'get', 'i': st[1] + 1, 'x': read(cfg, s, k, how % 3 if st[2:] else 0)})
                if ev[-1]['x']['t'] == 'err' or ev[-1]['x'] in ({'t': 's', 'v': 'fallback'}, {'t': 'other', 'v': 'None'}):
                    ev[-1]['x'] = {'t': 'err'}
                how += 1
            else:
                cfg[s][k] = st[2]
                ev.append({'k': 'set', 'i': st[1] + 1, 'x': canon(st[2])})
        if case.get('fresh'):
            cfg2 = client.defaultConfig()
            client.collect_renderer_config(cfg2)
            ev.append({'k': 'new'})
            for i, (s, k) in enumerate(case['opts']):
                ev.append({'k': 'get', 'i': i + 1, 'x': read(cfg2, s, k, 0)})
    except (Exception, SystemExit) as e:
        ev.append({'k': 'exc', 'what': '%s: %s' % (type(e).__name__, str(e)[:200])})
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return ev


STRS = ['a', 'two words', 'x=y', 'http://e.x/a?b=1', "it's", '"q"', '$jobname', 'a,b', '', '[x]', '#h', 'UTF-16', '%%', '100%%', 'a\\b',
        '%(renderer)s', '%(theme)s-x', '%(split-level)d%%', '%(title)s/%(kpsewhich)s', '%(xml)s', '%(scale-factor)s', '%(nosuch)s',
        '%(bad-chars)s', '%%(theme)s', '%(mathjax-url)s%(index-columns)s', '%(enabled)s', '%(directory)s%(filename)s', '-v', '%(localtoc-level)d']
CLISTRS = [s for s in STRS]
INTS = ['0', '1', '-1', '7', '+3', '007', ' 12 ', '-0', '1000000000000', '-2147483649']
FLTS = ['0', '1', '1.5', '-.25', '2.', '1e3', '0.10', '+3.75', '12.5E-1', '100']
BOOLS = ['yes', 'no', 'true', 'false', 'on', 'off', 'Yes', 'NO', 'True', 'FALSE', 'On', 'OFF', '1', '0']
LISTS = ['a', 'a b', "'a b' c", '"x y"', "a'b'c", 'a\\ b', '""', "''", 'a  b', '%(theme)s x', '%%', '"a\\"b"', "'a\\b'", '"a\\b"', 'a,b',
         "x %(renderer)s-%(toc-depth)d '%(title)s'", '', 'p/q.xml']
LARGS = ['a', 'b c', '%(theme)s', '%%', 'x=y', "it's", '', 'p/q', '"']
DKEYS = ['chapter', 'Part', 'MyKey', 'a.b', 'x-y', 'RR', 'rr', 'e1']
DV = {'s': ['v', 'DEBUG', '50%', 'a=b', '\\mathbb{R}', 'http://x/%20y', '%(theme)s', 'A B'], 'i': ['1', '-2', '+3', '007'], 'f': ['1', '2.5', '-1.25', '.5']}


def rvalue(rng, o, src):
    t = o['t']
    if t == 's':
        return rng.choice(STRS)
    if t == 'i':
        return rng.choice(INTS if src == 'file' else [x.strip() for x in INTS])
    if t == 'f':
        return rng.choice(FLTS)
    if t == 'b':
        return rng.choice(BOOLS)
    if t == 'l':
        return rng.choice(LISTS)
    return ', '.join('%s=%s' % (rng.choice(DKEYS), rng.choice([v for v in DV[o['et']] if ',' not in v])) for _ in range(rng.randrange(1, 4)))


def rcase(rng, opts):
    # a few options in play, so that the layers meet on the same one
    focus = rng.sample(range(len(opts)), rng.randrange(1, 7))
    files = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        if rng.random() < .08:
            files.append(None)
            continue
        lines, seen = [], set()
        for i in focus:
            o = opts[i]
            if rng.random() < .35:
                continue
            if o['t'] == 'd' and rng.random() < .6:
                for _ in range(rng.randrange(1, 4)):
                    k = rng.choice(DKEYS)
                    if o['s'] == 'images':
                        k = rng.choice(['equation', 'picture', 'Tikz'])
                    if (o['s'], k) not in seen:
                        seen.add((o['s'], k))
                        lines.append([o['s'], k, rng.choice(DV[o['et']])])
                continue
            k = o['k']
            if rng.random() < .1:
                k = rng.choice([k.upper(), k.capitalize()])
            if (o['s'], o['k']) not in seen:
                seen.add((o['s'], o['k']))
                lines.append([o['s'], k, rvalue(rng, o, 'file')])
        if rng.random() < .1:
            lines.append(['nosuch', 'key', 'value'])
        if rng.random() < .1:
            lines.append(['general', 'nosuchoption', 'value'])
        rng.shuffle(lines)
        files.append(lines)
    cli = []
    for i in focus:
        o = opts[i]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            flag = rng.choice(o['on'] + o['off'])
            if o['t'] == 'b':
                args = []
            elif o['t'] == 'l':
                args = [rng.choice(LARGS) for _ in range(rng.randrange(0, 4))]
            elif o['t'] == 'd':
                args = [rng.choice(DKEYS), rng.choice(DV[o['et']])]
                if o['k'] == 'links' and rng.random() < .5:
                    args.append(rng.choice(DV['s']))
            else:
                args = [rvalue(rng, o, 'cli')]
                if flag == '-d' and (args[0].startswith('-') or not args[0]):
                    args = ['out']
            cli.append([flag, args])
    rng.shuffle(cli)
    steps = []
    scalar = [i for i in focus if opts[i]['t'] in 'sl']
    for i in rng.sample(focus, len(focus)):
        steps.append(('get', i, 1))
    for _ in range(rng.choice([0, 0, 1, 3])):
        i = rng.choice(focus + [0, 1, 17])
        o = opts[i]
        v = {'s': lambda: rng.choice(STRS), 'i': lambda: rng.randrange(-5, 99), 'f': lambda: rng.choice([.5, 2.0, -1.25]),
             'b': lambda: rng.random() < .5, 'l': lambda: [rng.choice(LARGS) for _ in range(rng.randrange(0, 3))],
             'd': lambda: None}[o['t']]()
        if v is None:
            continue
        steps.append(('set', i, v))
        for i in scalar[:3] + [i]:
            steps.append(('get', i))
    for i in focus:
        steps.append(('get', i))
    return {'files': files, 'cli': cli, 'steps': steps, 'fresh': rng.random() < .05,
            'first': rng.random() < .6, 'eq': rng.choice(['=', ' = ', ': ', '='])}


def run(ck):
    fn = os.path.join(ck.work, 'opts.json')
    ck.model('MC_Config', 'MC_Config%d.cfg' % ck.thorough, env={'OUT': fn}, timeout=600, expect_states=5000)
    opts = json.load(open(fn))
    types = {f: o['t'] for o in opts for f in o['on'] + o['off']}
    cases = []
    for i, o in enumerate(opts):
        fv = [None] + o['file']
        others = [j for j in range(len(opts)) if j != i]
        for combo in itertools.product(fv, fv, fv, [None] + o['cli']):
            cases.append({'files': [[] if v is None else [[o['s'], o['k'], v]] for v in combo[:3]],
                          'cli': [] if combo[3] is None else [combo[3]],
                          'steps': [('get', i)] + [('get', j) for j in ck.rng.sample(others, 3)] + [('get', i)],
                          'first': len(cases) % 2, 'eq': '='})
    allget = [('get', i) for i in range(len(opts))]
    for c in ck.rng.sample(cases, 30) + [{'files': [], 'cli': [], 'first': 1, 'eq': '='}]:
        cases.append(dict(c, steps=allget, fresh=True, table=True))
    n0 = len(cases)
    cases += [rcase(ck.rng, opts) for _ in range(40000 if ck.thorough else 5000)]
    for c in cases:
        c.update(work=ck.work, types=types, opts=[(o['s'], o['k']) for o in opts])
    evs = pool.run(observe, cases, chunk=100, timeout=10)
    trs = [[{'k': 'exc', 'what': e['exc']}] if isinstance(e, dict) else e for e in evs]
    bad = []
    for t in ck.rng.sample(trs, 200):
        g = [i for i, e in enumerate(t) if e['k'] == 'get' and e['x']['t'] in 'sbil']
        if not g:
            continue
        t = json.loads(json.dumps(t))
        x = t[ck.rng.choice(g)]['x']
        x['v'] = {'s': lambda v: v + 'x', 'b': lambda v: not v, 'i': lambda v: '3' + v, 'l': lambda v: v + ['x']}[x['t']](x['v'])
        bad.append(t)
    bad = bad[:60]
    vs = ck.validate('ConfigTrace', trs + bad, timeout=850)
    for c, t, v in zip(cases, trs, vs):
        if v[0] != 'ok':
            d = {k: c[k] for k in ('files', 'cli', 'steps', 'first', 'eq')}
            ck.violation(json.dumps([c['files'], c['cli'], c['steps']]), 'files %s command line %s: %s' % (c['files'], c['cli'], v[1]),
                         {'case': d, 'observed': t, 'verdict': v})
    ck.selftest(vs[len(trs):])
    ck.cov['traces_validated_against_impl'] += len(trs)
    ck.cov['options'] = len(opts)
    ck.cov['layerings_of_one_option'] = n0
    ck.cov['reads_judged'] = sum(1 for t in trs for e in t if e['k'] == 'get')
    for c in cases[n0:n0 + 4]:
        ck.sample({'files': c['files'], 'cli': c['cli']})
    ck.assumptions += ['INI syntax itself is read by configparser (trusted); interpolation normal form %(name)s, %(name)d, %%']
