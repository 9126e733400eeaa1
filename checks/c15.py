"""C15: the filename generator follows Filenames.tla."""
import json, os
from vf import pool

DEFAULT_BAD = ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.'


def render(rng, case):
    """the template string, in one of its spellings"""
    def piece(p, nxt):
        if p['k'] == 'lit':
            return p['s']
        sp = lambda: rng.choice(['', '', ' '])
        w = '' if p['w'] < 0 else '(%s%d%s)' % (sp(), p['w'], sp())
        if not w and nxt and (nxt[0].isalnum() or nxt[0] == '_') or rng.random() < .4:
            a = rng.choice(['', '', ' '])
            return '${%s%s%s}%s' % (a, p['s'], a, w)
        return '$' + p['s'] + w

    def templ(t):
        out = ''
        for p in reversed(t):
            out = piece(p, out or case.get('after', '')) + out
        return out
    parts = [templ(t) for t in case['static']]
    if case['wild']:
        pre, post = case.get('pre', 0), case.get('post', 0)
        w = case['wild']
        case['after'] = ''
        head = templ(w[0][:pre]) if pre else ''
        n = [t[pre:len(t) - post] for t in w]
        tail = templ(w[0][len(w[0]) - post:]) if post else ''
        if pre and head and w[0][pre - 1]['k'] == 'var' and not head.endswith((')', '}')):
            pass
        case['after'] = tail
        alts = [templ(t) for t in n]
        sep = lambda: rng.choice([',', ', ', ' , '])
        body = alts[0]
        for a in alts[1:]:
            body += sep() + a
        sp = rng.choice(['', ' '])
        parts.append(head + '[' + sp + body + sp + ']' + tail)
    out = rng.choice(['', '', ' ', '\n'])
    for i, p in enumerate(parts):
        out += (rng.choice([' ', ' ', '  ', '\n']) if i else '') + p
    return out + rng.choice(['', '', ' '])


def observe(case):
    from plasTeX.Filenames import Filenames
    ev = []
    charsub = (case['conf']['bad'], case['conf']['rep'])
    if not charsub[0] and case['kw'] == 1:
        charsub = None
    invalid = {k: None for k in case['reserved']}
    if not invalid and case['kw'] == 1:
        invalid = None
    variables = {k: v for k, v in case['init']}
    if not variables and case['kw'] == 1:
        variables = None
    f = Filenames(case['spec'], charsub, variables, case['conf']['ext'], invalid)
    for kind, n, v in case['steps']:
        if kind == 'bind':
            f.variables[n] = v
            ev.append({'k': 'bind', 'n': n, 'v': v})
            continue
        try:
            r = f() if kind == 'req' else next(f)
        except ValueError:
            ev.append({'k': 'error', 'n': ''})
            continue
        ev.append({'k': 'name', 'n': r} if isinstance(r, str) else {'k': 'exc', 'n': repr(r)})
    return ev


def trace(case, ev):
    if isinstance(ev, dict):
        ev = [{'k': 'exc', 'n': ev['exc']}]
    t = {k: case[k] for k in ('static', 'wild', 'conf', 'reserved', 'init')} | {'ev': ev}
    return json.loads(json.dumps(t, ensure_ascii=False).translate(FOLD))


# TLC's string operators are for single-byte characters: the non-ASCII ones
# used here are written as three ASCII ones used nowhere else
FOLD = {ord('é'): '@', ord('ü'): '+', ord('ô'): 'E'}


def lit(s):
    return {'k': 'lit', 's': s}


def var(s, w=-1):
    return {'k': 'var', 's': s, 'w': w}


NAMES = ['id', 'title', 'jobname', 'a1', 'ref']
VALUES = ['x', 'sec:one', 'A Big Title', 'two words', 'sect1', 'sect0001', 'index', 'a.b', 'a b  c\td e', 'é ü', '1', 'x.html', '..',
          'dir/x', 'a/b.c/d', "L'Hôpital's rule", 'my_file', '', 'x y', '$id', '${num}', 'sect1.html', ' lead', 'a,b', '[x]', '.hid']
LITS = ['sect', 'index', 's-', '_', 'x.html', 'img/', '.png', 'a.b-', '-', 'toc', '..', 'é', '0', '/.h']


def rpiece(rng, numbered=.35):
    if rng.random() < .45:
        return lit(rng.choice(LITS))
    if rng.random() < numbered:
        return var('num', rng.choice([-1, -1, 1, 2, 4, 10]))
    return var(rng.choice(NAMES), rng.choice([-1, -1, -1, 1, 2, 5]))


def rtempl(rng, lo=1):
    t = [rpiece(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    return t


def rcase(rng):
    case = {'static': [rtempl(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5]))], 'wild': []}
    if not case['static'] or rng.random() < .8:
        pre = [rpiece(rng)] if rng.random() < .3 else []
        post = [rpiece(rng)] if rng.random() < .3 else []
        mids = [rtempl(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if rng.random() < .6:
            mids[-1] = [lit('sect'), var('num', rng.choice([-1, 4]))]
        case['wild'] = [pre + m + post for m in mids]
        case['pre'], case['post'] = len(pre), len(post)
    # at most one piece per written name: adjacent literals are one literal
    case['conf'] = rng.choice([{'bad': DEFAULT_BAD, 'rep': '-'}, {'bad': DEFAULT_BAD, 'rep': '-'}, {'bad': '', 'rep': ''},
                               {'bad': ' :.', 'rep': ''}, {'bad': 'xs1', 'rep': '__'}, {'bad': ' /', 'rep': '_'}]) | \
        {'ext': rng.choice(['.html', '.html', '', '.x', 'z'])}
    pool_ = VALUES + ['sect1.html', 'sect2', 'sect0003.html', 'index.html', 'x']
    case['reserved'] = sorted(set(rng.choice(pool_) for _ in range(rng.choice([0, 0, 0, 1, 3]))))
    if rng.random() < .06:
        case['reserved'] = ['sect%d%s' % (i, case['conf']['ext']) for i in range(1, rng.choice([5, 60, 140]))]
    case['init'] = [[k, rng.choice(VALUES)] for k in NAMES if rng.random() < .25]
    steps = []
    for _ in range(rng.randrange(1, 13)):
        for k in NAMES:
            if rng.random() < .3:
                steps.append(('bind', k, rng.choice(VALUES)))
        steps.append((rng.choice(['req', 'req', 'next']), '', ''))
    if rng.random() < .05:
        steps += [('req', '', '')] * 120
    case['steps'] = steps
    case['kw'] = rng.randrange(2)
    return case


def run(ck):
    fn = os.path.join(ck.work, 'gen.json')
    ck.model('MC_Filenames', 'MC_Filenames0.cfg', env={'OUT': fn}, timeout=300, expect_states=5000)
    if ck.thorough:
        ck.model('MC_Filenames', 'MC_Filenames1.cfg', timeout=600, expect_states=50000)
    j = json.load(open(fn))
    cases = [dict(g, steps=[x for b in bs for x in [('bind', k, v) for k, v in b] + [('req', '', '')]], kw=0)
             for g in j['gens'] for bs in j['binds'] if g['static'] or g['wild']]
    if not ck.thorough:
        cases = ck.rng.sample(cases, 8000)
    nmodel = len(cases)
    cases += [rcase(ck.rng) for _ in range(60000 if ck.thorough else 6000)]
    for c in cases:
        c['spec'] = render(ck.rng, c)
    evs = pool.run(observe, cases, chunk=200, timeout=5)
    trs = [trace(c, e) for c, e in zip(cases, evs)]
    bad = []
    for t in ck.rng.sample(trs[nmodel:], 60):
        i = [i for i, e in enumerate(t['ev']) if e['k'] == 'name']
        if not i:
            continue
        ev = [dict(e) for e in t['ev']]
        i = ck.rng.choice(i)
        ev[i]['n'] = ck.rng.choice([ev[i]['n'] + 'x', ev[i]['n'][1:]])
        bad.append(dict(t, ev=ev))
    vs = ck.validate('FilenamesTrace', trs + bad, timeout=850)
    for c, t, v in zip(cases, trs, vs):
        if v[0] != 'ok':
            ck.violation('%s|%s' % (c['spec'], c['steps']), 'template %r, initial %s, reserved %s: %s' % (
                c['spec'], c['init'], c['reserved'][:5], v[1]), {'case': c, 'observed': t['ev'], 'verdict': v})
    ck.selftest(vs[len(trs):])
    ck.cov['traces_validated_against_impl'] += len(trs)
    ck.cov['requests'] = sum(1 for t in trs for e in t['ev'] if e['k'] != 'bind')
    ck.cov['errors_reported'] = sum(1 for t in trs for e in t['ev'] if e['k'] == 'error')
    for c in cases[nmodel:nmodel + 4]:
        ck.sample({'template': c['spec'], 'steps': c['steps'][:6]})
    ck.assumptions += ['template normal form: one bracket group, ${name} before word characters, string values, no binding of num (DESIGN.md, C15)']
