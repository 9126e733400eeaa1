"""C05: arguments and numeric literals, against Args.tla."""
import json, os, re
from vf import pool

PRE = r'''\newcount\qca\newcount\qcb\newdimen\qda\newdimen\qdb\newskip\qsa\newskip\qsb
\qca=7\relax\qcb=-3\relax\qda=10pt\relax\qdb=-1.5pt\relax
\qsa=3pt plus 1pt minus 2fil\relax\qsb=-2pt plus 3fill\relax
\def\qma{2}\def\qmb{pt}\def\qmc{1pt plus 3pt}\def\qme{}\def\qmd{-\qma}\def\qmf{a\qma b}'''
SCAN = ['Number', 'Dimen', 'Glue', 'MuDimen', 'MuGlue']
LIGATURES = [('—', '---'), ('–', '--'), ('“', '``'), ('”', "''"), ('‘', '`'), ('’', "'")]
PAIRS = {'[': ']', '(': ')', '<': '>'}


def newtex():
    from plasTeX.TeX import TeX
    t = TeX()
    t.input(PRE)
    for x in t:
        pass
    return t


def tokens(toks):
    from plasTeX import Tokenizer as T
    out = []
    for x in toks:
        if x[0] == '\\':
            out.append(T.EscapeSequence(x[1:]))
        elif x == ' ':
            out.append(T.Space(' '))
        elif x == '{':
            out.append(T.BeginGroup(x))
        elif x == '}':
            out.append(T.EndGroup(x))
        elif x.isalpha():
            out.append(T.Letter(x))
        else:
            out.append(T.Other(x))
    return out


def name(t):
    if t.nodeType == t.ELEMENT_NODE:
        return '\\' + t.nodeName
    if t.macroName is not None and t.catcode == 0:
        return '\\' + str(t)
    return str(t)


def sp(v):
    """dimension -> (value, fil order)"""
    v = float(v)
    for o, base in ((3, 6e9), (2, 4e9), (1, 2e9)):
        if abs(v) >= base:
            f = abs(v) - base
            return int(round((f if v >= 0 else -f) * 65536)), o
    return int(round(v)), 0


def clip(n):
    return max(-2000000000, min(2000000000, n))


def value(v, t, sub=''):
    import plasTeX
    if v is None:
        return {'k': 'nil'}
    if t in ('mod', '', 'str'):
        s = v if isinstance(v, str) else v.textContent
        s = str(s).strip()
        for a, b in LIGATURES:
            s = s.replace(a, b)
        return {'k': 'text', 's': list(s)}
    if t in ('nox', 'Args'):
        return {'k': 'toks', 's': [name(x) for x in v]}
    if t in ('cs', 'Tok'):
        return {'k': 'toks', 's': [name(v)]}
    if t == 'XTok':
        return {'k': 'text', 's': [str(v)] if isinstance(v, str) else [x for c in v for x in c.textContent]}
    if t in ('int', 'number', 'count', 'Number'):
        if not isinstance(v, int):
            return {'k': type(v).__name__, 's': repr(v)}
        return {'k': 'int', 'v': clip(int(v))}
    if t in ('float', 'double'):
        if not isinstance(v, (int, float)):
            return {'k': type(v).__name__, 's': repr(v)}
        return {'k': 'float', 'v': clip(int(round(float(v) * 65536)))}
    if t in ('dimen', 'length', 'dimension', 'Dimen', 'MuDimen'):
        if not isinstance(v, plasTeX.dimen):
            return {'k': type(v).__name__, 's': repr(v)}
        n, o = sp(v * 65536 if t == 'MuDimen' else v)
        return {'k': 'dimen', 'v': clip(n), 'o': o}
    if t in ('Glue', 'MuGlue'):
        if not isinstance(v, plasTeX.glue):
            return {'k': type(v).__name__, 's': repr(v)}
        mu = t == 'MuGlue'

        def part(x):
            if x is None:
                return 0, 0
            n, o = sp(x)
            return (n * 65536 if mu and not o else n), o
        if mu:
            part = lambda x: (0, 0) if x is None else sp(x) if abs(x) >= 2e9 else (int(round(float(x) * 65536)), 0)
        w, s, h = part(float(v)), part(v.stretch), part(v.shrink)
        return {'k': 'glue', 'w': clip(w[0]), 's': clip(s[0]), 'so': s[1], 'h': clip(h[0]), 'ho': h[1]}
    if t == 'list':
        if not isinstance(v, list):
            return {'k': type(v).__name__, 's': repr(v)}
        return {'k': 'list', 's': [value(x, sub) for x in v]}
    if t == 'dict':
        if not isinstance(v, dict):
            return {'k': type(v).__name__, 's': repr(v)}
        return {'k': 'dict', 's': [{'key': list(str(k).strip()), 'val': {'k': 'true'} if x is True else value(x, sub)} for k, x in v.items()]}
    raise ValueError(t)


def sigstring(sig, style):
    """the text of a signature; style 0 is spaced, 1 is dense"""
    out = []
    for i, a in enumerate(sig):
        n = 'x%s' % 'abcdefgh'[i]
        t = a.get('t', '')
        s = n + (':' + t if t else '')
        if t in ('list', 'dict') and a['d']:
            s += '(%s)' % a['d']
        if a.get('sub'):
            s += ':' + a['sub']
        if a['k'] == 'mod':
            s = a['c']
        elif a['k'] == 'opt':
            s = (a['o'] + ' %s ' + a['c']) % s if style == 0 else a['o'] + s + a['c']
        out.append(s)
    return (' ' if style == 0 else '').join(out) if style == 0 or dense(sig) else ' '.join(out)


def dense(sig):
    """can the arguments be written with no blanks in between?"""
    return all(a['k'] != 'man' or b['k'] != 'man' for a, b in zip(sig, sig[1:]))


TEX = None


def observe(case):
    global TEX
    import plasTeX
    from plasTeX import Command
    if TEX is None:
        TEX = newtex()
    t = TEX
    try:
        sig, toks, how = case['sig'], case['toks'], case['how']
        ctx = t.ownerDocument.context
        push = tokens(toks)
        if how == 'read':
            t.pushTokens(push)
            ty = sig[0]['t']
            v = {'Number': t.readNumber, 'Dimen': t.readDimen, 'Glue': t.readGlue, 'MuDimen': t.readMuDimen, 'MuGlue': t.readMuGlue}[ty]()
            b = [value(v, ty)]
        elif how == 'assign':
            ty = sig[0]['t']
            reg = {'Number': 'qxa', 'Dimen': 'qxb', 'Glue': 'qxc'}[ty]
            {'Number': ctx.newcount, 'Dimen': ctx.newdimen, 'Glue': ctx.newskip}[ty](reg)
            t.pushTokens(tokens(['\\' + reg] + (['='] if case['eq'] else [])) + push)
            next(iter(t))
            b = [value(ctx[reg].value, ty)]
        else:
            ctx['qfoo'] = type('qfoo', (Command,), {'args': sigstring(sig, case['style']), 'macroName': 'qfoo'})
            if how == 'text':
                t.input('\\qfoo' + (' ' if not toks or toks[0].isalpha() else '') + ''.join(x + ' ' if x[0] == '\\' else x for x in toks) + '%')
            else:
                t.pushTokens(tokens(['\\qfoo']) + push)
            obj = next(iter(t))
            names = [a.name for a in obj.arguments]
            b = []
            for i, a in enumerate(sig):
                n = '*modifier*' if a['k'] == 'mod' and a['c'] != '=' else '*equals*' if a['k'] == 'mod' else 'x%s' % 'abcdefgh'[i]
                b.append(value(obj.attributes.get(n), 'mod' if a['k'] == 'mod' else a['t'], a.get('sub') or ''))
            if len(names) != len(sig):
                b = b[:len(names) - 1]
        lvl = plasTeX.ParameterCommand._enablelevel
        r = [name(x) for x in t.expandableTokens()]
        s = ''
        r = [x for x in r if x not in '{}']
        while r and r[0] == ' ':
            r.pop(0)
        while r and r[-1] == ' ':
            r.pop()
        obs = {'b': b, 'r': r, 'lvl': lvl}
        if lvl or not plasTeX.ParameterCommand.enabled or len(ctx.contexts) != case.get('depth', len(ctx.contexts)) or not ctx.warnOnUnrecognized:
            obs['lvl'] = lvl or 99
            plasTeX.ParameterCommand._enablelevel = 0
            plasTeX.ParameterCommand.enabled = True
            TEX = None
    except Exception as e:
        TEX = None
        plasTeX.ParameterCommand._enablelevel = 0
        plasTeX.ParameterCommand.enabled = True
        obs = {'b': [{'k': 'error %s: %s' % (type(e).__name__, e)}] * len(case['sig']), 'r': [], 'lvl': 0}
    return json.loads(json.dumps(obs))


# --- generators ----------------------------------------------------------------------------
def content(rng, depth, close=None, kind='text'):
    out = []
    for _ in range(rng.randint(0, 4)):
        p = rng.random()
        if p < .35:
            out.append(rng.choice('abz'))
        elif p < .45 and out:
            out.append(' ')
        elif p < .55:
            out.append(rng.choice('019.,;=*+'))
        elif p < .65 and depth:
            out += ['{'] + content(rng, depth - 1, None, kind) + ['}']
        elif p < .78 and depth:
            o = rng.choice('[(<')
            out += [o] + content(rng, depth - 1, PAIRS[o], kind) + [PAIRS[o]]
        elif p < .85:
            out.append(rng.choice('[](<)>') if close is None else rng.choice([x for x in '()<>[]' if x != close and PAIRS.get(x) != close]))
        elif p < .93:
            out.append(rng.choice(['\\qma', '\\qmf', '\\qme', '\\qmd']))
        else:
            out.append(rng.choice('XYZ'))
    return out


def ok_delim(ts, o, c):
    """does ts, between o and c, leave the delimiters balanced?"""
    d = b = 0
    for x in ts:
        if x == '{':
            b += 1
        elif x == '}':
            b -= 1
        elif b == 0 and x == o:
            d += 1
        elif b == 0 and x == c:
            d -= 1
            if d < 0:
                return False
    return d == 0


def blanks(rng, p=.25):
    return [' '] if rng.random() < p else []


def integer(rng, simple=False):
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        out += blanks(rng) + [rng.choice('+--')]
    out += blanks(rng)
    p = rng.random()
    if p < .35:
        out += list(str(rng.choice([0, 1, 7, 10, 42, 65, 255, 1000, rng.randint(0, 99999)])))
    elif p < .5:
        out += ["'"] + list('%o' % rng.randint(0, 4000))
    elif p < .65:
        out += ['"'] + list('%X' % rng.randint(0, 70000))
    elif p < .78:
        out += ['`'] + [rng.choice(list('aZ5+*[]') + ([] if simple else ['\\a', '\\%', '\\Z']))]
    elif p < .9:
        return out + [rng.choice(['\\qca', '\\qcb', '\\qda', '\\qdb', '\\qsa', '\\qsb'])]
    elif p < .95:
        out += ['\\qma'] + list(str(rng.randint(0, 99)))
    else:
        out += list(str(rng.randint(1, 99))) + ['\\qma']
    return out + blanks(rng, .3)


def word(rng, w):
    m = rng.random()
    return [c.upper() if m < .1 or (m < .2 and rng.random() < .5) else c for c in w]


def dimension(rng, fil=False, mu=False, nosign=False):
    out = []
    if not nosign:
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            out += blanks(rng) + [rng.choice('+--')]
        out += blanks(rng)
    p = rng.random()
    if p < .12 and not mu:
        return out + [rng.choice(['\\qda', '\\qdb', '\\qsa', '\\qsb'])]
    if p < .2:
        out += [rng.choice(['\\qca', '\\qcb'])]
    elif p < .26:
        out += ["'"] + list('%o' % rng.randint(0, 200)) if rng.random() < .5 else ['"'] + list('%X' % rng.randint(0, 200))
    elif p < .3:
        out += ['`', rng.choice('aZ5')]
    else:
        a = str(rng.choice([0, 1, 2, 3, 10, 72, 100, 200, rng.randint(0, 1100)])) if rng.random() < .85 else ''
        f = ''.join(rng.choice('0123456789') for _ in range(rng.randint(0, 5)))
        q = rng.random()
        if a and q < .35:
            out += list(a)
        else:
            out += list(a) + [rng.choice('...,')] + list(f)
        if rng.random() < .06:
            out += ['\\qma']
    out += blanks(rng)
    p = rng.random()
    if mu and not (fil and p < .4):
        return out + word(rng, 'mu') + blanks(rng, .3)
    if fil and p < .5:
        return out + word(rng, rng.choice(['fil', 'fill', 'filll'])) + blanks(rng, .3)
    if p < .12:
        return out + [rng.choice(['\\qda', '\\qdb', '\\qca', '\\qsa'])]
    if p < .24:
        return out + ['\\qmb'] + blanks(rng, .2)
    if p < .34:
        return out + word(rng, rng.choice(['em', 'ex'])) + blanks(rng, .3)
    if p < .5:
        out += word(rng, 'true') + blanks(rng)
    return out + word(rng, rng.choice(['pt', 'pc', 'in', 'bp', 'cm', 'mm', 'dd', 'cc', 'sp'])) + blanks(rng, .3)


def glue(rng, mu=False):
    if rng.random() < .08 and not mu:
        return ['\\qmc'] + blanks(rng)
    out = dimension(rng, mu=mu)
    if rng.random() < .65:
        out += blanks(rng) + word(rng, 'plus') + blanks(rng) + dimension(rng, True, mu)
    if rng.random() < .6:
        out += blanks(rng) + word(rng, 'minus') + blanks(rng) + dimension(rng, True, mu)
    return out


NEXT = ['', 'a', 'p', 'pl', 'plus', 'm', 'mi', 'min', 'pt', 'l', 'fil', 'E', 'e', 'em', '1', '.', ',', '[', '(', '*', '=', '\\relax', '\\qca', '\\qda', '\\qsa', '\\qma', '\\qmb', '\\qme', '{', '{a}', ' ', ' a', '  b', '`', "'", '"', '-', '+', '\\p', '\\l', '\\t',
        'truex', 'true', 'plu', 'minu', 'mu', 'x']


def follow(rng):
    s = rng.choice(NEXT)
    out = [s] if s.startswith('\\') else list(s)
    if rng.random() < .5:
        out += rng.choice([['z'], [' ', 'z'], ['\\relax'], ['9']])
    return out


def fix(ts):
    """balance the braces of what follows"""
    return ts + ['}'] * (ts.count('{') - ts.count('}'))


def numeric(rng, ty):
    if ty == 'Number':
        return integer(rng)
    if ty == 'Dimen':
        return dimension(rng)
    if ty == 'MuDimen':
        return dimension(rng, mu=True)
    return glue(rng, ty == 'MuGlue')


def element(rng, sub, avoid):
    if sub in ('int',):
        return integer(rng, True)
    if sub == 'float':
        return list(rng.choice(['1', '-2.5', '.5', '0', '12.25', '+3']))
    if sub == 'dimen':
        return dimension(rng)
    return blanks(rng, .2) + [x for x in content(rng, 1) if x not in avoid or rng.random() < .2] + blanks(rng, .2)


def argument(rng, a):
    t = a['t']
    if t in SCAN:
        return None
    if t in ('int', 'number', 'count'):
        return integer(rng, True)
    if t in ('float', 'double'):
        return list(rng.choice(['1', '-2.5', '.5', '0', '12.25', '+3', '--1.0625', '7.', ' 4', '3 ', ',5', '10,5']))
    if t in ('dimen', 'length', 'dimension'):
        return dimension(rng)
    if t == 'cs':
        return [rng.choice(['\\foo', '\\qma', '\\qca', '\\relax'])]
    if t in ('list', 'dict'):
        d = a['d'] or ','
        out = []
        for i in range(rng.randint(1, 4)):
            if i:
                out.append(d)
            e = element(rng, a.get('sub', ''), d)
            if t == 'dict':
                k = blanks(rng, .2) + ['k', 'abcdefg'[i]] + blanks(rng, .2)
                p = rng.random()
                e = k + (['='] + ([] if a.get('sub') else blanks(rng)) + ([x for x in e if x != '=' or rng.random() < .3] if rng.random() < .8 or a.get('sub') else ['{'] + content(rng, 1) + ['}']) if p < .75 else [])
            elif not a.get('sub') and rng.random() < .2:
                e = ['{'] + content(rng, 1) + ['}']
            out += e
        if t == 'dict' and rng.random() < .15:
            out.append(d)
        return out
    if t == 'nox':
        return content(rng, 2) + rng.choice([[], ['\\relax'], ['\\qca']])
    return content(rng, 2)


TYPES = ['', '', '', 'str', 'str', 'nox', 'int', 'number', 'float', 'double', 'dimen', 'length', 'list', 'list', 'dict', 'dict']


def signature(rng):
    sig = []
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
    if rng.random() < .3:
        sig.append({'k': 'mod', 'c': rng.choice('***+-=')})
    while len(sig) < n:
        t = rng.choice(TYPES)
        a = {'t': t, 'd': '', 'sub': ''}
        if t in ('list', 'dict'):
            a['d'] = rng.choice(['', '', ';', ','])
            a['sub'] = rng.choice(['', '', 'str', 'int', 'float', 'dimen']) if a['d'] or rng.random() < .4 else ''
        if rng.random() < .45:
            o = rng.choice('[[[(<')
            a.update(k='opt', o=o, c=PAIRS[o])
            if t in ('int', 'float', 'dimen', 'list', 'dict') and o == '<':
                pass
        else:
            a['k'] = 'man'
            if rng.random() < .22:
                a['t'] = rng.choice(SCAN + ['Tok', 'XTok', 'cs'])
                a['d'] = a['sub'] = ''
        sig.append(a)
        if rng.random() < .04 and len(sig) < n and all(x['k'] != 'mod' for x in sig):
            sig.append({'k': 'mod', 'c': '='})
    return sig


def invocation(rng, sig):
    out = []
    for a in sig:
        gap = blanks(rng, .15)
        if a['k'] == 'mod':
            out += (gap + [a['c']]) if rng.random() < .5 else []
        elif a['k'] == 'opt':
            if rng.random() < .6:
                for _ in range(20):
                    c = argument(rng, a)
                    if ok_delim(c, a['o'], a['c']):
                        break
                else:
                    c = ['{'] + c + ['}'] if a['t'] in ('', 'str') else ['1']
                out += gap + [a['o']] + c + [a['c']]
        elif a['t'] in SCAN:
            out += gap + numeric(rng, a['t'])
        elif a['t'] == 'Tok':
            out += gap + [rng.choice(['a', '\\foo', '*', '7', '\\qca', '[', '\\qma'])]
        elif a['t'] == 'XTok':
            out += gap + rng.choice([['a'], ['\\qma'], ['{', 'b', '}'], ['{', '\\qma', '}'], ['5']])
        elif a['t'] == 'cs' or (a['t'] in ('', 'str', 'nox', 'list', 'int', 'float') and rng.random() < .15):
            out += gap + (argument(rng, a) if a['t'] == 'cs' and rng.random() < .5 else ['{'] + argument(rng, a) + ['}'] if a['t'] == 'cs'
                          else [rng.choice(['a', 'b', '7', '\\qma'] if a['t'] not in ('int', 'float') else ['3', '\\qma', '0'])])
        else:
            out += gap + ['{'] + argument(rng, a) + ['}']
    return out


def textable(toks):
    """can the tokens be written as text that is read back as the same tokens?"""
    if toks[:1] == [' ']:
        return False
    for a, b in zip(toks, toks[1:]):
        if b == ' ' and (a == ' ' or a[0] == '\\'):
            return False
    return all(x[0] != '\\' or x[1:].isalpha() for x in toks) and '%' not in toks and (not toks or toks[-1] != ' ')


def rand_case(rng):
    if rng.random() < .4:
        ty = rng.choice(SCAN)
        how = 'assign' if ty in ('Number', 'Dimen', 'Glue') and rng.random() < .3 else 'read'
        return {'sig': [{'k': 'man', 't': ty, 'd': '', 'sub': ''}], 'toks': fix(numeric(rng, ty) + follow(rng)), 'how': how, 'eq': rng.random() < .8, 'style': 0}
    sig = signature(rng)
    toks = fix(invocation(rng, sig) + follow(rng))
    how = 'text' if textable(toks) and rng.random() < .5 else 'sig'
    return {'sig': sig, 'toks': toks, 'how': how, 'style': rng.randint(0, 1)}


def observe_many(cases):
    return [observe(c) for c in cases]


def trace(c, o):
    return {'sig': c['sig'], 'toks': c['toks'], 'obs': o}


def corrupt(rng, t):
    t = json.loads(json.dumps(t))
    o = t['obs']
    x = rng.randrange(3)
    if x == 0:
        o['r'] = o['r'] + ['z'] if rng.random() < .5 or not o['r'] else o['r'][1:]
    elif x == 1:
        o['b'] = o['b'][:-1]
    else:
        i = rng.randrange(len(o['b']))
        v = o['b'][i]
        o['b'][i] = {'nil': {'k': 'text', 's': []}, 'int': dict(v, v=v.get('v', 0) and 2 * v['v'] or 5)}.get(v['k'], {'k': 'nil'})
    return t


def describe(c):
    return '%s | %s' % (sigstring(c['sig'], c.get('style', 0)) if c['how'] in ('sig', 'text') else c['how'] + ' ' + c['sig'][0]['t'], ''.join(c['toks']))


def run(ck):
    rng = ck.rng
    fn = os.path.join(ck.work, 'gen.json')
    ck.model('MC_Args', 'MC_Args1.cfg' if ck.thorough else 'MC_Args0.cfg', env={'OUT': fn}, timeout=850, expect_states=100000)
    gen = json.load(open(fn))
    cases = []
    for g in gen if ck.thorough else rng.sample(gen, 12000):
        for a in g['sig']:
            if a['k'] == 'mod':
                a['t'] = ''
        scan = g['sig'][0].get('t') in SCAN
        cases.append(dict(g, how='read' if scan else 'text' if textable(g['toks']) and rng.random() < .3 else 'sig', style=rng.randint(0, 1)))
    nm = len(cases)
    cases += [rand_case(rng) for _ in range(120000 if ck.thorough else 12000)]
    groups = [cases[i:i + 100] for i in range(0, len(cases), 100)]
    res = pool.run(observe_many, groups, timeout=120, chunk=4)
    traces = []
    for g, r in zip(groups, res):
        if not isinstance(r, list):         # the process died: one case at a time
            r = pool.run(observe, g, timeout=20, chunk=5)
        for c, o in zip(g, r):
            if 'b' not in o:
                o = {'b': [{'k': 'no answer ' + str(o)[:80]}] * len(c['sig']), 'r': [], 'lvl': 0}
            traces.append(trace(c, o))
    vs = ck.validate('ArgsTrace', traces, batch=min(4000, len(traces) // 8 + 1), parallel=8, timeout=800)
    good, skipped = [], 0
    for c, t, v in zip(cases, traces, vs):
        if v[0] == 'skip':
            skipped += 1
        elif v[0] != 'ok':
            ck.violation(describe(c), v[1], {'case': c, 'observed': t['obs'], 'verdict': v[1]})
        else:
            good.append(t)
    if skipped > len(cases) // 8:
        raise RuntimeError('%d of %d cases are outside the specification' % (skipped, len(cases)))
    ck.selftest(ck.validate('ArgsTrace', [corrupt(rng, t) for t in rng.sample(good, 80)], count=False))
    ck.cov['traces_validated_against_impl'] += len(traces) - skipped
    ck.cov['cases_from_model'] = nm
    ck.cov['cases_outside_the_specification'] = skipped
    ck.cov['signatures'] = len({sigstring(c['sig'], 0) for c in cases})
    ck.cov['longest_input_tokens'] = max(len(c['toks']) for c in cases)
    ck.sample(traces[0])
    ck.sample(traces[-1])
    ck.assumptions += ['an integer constant followed by a register is multiplied by it, as the unit tests demand (TeX leaves the register alone)',
                       'dimensions are compared up to the rounding of the fraction that TeX makes (at most 38sp for inches, 1sp for whole numbers of units); em is 11pt and ex 5pt',
                       'text arguments are compared as text: braces and outer blanks do not count']
