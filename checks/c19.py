"""C19: ifthen tests evaluate as IfThen.tla says."""
import json, os
from fractions import Fraction
from vf import pool

RATIO = {'in': Fraction(7227, 100), 'pc': 12, 'cm': Fraction(7227, 254), 'mm': Fraction(7227, 2540), 'bp': Fraction(7227, 7200),
         'dd': Fraction(1238, 1157), 'cc': Fraction(14856, 1157), 'pt': 1, 'sp': Fraction(1, 65536)}
# equal lengths, in TeX's arithmetic too
SAME = [[(1, '', 'cm'), (10, '', 'mm')], [(1, '', 'pc'), (12, '', 'pt')], [(2, '', 'cm'), (20, '', 'mm')], [(3, '25', 'cm'), (32, '5', 'mm')],
        [(1, '5', 'pc'), (18, '', 'pt')], [(1, '', 'pt'), (65536, '', 'sp')], [(0, '', 'cm'), (0, '', 'pt')], [(0, '75', 'in'), (54, '', 'bp')],
        [(0, '5', 'cm'), (5, '', 'mm')], [(1, '50', 'pt'), (1, '5', 'pt')], [(1, '', 'cc'), (12, '', 'dd')], [(4, '', 'cm'), (40, '', 'mm')],
        [(0, '5', 'pt'), (32768, '', 'sp')], [(3, '', 'in'), (216, '', 'bp')], [(2, '75', 'cm'), (27, '5', 'mm')], [(0, '25', 'cc'), (3, '', 'dd')]]
LENS = [(0, '', 'pt'), (1, '', 'pt'), (1, '5', 'pt'), (2, '', 'cm'), (20, '', 'mm'), (1, '', 'in'), (3, '25', 'pc'), (100, '', 'bp'), (7, '', 'dd'),
        (2, '75', 'cc'), (65536, '', 'sp'), (30, '', 'pt'), (3, '3', 'cm'), (33, '', 'mm'), (12, '', 'pt'), (1, '', 'pc')]


def dval(env, e):
    if e['k'] == 'dlit':
        x = (e['v'] + Fraction(int(''.join(map(str, e['f'])) or '0'), 10 ** len(e['f']))) * RATIO[e['u']] * 65536
    else:
        x = e['v'] * env['dim'][e['n']]
    return x * e['s']


class Gen:
    """random programs; `env` tracks which names exist, not their values"""

    def __init__(self, rng):
        self.rng = rng
        self.cnt = ['ca', 'cb', 'i', 'depth']
        self.num = {'ma': 12, 'mb': -3, 'mz': 0}
        self.txt = {'ta': 'abc', 'tb': 'x y', 'te': ''}
        self.bools = ['ba', 'bb', 'b', 'done', 'zz']
        self.reg = ['ra', 'rb']
        self.dim = {'la': (2, '', 'cm'), 'lb': (15, '5', 'pt')}
        self.env = {'cnt': {c: rng.choice([0, 1, 2, 3, 7, -4]) for c in self.cnt},
                    'bool': {b: rng.random() < .5 for b in self.bools},
                    'mac': {k: {'num': v, 's': str(v)} for k, v in self.num.items()} | {k: {'num': 0, 's': v} for k, v in self.txt.items()},
                    'reg': {r: rng.choice([0, 5, 12, -3]) for r in self.reg},
                    'dim': {}}
        for k, d in self.dim.items():
            # exact in TeX's arithmetic: Scaled rounds down
            self.env['dim'][k] = int(dval(self.env, self.dl(d)))
        self.macs = dict(self.num)
        self.w = 0

    def dl(self, d, s=1):
        return {'k': 'dlit', 's': s, 'v': d[0], 'f': [int(c) for c in d[1]], 'u': d[2], 'n': ''}

    def word(self):
        self.w += 1
        return {'k': 'w', 't': 'w%d' % self.w}

    def n(self):
        r = self.rng
        k = r.choice(['lit', 'lit', 'val', 'val', 'reg', 'mac'])
        s = r.choice([1, 1, 1, 1, -1])
        if k == 'lit':
            return {'k': k, 's': s, 'v': r.choice([0, 1, 2, 3, 4, 7, 12, 13, 255, 100000]), 'n': '', 'p': r.choice(['d', 'd', 'd', '0', 'h', 'o', 'c', 'pp'])}
        return {'k': k, 's': s, 'v': 0, 'n': r.choice({'val': self.cnt, 'reg': self.reg, 'mac': list(self.num)}[k]), 'p': 'd'}

    def d(self):
        r = self.rng
        s = r.choice([1, 1, 1, -1])
        if r.random() < .3:
            return {'k': 'dreg', 's': s, 'v': r.choice([1, 1, 1, 2, 3]), 'f': [], 'u': '', 'n': r.choice(list(self.dim))}
        return self.dl(r.choice(LENS), s)

    def text(self):
        r = self.rng
        ps = []
        for _ in range(r.choice([1, 1, 1, 2, 0])):
            k = r.choice(['str', 'str', 'mac', 'cnt'])
            if k == 'str':
                ps.append({'k': k, 't': r.choice(['abc', 'a', '12', 'x y', '3', 'b c', 'true', '1<2', '\\emph{a}', '\\textbf{a}', 'a$x$', "it's"]), 'n': ''})
            else:
                ps.append({'k': k, 't': '', 'n': r.choice(list(self.txt) + list(self.num) if k == 'mac' else self.cnt)})
        return ps

    def atom(self):
        r = self.rng
        k = r.choice(['num', 'num', 'num', 'num', 'len', 'len', 'odd', 'equal', 'equal', 'undef', 'bool', 'bool'])
        rel = r.choice('<>=')
        if k == 'num':
            a, b = self.n(), self.n()
            if r.random() < .2:
                b = dict(a)
            return {'k': k, 'a': a, 'r': rel, 'b': b}
        if k == 'len':
            if r.random() < .3:
                a, b = [self.dl(d) for d in r.choice(SAME)]
                if r.random() < .5:
                    a, b = b, a
                return {'k': k, 'a': a, 'r': rel, 'b': b}
            while True:
                a, b = self.d(), self.d()
                if a == b and a['k'] == 'dlit':
                    break
                # the registers are set once in these programs, to lengths TeX
                # rounds by less than a scaled point
                if abs(dval(self.env, a) - dval(self.env, b)) > 20:
                    break
            return {'k': k, 'a': a, 'r': rel, 'b': b}
        if k == 'odd':
            return {'k': k, 'a': self.n()}
        if k == 'equal':
            a = self.text()
            b = [dict(x) for x in a] if r.random() < .3 else self.text()
            return {'k': k, 'a': a, 'b': b}
        if k == 'undef':
            n, prim = r.choice([('ma', False), ('ta', False), ('nonesuch', False), ('section', True), ('relax', True), ('later', False), ('nope', False)])
            return {'k': k, 'n': n, 'prim': prim}
        return {'k': 'bool', 'n': r.choice(self.bools + ['true', 'false'])}

    def fill(self, shape):
        return [self.atom() if k == 'v' else {'k': k} for k in shape]

    def simple(self):
        r = self.rng
        k = r.choice(['setc', 'addc', 'stepc', 'setb', 'setb', 'def', 'setr', 'w', 'show'])
        if k in ('setc', 'addc'):
            return {'k': k, 'n': r.choice(['ca', 'cb']), 'e': self.small()}
        if k == 'stepc':
            return {'k': k, 'n': r.choice(['ca', 'cb'])}
        if k == 'setr':
            return {'k': k, 'n': r.choice(self.reg), 'e': self.small()}
        if k == 'setb':
            return {'k': k, 'n': r.choice(self.bools), 'b': r.random() < .5}
        if k == 'def':
            n = r.choice(list(self.num) + list(self.txt) + ['later'])
            v = r.choice([0, 1, 2, 3, 9, 12, -5])
            return {'k': k, 'n': n, 'd': {'num': v, 's': str(v)} if n in self.num else {'num': 0, 's': r.choice(['abc', 'q', 'x y', ''])}}
        if k == 'show':
            # shown text is one word
            return {'k': k, 'a': [{'k': 'cnt', 't': '', 'n': r.choice(self.cnt)}] + [{'k': 'mac', 't': '', 'n': r.choice(list(self.num))} for _ in range(r.randrange(2))]}
        return self.word()

    def small(self):
        e = self.n()
        if e['k'] == 'lit' and e['v'] > 300:
            e['v'] = 5
        if e['k'] == 'val' and self.rng.random() < .7:
            e['n'] = self.rng.choice(['ca', 'cb'])
        return e

    def block(self, depth, shapes, inloop=0):
        return [self.stmt(depth, shapes, inloop) for _ in range(self.rng.choice([1, 1, 2, 3]))]

    def stmt(self, depth, shapes, inloop=0):
        r = self.rng
        x = r.random()
        if depth == 0 or x < .35:
            return self.simple()
        if x < .45:
            return {'k': 'grp', 'body': self.block(depth - 1, shapes, inloop)}
        if x < .8 or inloop > 1:
            return {'k': 'ite', 'test': self.fill(r.choice(shapes)), 'then': self.block(depth - 1, shapes, inloop) if r.random() < .9 else [],
                    'els': self.block(depth - 1, shapes, inloop) if r.random() < .8 else [], 'p': r.choice(['plain', 'plain', 'mac', 'arg'])}
        return self.loop(depth, shapes, inloop)

    def loop(self, depth, shapes, inloop):
        """a loop over its own counter, whose test may be any expression that
        becomes false no later than the bound"""
        r = self.rng
        c = ['i', 'depth'][inloop]
        hi = r.choice([0, 1, 2, 3, 5])
        bound = {'k': 'num', 'a': {'k': 'val', 's': 1, 'v': 0, 'n': c, 'p': 'd'}, 'r': '<', 'b': {'k': 'lit', 's': 1, 'v': hi, 'n': '', 'p': 'd'}}
        x = r.random()
        if x < .4:
            test = [bound]
        elif x < .6:
            test = [{'k': 'not'}, {'k': 'not'}, bound]
        elif x < .8:
            test = [bound, {'k': 'and'}, {'k': '('}] + self.fill(r.choice(shapes)) + [{'k': ')'}]
        else:
            test = self.fill(r.choice(shapes)) + [{'k': 'and'}, bound]
        body = self.block(depth - 1, shapes, inloop + 1)
        body.insert(r.randrange(len(body) + 1), {'k': 'stepc', 'n': c})
        body.insert(0, self.word())
        return {'k': 'grp', 'body': [{'k': 'setc', 'n': c, 'e': {'k': 'lit', 's': 1, 'v': r.choice([0, 0, 1, -1]), 'n': '', 'p': 'd'}},
                                     {'k': 'while', 'test': test, 'body': body}]}


# ---- writing the program -----------------------------------------------------
def pnum(e):
    s = '-' if e['s'] < 0 else ''
    if e['k'] == 'lit':
        v = e['v']
        p = e['p']
        if p == 'c' and 48 <= v < 127 and chr(v).isalnum():
            return s + '`' + chr(v) + ' '
        return s + {'0': '00%d' % v, 'h': '"%X' % v, 'o': "'%o" % v, 'pp': '+%d' % v}.get(p, str(v))
    return s + {'val': '\\value{%s}', 'reg': '\\%s ', 'mac': '\\%s'}[e['k']] % e['n']


def pdim(e):
    s = '-' if e['s'] < 0 else ''
    if e['k'] == 'dlit':
        f = ''.join(map(str, e['f']))
        return s + str(e['v']) + ('.' + f if f else '') + e['u']
    return s + (str(e['v']) if e['v'] != 1 else '') + '\\' + e['n'] + ' '


def ptext(ps):
    return ''.join({'str': p['t'], 'mac': '\\%s ' % p['n'], 'cnt': '\\arabic{%s}' % p['n']}[p['k']] for p in ps)


def ptest(rng, ts):
    out = ''
    for t in ts:
        k = t['k']
        sp = rng.choice(['', ' '])
        if k == 'num':
            a = pnum(t['a'])
            x = a + sp + t['r'] + rng.choice(['', ' ']) + pnum(t['b'])
            if t['b']['k'] != 'val':
                x += ' '
        elif k == 'len':
            x = '\\lengthtest{%s%s%s%s%s}' % (pdim(t['a']), sp, t['r'], rng.choice(['', ' ']), pdim(t['b']))
        elif k == 'odd':
            x = '\\isodd{%s}' % pnum(t['a'])
        elif k == 'equal':
            x = '\\equal{%s}{%s}' % (ptext(t['a']), ptext(t['b']))
        elif k == 'undef':
            x = '\\isundefined{\\%s}' % t['n']
        elif k == 'bool':
            x = '\\boolean{%s}' % t['n']
        elif k in '()':
            x = '\\' + k
        else:
            x = '\\' + (k.upper() if rng.random() < .2 else k) + ' '
        out += x + sp
    return out


def pblock(rng, b):
    return ''.join(pstmt(rng, s) for s in b)


def pstmt(rng, s):
    k = s['k']
    if k == 'w':
        return s['t'] + ' '
    if k == 'show':
        return ptext(s['a']) + '{} '
    if k in ('setc', 'addc'):
        return '\\%s{%s}{%s}' % ('setcounter' if k == 'setc' else 'addtocounter', s['n'], pnum(s['e']))
    if k == 'stepc':
        return '\\stepcounter{%s}' % s['n']
    if k == 'setr':
        return '\\%s=%s\\relax ' % (s['n'], pnum(s['e']))
    if k == 'setd':
        return '\\%s=%s\\relax ' % (s['n'], pdim(s['e']))
    if k == 'setb':
        if s['n'] == 'zz' and rng.random() < .5:
            return '\\zz%s ' % str(s['b']).lower()
        return '\\setboolean{%s}{%s}' % (s['n'], str(s['b']).lower())
    if k == 'def':
        return '\\%s\\%s{%s}' % ('renewcommand' if s['n'] != 'later' else 'def', s['n'], s['d']['s'])
    if k == 'grp':
        return '{' + pblock(rng, s['body']) + '}'
    if k == 'ite':
        t, a, b = ptest(rng, s['test']), pblock(rng, s['then']), pblock(rng, s['els'])
        if s['p'] == 'mac':
            return '\\TST{%s}{%s}{%s}' % (t, a, b)
        if s['p'] == 'arg':
            return '\\IDN{\\ifthenelse{%s}{%s}{%s}}' % (t, a, b)
        return '\\ifthenelse{%s}{%s}{%s}' % (t, a, b)
    return '\\whiledo{%s}{%s}' % (ptest(rng, s['test']), pblock(rng, s['body']))


def source(rng, case):
    e = case['env']
    out = '\\documentclass{article}\n\\usepackage{ifthen}\n'
    for c, v in e['cnt'].items():
        out += '\\newcounter{%s}\\setcounter{%s}{%d}' % (c, c, v)
    for b, v in e['bool'].items():
        out += ('\\newif\\ifzz' if b == 'zz' else '\\%sboolean{%s}' % (rng.choice(['new', 'provide']), b)) + '\\setboolean{%s}{%s}\n' % (b, str(v).lower())
    for m, d in e['mac'].items():
        out += '\\newcommand\\%s{%s}' % (m, d['s'])
    for r, v in e['reg'].items():
        out += '\\newcount\\%s \\%s=%d\\relax\n' % (r, r, v)
    for r in e['dim']:
        out += '\\newlength{\\%s}\n' % r
    out += '\\newcommand\\TST[3]{\\ifthenelse{#1}{#2}{#3}}\\newcommand\\IDN[1]{#1}\n'
    return out + '\\begin{document}\n' + pblock(rng, case['prog']) + '\\(m\\)\n\\end{document}'


def observe(case):
    from plasTeX.TeX import TeX
    t = TeX()
    t.input(case['src'])
    doc = t.parse()
    words = doc.getElementsByTagName('document')[0].textContent.split()
    # the closing formula is one again, and is not part of the program
    ms = doc.getElementsByTagName('math')
    if len(ms) != 1 or ms[0].textContent != 'm' or words[-1:] != ['m']:
        return words + ['<no closing formula>']
    return words[:-1]


def make(rng, prog, g):
    pre = [{'k': 'setd', 'n': n, 'e': g.dl(d)} for n, d in g.dim.items()]
    case = {'env': g.env, 'prog': pre + prog}
    case['src'] = source(rng, case)
    return case


def trace(c, r):
    if isinstance(r, dict):
        r = ['<%s>' % r['exc']]
    return {'env': c['env'], 'prog': c['prog'], 'obs': r}


def run(ck):
    fn = os.path.join(ck.work, 'gen.json')
    ck.model('MC_IfThen', 'MC_IfThen1.cfg' if ck.thorough else 'MC_IfThen0.cfg', env={'OUT': fn}, timeout=600, expect_states=10000)
    shapes = json.load(open(fn))
    shapes.sort(key=lambda s: (len(s), s))
    rng = ck.rng
    cases = []
    # every shape of expression, with atoms of every kind
    rounds = 12 if ck.thorough else 4
    for r in range(rounds):
        for b in range(0, len(shapes), 10):
            g = Gen(rng)
            prog = []
            for s in shapes[b:b + 10]:
                prog += [{'k': 'ite', 'test': g.fill(s), 'then': [g.word()], 'els': [g.word()], 'p': rng.choice(['plain', 'mac', 'arg'])}]
                if rng.random() < .3:
                    prog.append(g.simple())
            cases.append(make(rng, prog, g))
    # whole programs
    small = [s for s in shapes if len(s) <= 7]
    for _ in range(1500 if ck.thorough else 250):
        g = Gen(rng)
        prog = [g.stmt(3, small) for _ in range(rng.randrange(3, 9))]
        cases.append(make(rng, prog, g))
    res = pool.run(observe, cases, timeout=20)
    traces = [trace(c, r) for c, r in zip(cases, res)]
    vs = ck.validate('IfThenTrace', traces, batch=max(30, len(traces) // 8 + 1), parallel=8, timeout=600)
    good = []
    for c, t, v in zip(cases, traces, vs):
        if v[0] != 'ok':
            ck.violation(c['src'], 'program gives other words: %s' % v[1], {'source': c['src'], 'observed': t['obs'], 'verdict': v[1]})
        else:
            good.append(t)
    bad = []
    for t in good[:: max(1, len(good) // 30)]:
        if not t['obs']:
            continue
        o = list(t['obs'])
        i = rng.randrange(len(o))
        kind = rng.randrange(3)
        if kind == 0:
            del o[i]
        elif kind == 1:
            o.insert(i, 'zzz')
        else:
            o[i] += 'x'
        bad.append(dict(t, obs=o))
    ck.selftest(ck.validate('IfThenTrace', bad, count=False))
    ck.cov['traces_validated_against_impl'] += len(traces)
    ck.cov['expression_shapes'] = len(shapes)
    ck.cov['tests_evaluated'] = sum(len(str(c['prog']).split("'test'")) - 1 for c in cases)
    ck.sample({'source': cases[0]['src'], 'words': res[0]})
    ck.sample({'source': cases[-1]['src'], 'words': res[-1]})
    ck.assumptions += [
        'lengths compared in a test are equal both exactly and in TeX, or differ by more than 20sp (plasTeX keeps lengths as floats)',
        'length registers are set by assignment: \\setlength and \\addtolength are stubs in plasTeX']
