"""C11: verbatim material (Verbatim.tla) and the source of formulas (MathSrc.tla)."""
import itertools, json, os, re
from html.parser import HTMLParser
from vf import pool, conform, render

TRACE = 'MathTrace'
MATH = {'math', 'displaymath', 'equation', 'equation*', 'eqnarray', 'eqnarray*', 'align', 'align*', 'gather', 'gather*', 'flalign*', 'multline*'}


def char(c):
    return c if ord(c) < 128 else 'U+%04X' % ord(c)


def chars(s):
    return [char(c) for c in s]


# --- observation -------------------------------------------------------------------------------
class Page(HTMLParser):
    """text of the body; verbatim elements and displayed formulas apart"""
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.verb, self.forms, self.stack, self.text, self.skip = [], [], [], '', 0

    def handle_starttag(self, tag, attrs):
        if tag in ('meta', 'link', 'br', 'img', 'hr', 'input'):
            return
        cls = dict(attrs).get('class') or ''
        k = 'v' if tag in ('pre', 'code') and cls == 'verbatim' else 'd' if cls in ('displaymath', 'equation_content') else 's' if tag in ('script', 'style', 'head', 'nav') else ''
        if k in ('v', 'd'):
            (self.verb if k == 'v' else self.forms).append('')
        self.stack.append((tag, k))

    def handle_endtag(self, tag):
        while self.stack and self.stack[-1][0] != tag:
            self.stack.pop()
        if self.stack:
            self.stack.pop()

    def handle_data(self, data):
        ks = [k for _, k in self.stack if k]
        if 's' in ks:
            return
        if 'v' in ks:
            self.verb[-1] += data
        elif 'd' in ks:
            self.forms[-1] += data
        else:
            for m in re.finditer(r'\\\((?:[^\\]|\\(?!\)).)*?\\\)|\\.', data, re.S):
                if m.group(0).startswith('\\('):
                    self.forms.append(m.group(0))


def page(src):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='c11')
    try:
        p = os.path.join(d, 'a.tex')
        open(p, 'w').write(src)
        out = os.path.join(d, 'out')
        os.mkdir(out)
        render.run(p, out, render.config('HTML5', files__split_level=-10))
        ps = render.html_files(out)
        pg = Page()
        for n in sorted(ps):
            pg.feed(ps[n])
        return pg
    finally:
        shutil.rmtree(d)


def observe(case):
    from plasTeX.TeX import TeX
    from plasTeX.DOM import Node
    t = TeX()
    t.input(case['src'])
    doc = t.parse()
    pg = page(case['src']) if case['html'] else None
    if case['kind'] == 'verb':
        items, buf = [], []

        def flush():
            for w in re.split('[ \n\t]+', ''.join(buf)):
                if w:
                    items.append(['w', chars(w)])
            del buf[:]

        def walk(n):
            if n.nodeType == Node.TEXT_NODE:
                buf.append(str(n))
                return
            s = getattr(n, 'str', None)
            if s is not None and not n.attributes:
                buf.append(str(s))
                return
            flush()
            if n.nodeName in ('verb', 'verbatim', 'verbatim*'):
                items.append([n.nodeName, chars(n.textContent)])
                return
            for c in n.childNodes:
                walk(c)
            flush()
        walk([n for n in doc.childNodes if n.nodeName == 'document'][0])
        if pg:
            mine = [i for i in items if i[0] in ('verb', 'verbatim')]
            if len(mine) != len(pg.verb):
                items.append(['number of verbatim elements on the page', []])
            for i, x in zip(mine, pg.verb):
                i[1] = chars(x)
        return {'items': items}
    forms = []

    def find(n):
        if n.nodeType not in (Node.ELEMENT_NODE, Node.DOCUMENT_FRAGMENT_NODE, Node.DOCUMENT_NODE):
            return
        if n.nodeType == Node.ELEMENT_NODE and n.nodeName in MATH:
            forms.append([n.source, n.mathjax_source])
            return
        s = None
        if n.nodeType == Node.ELEMENT_NODE and n.attributes:
            s = n.attributes.get('self')
            for k, v in n.attributes.items():
                if k not in ('self', 'toc'):
                    for x in v if isinstance(v, (list, tuple)) else [v]:
                        if isinstance(x, Node):
                            find(x)
        for c in n.childNodes:
            find(c)
    find([n for n in doc.childNodes if n.nodeName == 'document'][0])
    html = [[] for _ in forms]
    if pg:
        if len(pg.forms) == len(forms):
            html = [chars(x) for x in pg.forms]
        else:
            forms.append(['number of formulas on the page', ''])
            html.append([])
    return {'forms': [[chars(a), chars(b), h] for (a, b), h in zip(forms, html)]}


def mktrace(case, res):
    res = res or {}
    if case['kind'] == 'verb':
        return {'kind': 'verb', 'src': case['body'], 'items': res.get('items', [['none: ' + str(res)[:200], []]])}
    fs = res.get('forms', [])
    return {'kind': 'math', 'macros': case['macros'], 'nforms': len(case['forms']) if 'forms' in res else -1,
            'forms': [dict(f, node=a, jax=b, html=h) for f, (a, b, h) in zip(case['forms'], fs)] + [0] * max(0, len(fs) - len(case['forms']))}


# --- verbatim documents ----------------------------------------------------------------------------
PRINT = ''.join(chr(i) for i in range(32, 127))
PIECES = ['\\end', '\\end{', '\\end{verbatim', '\\end{verbatim*}', '\\end{verbatimx}', '\\endverbatim', '\\begin{verbatim}', '\\verb|a|', '^^41', '^^M', '^^', '--', '---', "``", "''", '%', '% c\n', '\\\\', '\n\n',
          '  ', '   \n', '\t', '$x$', '{', '}', '\\', '&amp;', '<b>', '#1', '~', '\\par', '\\end {verbatim}', '\\END{verbatim}', 'end{verbatim}', '\\end{verbati', '\\end{{verbatim}', '\n']


def vbody(rng, n, name):
    b = ''
    for _ in range(rng.randint(0, n)):
        b += rng.choice(PIECES) if rng.random() < .4 else rng.choice(PRINT + '\n\n\n')
    if name:
        end = '\\end{%s}' % name
        b = b.replace(end, '')
        while (b + end).find(end) != len(b):
            b = b[:-1] + 'x' if b else b
    else:
        b = b.replace('\n', '')
    return b


WORDS = ['a', 'bc', 'x--y', "it's", '``q\'\'', '\\%', '\\{x\\}', '7', 'z', '%c \\verb|x|\n', '\\textbf{d}', '\\emph{e f}', '--', '-', 'a---b', "d'"]


def vtext(rng):
    return ''.join(rng.choice(WORDS) + rng.choice([' ', '\n', ' ', '  ']) for _ in range(rng.randint(0, 3)))


def spell_verb(rng, body=None, n=30, env=None):
    """one verbatim environment or \\verb with that body"""
    if env is None:
        env = rng.choice(['verbatim', 'verbatim', 'verbatim*', '', '', '*'])
    if env in ('', '*'):
        b = vbody(rng, n, '') if body is None else body
        ok = [c for c in PRINT if c not in b and c not in '* ' and not c.isalpha()]
        if '}' in b and '{' in ok:
            ok.remove('{')
        if not b and '^' in ok:                             # TeX, too, reads \\verb^^x as \\verb and the character ^^x
            ok.remove('^')
        if '\n' in b or not ok:
            return ''
        c = rng.choice(ok)
        return '\\verb' + env + c + b + ('}' if c == '{' else c)
    b = vbody(rng, n, env) if body is None else body
    return '\\begin{%s}%s\\end{%s}' % (env, b, env)


def verb_case(rng, bodies=None, size=30, html=None):
    out = ''
    for b in bodies if bodies is not None else [None] * rng.randint(1, 5):
        out += vtext(rng) + rng.choice(['', '', '\n\n', '\n', ' '])
        s = spell_verb(rng, b, size)
        p = rng.random()
        if p < .1:
            s = '\\begin{quote}' + s + '\\end{quote}'
        elif p < .2:
            s = '\\begin{itemize}\\item ' + vtext(rng) + s + '\\item ' + vtext(rng) + '\\end{itemize}'
        elif p < .3 and s.startswith('\\verb'):
            s = '\\begin{tabular}{l}' + s + '&' + vtext(rng) + '\\end{tabular}'
        elif p < .4:
            s = '{' + s + '}'
        out += s
    out += '\n' + vtext(rng) + '\n'
    if html is None:
        html = rng.random() < .08
    return {'kind': 'verb', 'html': html, 'body': chars(out), 'src': '\\documentclass{article}\\begin{document}' + out + '\\end{document}'}


# --- formulas ----------------------------------------------------------------------------------
SYMS = ['alpha', 'beta', 'Gamma', 'infty', 'partial', 'ell', 'le', 'in', 'to', 'cdot', 'times', 'sum', 'int', 'ldots', 'cdots', 'quad', 'sin', 'log', 'foo', 'neq', 'forall', 'rightarrow', 'nabla', 'max', 'colon', 'mid', 'prime']
ARRAYS = ['cases', 'pmatrix', 'matrix', 'bmatrix', 'vmatrix', 'aligned', 'split', 'smallmatrix', 'Bmatrix', 'Vmatrix', 'gathered']


class Formula:
    def __init__(self, rng, macros=()):
        self.rng, self.macros, self.par = rng, macros, 0

    def join(self, a, b):
        return a + (' ' if re.search(r'\\[A-Za-z]+$', a) and b[:1].isalpha() else '') + b

    def glue(self, l):
        out = ''
        for x in l:
            if self.rng.random() < .25:
                out += self.rng.choice([' ', '  ', '\n', ' %c $ }\n'])
            out = self.join(out, x)
        return out

    def atom(self):
        r, p = self.rng, self.rng.random()
        if self.par and p < .2:
            return '#%d' % r.randint(1, self.par)
        if p < .45:
            return r.choice('abcxyzijkn0123456789ABN')
        if p < .6:
            return r.choice(['+', '-', '=', '<', '>', '(', ')', '[x]', ',', '.', ';', ':', '!', '/', '|', '*', "'", '?', '`', '--', "''", '---', '~', '@'])
        if p < .9:
            return '\\' + r.choice(SYMS) + r.choice(['', ' ', '{}'])
        return r.choice(['\\,', '\\;', '\\!', '\\:', '\\ ', '\\{', '\\}', '\\|', '\\%', '\\&', '\\#', '\\$', '\\_', '\\-'])

    def simple(self):
        return self.rng.choice(['a', 'b', '1', '2', 'n', '\\alpha', '\\beta'])

    def arg(self, d):
        if self.rng.random() < .3:
            return self.simple()
        return '{' + self.f(d - 1) + '}'

    def cmd(self, c, d, n=1, opt=''):
        out = '\\' + c + opt
        for _ in range(n):
            out = self.join(out, self.arg(d))
        return out

    def cells(self, d, n, m, end=''):
        return ' \\\\{} '.join('&'.join(self.f(d - 1) for _ in range(n)) for _ in range(m)) + end

    def text(self, d):
        r = self.rng
        return self.glue([r.choice(['if', 'and x', 'for all', 'a--b', "don't", '$' + self.f(d - 1) + '$' if d > 0 else 'z', '\\(x_1\\)', '\\%', '\\textbf{b c}', "``q''", '\\ ']) for _ in range(r.randint(1, 3))])

    def macro(self, d):
        if not self.macros:
            return self.atom()
        m = self.rng.choice(self.macros)
        if m['delim']:
            return '\\' + m['name'][1:] + ' ' + self.rng.choice(['a', '12', 'x+y', '{a}b', '\\alpha', '']) + m['delim']
        opt = ''
        if m['opt'] and self.rng.random() < .5:
            opt = '[' + self.rng.choice(['a', '2', 'n+1', '{]}', '\\beta']) + ']'
        return self.cmd(m['name'][1:], d, m['n'] - m['opt'], opt) + ('' if m['n'] else ' ')

    def piece(self, d):
        r = self.rng
        if d <= 0 or r.random() < .35:
            return self.atom()
        p = r.randrange(24)
        if p < 2:
            return self.atom() + r.choice('^_') + self.arg(d)
        if p == 2:
            return self.atom() + '_' + self.arg(d) + '^' + self.arg(d)
        if p == 3:
            return self.cmd(r.choice(['frac', 'dfrac', 'tfrac', 'binom']), d, 2)
        if p == 4:
            return self.cmd('sqrt', d, 1, r.choice(['', '[3]', '[n]', '[a+1]']))
        if p == 5:
            l, q = r.choice([('(', ')'), ('[', ']'), ('\\{', '\\}'), ('.', '|'), ('|', '.'), ('\\langle ', '\\rangle '), ('<', '>'), ('\\|', '\\|'), ('\\lfloor ', '\\rfloor')])
            return '\\left' + l + self.f(d - 1) + '\\right' + q
        if p == 6:
            return self.cmd(r.choice(['hat', 'bar', 'vec', 'tilde', 'overline', 'underline', 'widehat', 'dot', 'ddot', 'mathbf', 'mathrm', 'mathcal', 'mathbb', 'mathit', 'mathsf', 'boldsymbol', 'overbrace', 'underbrace', 'operatorname', 'phantom',
                                      'mathop', 'mathbin', 'pmb', 'acute', 'breve', 'check', 'grave', 'dddot', 'mathtt', 'widetilde', 'overrightarrow', 'boxed']), d)
        if p in (7, 8):
            return '\\' + r.choice(['text', 'mbox', 'textrm', 'textbf', 'hbox', 'textit', 'emph', 'fbox', 'makebox', 'textsf', 'texttt']) + '{' + self.text(d - 1) + '}'
        if p == 9:
            n = r.randint(1, 3)
            return '\\begin{array}' + r.choice(['', '[t]']) + '{' + r.choice(['', '|']) + ''.join(r.choice('lcr') for _ in range(n)) + '}' + r.choice(['', '\\hline ']) \
                + self.cells(d, n, r.randint(1, 3), r.choice(['', '\\\\', '\\\\\\hline ', '\\\\[2pt]'])) + '\\end{array}'
        if p == 10:
            e = r.choice(ARRAYS)
            return '\\begin{' + e + '}' + r.choice(['', ' ', '\n']) + self.cells(d, 1 if e == 'gathered' else r.randint(1, 2), r.randint(1, 3)) + r.choice(['', '\n']) + '\\end{' + e + '}'
        if p == 11:
            return '{' + self.f(d - 1) + '}'
        if p in (12, 13, 14):
            return self.macro(d)
        if p == 15:
            return self.cmd(r.choice(['stackrel', 'overset', 'underset']), d, 2)
        if p == 16:
            return r.choice(['\\sum', '\\int', '\\prod', '\\lim']) + r.choice(['', '\\limits', '\\nolimits']) + '_' + self.arg(d) + r.choice(['', '^' + self.arg(d)])
        if p == 17:
            return '{' + self.f(d - 1) + r.choice(['\\over ', '\\choose ', '\\atop ']) + self.f(d - 1) + '}'
        if p == 18:
            return '{\\' + r.choice(['bf', 'rm', 'it', 'cal', 'displaystyle', 'scriptstyle', 'sf', 'tt']) + ' ' + self.f(d - 1) + '}'
        if p == 19:
            return '\\' + r.choice(['big', 'Big', 'bigl', 'Bigr', 'bigg', 'Biggl']) + r.choice(['(', ')', '|', '\\{', '[', '/', '\\|'])
        if p == 20:
            return self.atom() + r.choice(["'", "''", '^2', '_{1}', '^*', '^\\prime', '^{\\prime\\prime}', '_0^+', '^\\alpha_1'])
        if p == 21:
            return r.choice(['\\not=', '\\not\\in ', '\\displaystyle ', '\\kern1pt ', '\\hspace{1cm}'])
        if p == 22:
            return '\\substack{' + self.f(d - 1) + '\\\\{}' + self.f(d - 1) + '}'
        return '\\xrightarrow' + r.choice(['', '[a]']) + '{' + self.f(d - 1) + '}'

    def f(self, d, n=3):
        return self.glue([self.piece(d) for _ in range(self.rng.randint(1, n))])


def lex(s):
    return re.findall(r'\\[A-Za-z]+|\\.|#\d|\S', re.sub(r'(?<!\\)%.*\n', '', s))


def defs(rng):
    out, pre = [], ''
    for k in range(rng.randint(0, 4)):
        name = 'u' + 'ABCD'[k]
        g = Formula(rng, out[:])
        kind = rng.choice(['0', '1', '2', 'o', 'd'])
        g.par = {'0': 0, '1': 1, '2': 2, 'o': 2, 'd': 1}[kind]
        b = g.f(1, 2)
        for i in range(g.par):
            b += rng.choice(['_{#%d}', '(#%d)', '#%d']) % (i + 1)
        b = b.replace('%c $ }\n', '')
        dflt = ''
        if kind == 'd':
            pre += '\\def\\%s#1.{%s}' % (name, b)
        elif kind == 'o':
            dflt = rng.choice(['k', '', '0+\\alpha'])
            pre += '\\newcommand{\\%s}[2][%s]{%s}' % (name, dflt, b)
        else:
            pre += '\\newcommand{\\%s}%s{%s}' % (name, '[%d]' % g.par if g.par else '', b)
        out.append({'name': '\\' + name, 'n': g.par, 'opt': kind == 'o', 'dflt': lex(dflt), 'delim': '.' if kind == 'd' else '', 'body': lex(b)})
    return out, pre


def math_case(rng, size=3, html=None):
    macros, pre = defs(rng)
    if html is None:
        html = rng.random() < .08
    body, forms = '', []
    for _ in range(rng.randint(1, 4)):
        g = Formula(rng, macros)
        d = rng.randint(1, size)
        p = rng.choice(['$', '$', '(', 'math', '[', '$$', 'displaymath', 'equation', 'equation*', 'align', 'align*', 'gather', 'eqnarray', 'eqnarray*'])
        pl = rng.choice(['', '', '', 'textbf', 'emph', 'item', 'quote', 'cell', 'footnote', 'section', 'caption'])
        if html and pl in ('footnote', 'section', 'caption'):
            pl = ''
        if pl in ('textbf', 'emph', 'cell', 'section', 'caption') and p not in '$(':
            p = '$'
        b = g.f(d)
        while p == '$' and b.strip()[:1] in '$':
            b = g.f(d)
        num = '\\label{eq:%d}' % len(forms) if p in ('equation', 'align', 'gather', 'eqnarray') and rng.random() < .4 else ''
        if p in ('align', 'align*', 'eqnarray', 'eqnarray*', 'gather'):
            n = 1 if p == 'gather' else 3 if p.startswith('eq') else 2
            b = num + g.cells(d, n, rng.randint(1, 3))
            if num and rng.random() < .5:
                b += '\\nonumber'
        elif num:
            b = num + b
        kind = 'inline'
        if p == '$':
            s = '$' + b + '$'
        elif p == '(':
            s = '\\(' + b + '\\)'
        elif p == 'math':
            s = '\\begin{math}' + b + '\\end{math}'
        else:
            kind = 'display'
            if p == '[':
                s = '\\[' + b + '\\]'
            elif p == '$$':
                s = '$$' + b + '$$'
            elif p == 'displaymath':
                s = '\\begin{displaymath}' + b + '\\end{displaymath}'
            else:
                kind, s = 'env', '\\begin{%s}%s\\end{%s}' % (p, b, p)
        forms.append({'k': kind, 'src': chars(s if kind == 'env' else b), 'cells': '\\begin' in s or '\\u' in b or pl == 'cell'})
        if pl in ('textbf', 'emph', 'footnote'):
            s = '\\%s{a %s b}' % (pl, s)
        elif pl == 'section':
            s = '\n\\section{%s}\n' % s
        elif pl == 'caption':
            s = '\\begin{figure}x\\caption{c %s}\\end{figure}' % s
        elif pl == 'item':
            s = '\\begin{itemize}\\item %s\\end{itemize}' % s
        elif pl == 'quote':
            s = '\\begin{quote}%s\\end{quote}' % s
        elif pl == 'cell':
            s = '\\begin{tabular}{l}%s&a\\end{tabular}' % s
        body += 'w ' + s + rng.choice(['\n', ' ', '\n\n'])
    return {'kind': 'math', 'html': html, 'macros': macros, 'forms': forms,
            'src': '\\documentclass{article}\\usepackage{amsmath}' + pre + '\\begin{document}' + body + '\\end{document}'}


SPELL = {'\\a': '\\alpha', '\\f': '\\frac', '\\q': '\\sqrt', '\\R': '\\uR', '\\m': '\\um', '\\o': '\\uo', '\\d': '\\ud'}
MODEL = [{'name': '\\uR', 'n': 0, 'opt': False, 'dflt': [], 'delim': '', 'body': ['\\alpha', 'x']}, {'name': '\\um', 'n': 1, 'opt': False, 'dflt': [], 'delim': '', 'body': ['#1', '^', '{', '#1', '}']},
         {'name': '\\uo', 'n': 2, 'opt': True, 'dflt': ['x'], 'delim': '', 'body': ['#2', '\\alpha', '#1']}, {'name': '\\ud', 'n': 1, 'opt': False, 'dflt': [], 'delim': '.', 'body': ['(', '#1', ')']}]


def model_case(rng, formulas):
    """formulas of MC_MathSrc"""
    body, forms = '', []
    for t in formulas:
        b = Formula(rng).glue([SPELL.get(x, x) for x in t])
        l, r, k = rng.choice([('$', '$', 'inline'), ('\\(', '\\)', 'inline'), ('\\[', '\\]', 'display'), ('\\footnote{$', '$}', 'inline')])
        forms.append({'k': k, 'src': chars(b), 'cells': False})
        body += 'w ' + l + b + r + '\n'
    return {'kind': 'math', 'html': False, 'macros': MODEL, 'forms': forms, 'src': '\\documentclass{article}\\usepackage{amsmath}\\newcommand{\\uR}{\\alpha x}\\newcommand{\\um}[1]{#1^{#1}}'
            '\\newcommand{\\uo}[2][x]{#2\\alpha#1}\\def\\ud#1.{(#1)}\\begin{document}' + body + '\\end{document}'}


def rand_case(rng, size=3):
    return verb_case(rng) if rng.random() < .4 else math_case(rng, size)


def corrupt(rng, t):
    if t['kind'] == 'verb':
        if not t['items']:
            return None
        i = rng.choice(t['items'])
        p = rng.random()
        if p < .3:
            t['items'].remove(i)
        elif i[1] and p < .7:
            i[1].pop(rng.randrange(len(i[1])))
        else:
            i[1].insert(rng.randrange(len(i[1]) + 1), rng.choice([' ', 'x', '\\']) if i[0] != 'w' else 'x')
        return t
    f = rng.choice(t['forms'])
    w = f[rng.choice(['node', 'jax'])]
    k = [i for i, c in enumerate(w) if c not in ' \n']
    if not k:
        return None
    if rng.random() < .5:
        w.pop(rng.choice(k))
    else:
        w.insert(rng.choice(k), rng.choice('}{+'))
    return t


def run(ck):
    rng = ck.rng
    fn = os.path.join(ck.work, 'gen.json')
    ck.model('MC_Verbatim', 'MC_Verbatim%d.cfg' % ck.thorough, timeout=800, expect_states=5000)
    ck.model('MC_MathSrc', 'MC_MathSrc%d.cfg' % ck.thorough, env={'OUT': fn}, timeout=800, expect_states=5000)
    cases = []
    alpha = '\\{}%^ \na-$'
    bodies = [''.join(b) for n in range(5 if ck.thorough else 4) for b in itertools.product(alpha, repeat=n)]
    for i in range(0, len(bodies), 20):
        cases.append(verb_case(rng, bodies[i:i + 20]))
    ck.cov['exhaustive_bodies'] = len(bodies)
    for c in PRINT:                                     # every delimiter
        if not c.isalpha() and c not in '* ':
            out = ''.join('a\\verb%s%s%s%s b\n' % (st, c, b.replace(c, '').replace('}', '') if c == '{' else b.replace(c, ''), '}' if c == '{' else c) for st in ('', '*') for b in ('x', '' if c != '^' else 'y', '\\a{b}%c', '$#&~^_ --`\'"', ' '))
            cases.append({'kind': 'verb', 'html': True, 'body': chars(out), 'src': '\\documentclass{article}\\begin{document}' + out + '\\end{document}'})
    legal = json.load(open(fn))
    ck.cov['formulas_from_model'] = len(legal)
    for i in range(0, len(legal), 12):
        cases.append(model_case(rng, legal[i:i + 12]))
    for i in range(12000 if ck.thorough else 1200):
        cases.append(verb_case(rng, size=rng.choice([5, 15, 40, 100])))
    for i in range(20000 if ck.thorough else 1800):
        cases.append(math_case(rng, rng.choice([1, 2, 3, 4])))
    good = conform.run(ck, TRACE, cases, observe, mktrace, lambda c: c['src'], corrupt, chunk=15)
    ck.cov['formulas'] = sum(len(t['forms']) for t in good if t['kind'] == 'math')
    ck.cov['verbatim_items'] = sum(len([i for i in t['items'] if i[0] != 'w']) for t in good if t['kind'] == 'verb')
    ck.cov['documents_checked_on_the_page'] = sum(c['html'] for c in cases)
    ck.assumptions += ['blanks and comments of a formula are no tokens',
                       'one spelling for the delimiters of mathematics ($ for \\( \\), \\[ for $$) and for angle delimiters (\\left< for \\left\\langle); < and > are \\lt and \\gt for MathJax',
                       '\\verb^^ is the character ^^ and what follows, as in TeX',
                       '\\verb{...} ends at the closing brace; a blank after \\verb is not a delimiter; \\verb inside arguments is not well-formed and left out']
