"""Documents with numbered objects, labels and references (C08, C09): a
document is the sequence of events of spec/Numbering.tla together with its
LaTeX source; observe() fills in what the code made of every event."""
import json, os, re, shutil, tempfile

SECS = ['part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph']
ROWS = ['eqnarray', 'align', 'gather', 'falign', 'alignat']
FORMATS = ['arabic', 'Roman', 'roman', 'Alph', 'alph']


class Doc:
    def __init__(self, cls, depth, ams=False, amsthm=False):
        self.cls, self.depth, self.ams, self.amsthm = cls, depth, ams, amsthm
        self.events, self.pre, self.body = [], [], []
        self.n = 0

    def ev(self, k, **kw):
        kw['k'] = k
        self.events.append(kw)
        return kw

    def obj(self, k, **kw):
        self.n += 1
        return self.ev(k, o=self.n, **kw)

    def w(self, s):
        self.body.append(s)

    def source(self):
        pk = ('\\usepackage{amsmath}\n' if self.ams else '') + ('\\usepackage{amsthm}\n' if self.amsthm else '')
        return '\\documentclass{%s}\n%s%s\\begin{document}\n%s\n\\end{document}\n' % (self.cls, pk, ''.join(self.pre), ''.join(self.body))

    def case(self, **kw):
        return dict(cls=self.cls, depth=self.depth, events=self.events, tex=self.source(), **kw)

    # ---- the constructs -----------------------------------------------------
    def label(self, l):
        self.ev('label', l=l)
        self.w('\\label{%s}' % l)

    def ref(self, l, cmd='ref'):
        e = self.ev('ref', l=l)
        # a name to find the printed number by
        self.w('Rq%d:\\%s{%s}:qR ' % (len(self.events), cmd, l))
        e['q'] = len(self.events)

    def cite(self, ls):
        self.ev('cite', ls=ls)
        self.w('\\cite{%s} ' % ','.join(ls))

    def show(self, n, f):
        e = self.ev('print', n=n, f=f)
        e['q'] = len(self.events)
        self.w('Pq%d:%s:qP ' % (e['q'], '\\the%s{}' % n if f == 'the' else '\\%s{%s}' % (f, n)))

    def newtheorem(self, n, star=False, shared='', within='', pre=True):
        self.ev('newtheorem', n=n, star=star, shared=shared, within=within)
        s = '\\newtheorem%s{%s}%s{T%s}%s\n' % ('*' if star else '', n, '[%s]' % shared if shared else '', n, '[%s]' % within if within else '')
        (self.pre if pre else self.body).append(s)


def parts_tex(parts):
    return ''.join(p['c'] if p['t'] == 'lit' else '\\the%s' % p['c'] if p['t'] == 'the' else '\\%s{%s}' % (p['f'], p['c']) for p in parts)


def from_history(cls, kind, hist):
    """the document of a sequence of events of MC_Numbering"""
    d = Doc(cls, 2)
    d.newtheorem('thm', within='section' if cls == 'article' else 'chapter')
    d.newtheorem('lem', shared='thm')
    open_ = []

    def close():
        while open_ and kind != 'lists':
            d.ev('close')
            d.w('\\end{%s}\n' % open_.pop())
    for i, e in enumerate(hist):
        k = e['k']
        if kind == 'numbers' and k not in ('row', 'nonumber'):
            close()
        if k == 'sec':
            d.obj('sec', c=e['c'], star=e['star'])
            d.w('\\%s%s{T %d}\n' % (e['c'], '*' if e['star'] else '', i))
        elif k == 'eqn':
            d.obj('eqn')
            open_.append('eqnarray')
            d.w('\\begin{eqnarray} x')
        elif k == 'row':
            d.obj('row')
            d.w('\\\\ y')
        elif k == 'nonumber':
            d.ev('nonumber', o=d.n)
            d.w('\\nonumber ')
        elif k == 'thm':
            d.obj('thm', n=e['n'])
            open_.append(e['n'])
            d.w('\\begin{%s} t ' % e['n'])
        elif k == 'caption':
            d.w('\\begin{figure}')
            d.ev('open')
            d.obj('caption', c='figure', star=False)
            d.w('\\caption{c}\\end{figure}\n')
            d.ev('close')
        elif k == 'list':
            d.ev('list', n=e['n'])
            open_.append(e['n'])
            d.w('\\begin{%s}' % e['n'])
        elif k == 'endlist':
            d.ev('endlist')
            d.w('\\end{%s}\n' % open_.pop())
        elif k == 'item':
            d.obj('item', opt=e['opt'])
            d.w('\\item%s i' % ('[x]' if e['opt'] else ' '))
        elif k == 'close':
            close()
        elif k == 'label':
            d.label(e['l'])
        elif k == 'ref':
            d.ref(e['l']) if not open_ else (d.w('\\mbox{'), d.ref(e['l']), d.w('}'))
        elif k in ('set', 'add'):
            d.ev(k, n=e['n'], v=e['v'])
            d.w('\\%scounter{%s}{%d}' % ('set' if k == 'set' else 'addto', e['n'], e['v']))
        elif k == 'step':
            d.ev(k, n=e['n'])
            d.w('\\stepcounter{%s}' % e['n'])
        elif k == 'appendix':
            d.ev(k)
            d.w('\\appendix ')
    while open_:
        n = open_.pop()
        d.ev('endlist' if n in ('enumerate', 'itemize') else 'close')
        d.w('\\end{%s}' % n)
    return d


REF = re.compile(r'Rq\d+:\\\w+\{[^}]*\}:qR ')


def moved(doc, front):
    """the document with all its references before or after everything else"""
    d = Doc(doc.cls, doc.depth, doc.ams, doc.amsthm)
    d.events, d.pre, d.n = doc.events, doc.pre, doc.n
    refs = [x for x in doc.body if REF.fullmatch(x)]
    rest = [x for x in doc.body if not REF.fullmatch(x)]
    d.body = ['Start: '] + refs + ['\n\n'] + rest if front else rest + ['\n\nEnd: '] + refs
    return d


class Gen:
    """random documents"""
    def __init__(self, rng, focus):
        self.r, self.focus = rng, focus
        cls = rng.choice(['article', 'article', 'book', 'book', 'report'])
        self.d = Doc(cls, rng.choice([2, 2, 2, 0, 1, 3, 4, 5]), rng.random() < .5, rng.random() < .3)
        self.names, self.thms, self.user = [], [], []
        self.nl = 0
        self.enum = 0
        self.top = 0
        self.app = False
        self.within = {'subsection': 'section', 'subsubsection': 'subsection'}
        if cls != 'article':
            for c in ('section', 'equation', 'figure', 'table'):
                self.within[c] = 'chapter'
        self.prelude()
        self.used = []
        for _ in range(rng.randrange(3, 16)):
            self.block(0)
        self.refs_left()
        self.bib()

    def counters(self):
        return ['section', 'subsection', 'equation', 'figure', 'table'] + (['chapter'] if self.d.cls != 'article' else []) + self.user

    def prelude(self):
        r, d = self.r, self.d
        secs = (['chapter'] if d.cls != 'article' else []) + ['section', 'subsection']
        for i in range(r.randrange(4)):
            n = ['thm', 'lem', 'defi', 'Cor2'][i] if i != 3 else 'cor'
            x = r.random()
            own = [t for t in self.thms if t[1] == t[0]]
            if d.amsthm and x < .2:
                d.newtheorem(n, star=True)
                self.thms.append((n, ''))
            elif own and x < .45:
                s = r.choice(own)[0]
                d.newtheorem(n, shared=s)
                self.thms.append((n, s))
            elif x < .52:
                d.newtheorem(n, shared='equation')
                self.thms.append((n, 'equation'))
            elif x < .75:
                w = r.choice(secs + [t[0] for t in own] + self.user)
                d.newtheorem(n, within=w)
                self.thms.append((n, n))
                self.user.append(n)
                self.within[n] = w
            else:
                d.newtheorem(n)
                self.thms.append((n, n))
                self.user.append(n)
        for n in ['cnta', 'cntb', 'cntc'][:r.randrange(4)]:
            w = r.choice(['', ''] + secs + self.user + ['equation'])
            d.ev('newcounter', n=n, within=w)
            d.pre.append('\\newcounter{%s}%s\n' % (n, '[%s]' % w if w else ''))
            self.user.append(n)
            if w:
                self.within[n] = w
        if d.ams and r.random() < .4:
            n = r.choice(['equation', 'figure', 'table'])
            d.ev('numberwithin', n=n, within='section')
            d.pre.append('\\numberwithin{%s}{section}\n' % n)
            self.within[n] = 'section'
        if r.random() < .35:
            self.renew(pre=True)

    def renew(self, pre=False):
        r, d = self.r, self.d
        n = r.choice([c for c in self.counters() if not (self.app and c in ('section', 'chapter'))] or ['equation'])
        parts = []
        up = []
        w = self.within.get(n)
        while w:
            up.append(w)
            w = self.within.get(w)
        if up and r.random() < .5:
            parts = [{'t': 'the', 'c': r.choice(up), 'f': ''}, {'t': 'lit', 'c': r.choice(['.', '-', ':', '/']), 'f': ''}]
        elif r.random() < .3:
            parts = [{'t': 'lit', 'c': r.choice(['S', 'no ', '(']), 'f': ''}]
        f = r.choice(FORMATS)
        parts.append({'t': 'val', 'c': n, 'f': f})
        if parts[0]['c'] == '(':
            parts.append({'t': 'lit', 'c': ')', 'f': ''})
        d.ev('renewthe', n=n, parts=parts)
        (d.pre if pre else d.body).append('\\renewcommand{\\the%s}{%s}\n' % (n, parts_tex(parts)))

    # ---- labels and references ---------------------------------------------
    def fresh(self):
        self.nl += 1
        x = self.r.random()
        n = 'l%d' % self.nl if x < .5 else 'sec:a-%d' % self.nl if x < .7 else 'eq.%d b' % self.nl if x < .8 else 'a_%d' % self.nl if x < .9 else 'Key%d' % self.nl
        self.names.append(n)
        return n

    def lab(self, p):
        if self.r.random() < p * (1.2 if self.focus == 'refs' else .4):
            self.d.label(self.fresh())
            if self.r.random() < .08:
                self.d.label(self.fresh())

    def aref(self, p=1):
        r, d = self.r, self.d
        if r.random() < p * (1 if self.focus == 'refs' else .3):
            # any name: earlier, later or never
            x = r.random()
            l = r.choice(self.names) if self.names and x < .4 else 'l%d' % r.randrange(1, 14) if x < .7 else r.choice(['sec:a-%d', 'eq.%d b', 'a_%d', 'Key%d']) % r.randrange(1, 14) if x < .92 else 'nowhere%d' % r.randrange(2)
            self.used.append(l)
            d.ref(l, r.choice(['ref', 'ref', 'ref', 'pageref'] + (['eqref'] if d.ams else [])))

    def refs_left(self):
        for n in self.names:
            if self.r.random() < .5:
                self.d.ref(n)

    def par(self):
        r = self.r
        for _ in range(r.randrange(1, 3)):
            self.d.w('word ')
            self.aref(.4)
            if r.random() < (.25 if self.focus == 'numbers' else .05):
                c = r.choice(self.counters())
                self.d.show(c, r.choice(['arabic', 'arabic', 'the', 'Roman', 'roman']))
        if r.random() < .15:
            self.d.w('\\footnote{note ')
            self.d.ev('open')
            self.aref(.6)
            self.d.ev('close')
            self.d.w('}')
        if self.cites() and r.random() < .2:
            self.d.cite(r.sample(self.cites(), r.randrange(1, len(self.cites()) + 1)))
        self.d.w('\n\n')

    def cites(self):
        if not hasattr(self, '_bib'):
            self._bib = ['key%d' % i for i in range(self.r.choice([0, 0, 1, 3, 5]))]
        return self._bib

    def bib(self):
        r, d = self.r, self.d
        if self.cites():
            d.w('\\begin{thebibliography}{9}\n')
            for k in self.cites():
                opt = r.random() < .3
                d.n += 1
                d.ev('bibitem', o=d.n, l=k, opt=opt, text='Lab' + k[3:])
                d.w('\\bibitem%s{%s} Author %s\n' % ('[Lab%s]' % k[3:] if opt else '', k, k))
            d.w('\\end{thebibliography}\n')

    # ---- blocks -------------------------------------------------------------
    def block(self, deep):
        r, d = self.r, self.d
        kinds = ['par', 'par', 'eqn', 'eqn', 'eqnarray', 'float', 'thm', 'enum', 'list', 'count', 'count', 'starred', 'group', 'env', 'label']
        if not deep:
            kinds += ['sec'] * 9 + ['appendix', 'renew']
        k = r.choice(kinds)
        if deep >= 3 and k in ('thm', 'enum', 'list', 'group', 'env'):
            k = 'par'
        getattr(self, 'b_' + k)(deep)

    def b_par(self, deep):
        self.par()

    def b_label(self, deep):
        if self.focus == 'refs':
            self.lab(.5)
            self.d.w('\n')

    def b_sec(self, deep):
        r, d = self.r, self.d
        c = r.choice(['section'] * 4 + ['subsection'] * 3 + ['subsubsection', 'paragraph', 'subparagraph', 'part'] + (['chapter'] * 4 if d.cls != 'article' else []))
        star = r.random() < .15
        d.obj('sec', c=c, star=star)
        d.w('\\%s%s%s{Title ' % (c, '*' if star else '', '[toc]' if r.random() < .1 and not star else ''))
        if r.random() < .15:
            d.ev('open')
            self.aref()
            d.ev('close')
        inside = r.random() < .1
        if inside:
            self.lab(.9)
        d.w('}')
        if not inside:
            if r.random() < .2:
                d.w('\n')
            self.lab(.6)
        d.w('\n\n')

    def b_appendix(self, deep):
        if not self.app and self.r.random() < .5:
            self.app = True
            self.d.ev('appendix')
            self.d.w('\\appendix\n')

    def b_renew(self, deep):
        self.renew()

    def b_count(self, deep):
        if self.focus == 'refs' and self.r.random() < .7:
            return
        r, d = self.r, self.d
        c = r.choice(self.counters() + (['enumi'] if deep and self.enum else []))
        x = r.random()
        if c == 'enumi':
            x = x * .7
        if x < .35:
            v = r.choice([0, 1, 2, 3, 7, 12])
            d.ev('set', n=c, v=v)
            d.w('\\setcounter{%s}{%d} ' % (c, v))
        elif x < .7:
            v = r.choice([1, 2, 5])
            d.ev('add', n=c, v=v)
            d.w('\\addtocounter{%s}{%d} ' % (c, v))
        elif x < .78:
            b = r.choice(self.counters())
            d.ev('setto', n=c, v=b)
            d.w('\\setcounter{%s}{\\value{%s}} ' % (c, b))
        else:
            d.ev('step', n=c)
            d.w('\\stepcounter{%s} ' % c)

    def b_eqn(self, deep):
        r, d = self.r, self.d
        env = 'equation'
        if d.ams and r.random() < .15:
            env = r.choice(['multline', 'multiline'])
        d.obj('eqn', env=env)
        d.w('\\begin{%s}' % env)
        early = r.random() < .5
        if early:
            self.lab(.6)
        x = r.random()
        if env != 'equation':
            d.w(' a \\\\ b \\\\ c ')
        elif d.ams and x < .3:
            e = r.choice(['split', 'aligned', 'cases', 'pmatrix'])
            d.w('\\begin{%s} a & b \\\\ c & d \\\\ e \\end{%s}' % (e, e))
        elif x < .4:
            d.w('\\begin{array}{cc} a & b \\\\ c & d \\end{array}')
        else:
            d.w(' x^{2} ')
        if d.ams and r.random() < .15 and early:
            d.ev('nonumber', o=d.n)
            d.w(r.choice(['\\nonumber ', '\\notag ']))
        elif not early:
            self.lab(.6)
        d.w('\\end{%s}\n' % env)
        d.ev('close')

    def b_eqnarray(self, deep):
        r, d = self.r, self.d
        env = r.choice(ROWS if d.ams else ROWS[:1])
        amp = ' & = & ' if env == 'eqnarray' else ' '
        d.w('\\begin{%s}%s' % (env, '{2}' if env == 'alignat' else ''))
        n = r.randrange(1, 5)
        for i in range(n):
            if i:
                d.w('\\\\%s ' % r.choice(['', '', '[2pt]', '*']))
            d.obj('eqn' if i == 0 else 'row', env=env)
            d.w(' x' + amp + str(i) + ' ')
            if r.random() < .25:
                d.ev('nonumber', o=d.n)
                d.w('\\nonumber ')
                if r.random() < .2:
                    d.ev('nonumber', o=d.n)
                    d.w('\\nonumber ')
            else:
                self.lab(.5)
            if d.ams and r.random() < .15:
                d.w(' \\begin{cases} 1 & x \\\\ 0 & y \\end{cases} ')
            if env == 'eqnarray' and r.random() < .3:
                d.w(' & z ')
        d.w('\\end{%s}\n' % env)
        d.ev('close')

    def b_starred(self, deep):
        r, d = self.r, self.d
        env = r.choice(['eqnarray*'] + (['align*', 'equation*', 'gather*'] if d.ams else []))
        d.obj('starred')
        d.w('\\begin{%s} u %s\\end{%s}\n' % (env, '' if env[0] == 'e' and env[1] == 'q' and env[3] == 'a' and False else r.choice(['', '\\\\ v ']) if env != 'equation*' else '', env))
        d.ev('close')

    def b_float(self, deep):
        r, d = self.r, self.d
        c = r.choice(['figure', 'table'])
        star = '*' if r.random() < .15 else ''
        d.w('\\begin{%s%s}%s\n' % (c, star, r.choice(['', '', '[ht]'])))
        d.ev('open')
        if r.random() < .3:
            d.w('\\begin{tabular}{ll} a & b \\\\ c & d \\end{tabular}\n')
        for _ in range(r.choice([1, 1, 1, 1, 2, 0])):
            cs = r.random() < .12
            d.obj('caption', c=c, star=cs)
            d.w('\\caption%s%s{Cap ' % ('*' if cs else '', '[short]' if r.random() < .1 else ''))
            inside = not cs and r.random() < .15
            if inside:
                self.lab(.8)
            d.ev('open')
            self.aref(.2)
            d.ev('close')
            d.w('}')
            if cs:
                break
            if not inside:
                self.lab(.6)
        d.w('\\end{%s%s}\n' % (c, star))
        d.ev('close')

    def b_thm(self, deep):
        r, d = self.r, self.d
        if not self.thms:
            return self.par()
        n, c = r.choice(self.thms)
        d.obj('thm', n=n)
        d.w('\\begin{%s}' % n)
        if r.random() < .3:
            d.w('[opt ')
            d.ev('open')
            self.aref(.3)
            d.ev('close')
            d.w(']')
        d.w(' ')
        self.lab(.6)
        d.w('start ')
        for _ in range(r.randrange(3)):
            self.block(deep + 1)
            if c and r.random() < .2:
                self.lab(.5)
        d.w('\\end{%s}\n' % n)
        d.ev('close')

    def b_enum(self, deep, n='enumerate'):
        r, d = self.r, self.d
        if n == 'enumerate' and self.enum >= 4:
            n = 'itemize'
        d.ev('list', n=n)
        self.enum += n == 'enumerate'
        d.w('\\begin{%s}\n' % n)
        for _ in range(r.randrange(1, 5)):
            opt = n == 'description' or r.random() < .15
            d.obj('item', opt=opt)
            d.w('\\item%s ' % ('[t]' if opt else ''))
            self.lab(.4)
            d.w('text ')
            if r.random() < .35:
                self.block(deep + 1)
                if r.random() < .3:
                    self.lab(.5)
            d.w('\n')
        d.w('\\end{%s}\n' % n)
        self.enum -= n == 'enumerate'
        d.ev('endlist')

    def b_list(self, deep):
        self.b_enum(deep, self.r.choice(['enumerate', 'itemize', 'description']))

    def b_group(self, deep):
        d = self.d
        d.ev('open')
        d.w('{')
        self.block(deep + 1)
        d.w('}\n')
        d.ev('close')

    def b_env(self, deep):
        d = self.d
        n = self.r.choice(['center', 'quote', 'flushleft'])
        d.ev('open')
        d.w('\\begin{%s} ' % n)
        self.block(deep + 1)
        d.w('\\end{%s}\n' % n)
        d.ev('close')


def walk(node, seen):
    """arguments, then content, each node once"""
    if id(node) in seen:
        return
    seen[id(node)] = node
    yield node
    a = node.attributes if getattr(node, 'attributes', None) else {}
    for v in a.values():
        for x in (v if isinstance(v, (list, tuple)) and not hasattr(v, 'nodeType') else [v]):
            if hasattr(x, 'nodeType'):
                yield from walk(x, seen)
    for c in getattr(node, 'childNodes', None) or []:
        if hasattr(c, 'nodeType') and c.nodeType != c.TEXT_NODE:
            yield from walk(c, seen)


def text(x):
    return '' if x is None else x if isinstance(x, str) else x.textContent


KIND = {'caption': 'caption', 'thmenv': 'thm', 'item': 'item', 'bibitem': 'bibitem'}
REFS = ('ref', 'pageref', 'eqref')


def observe(case):
    from plasTeX.TeX import TeX
    from plasTeX import TeXDocument
    from plasTeX.Base.LaTeX.Math import eqnarray, EqnarrayStar, equation
    from plasTeX.Packages.amsmath import multiline, split, cases, aligned
    from vf import render
    pages = ''
    if case.get('render'):
        wd = tempfile.mkdtemp(dir=case['work'])
        try:
            open(os.path.join(wd, 'a.tex'), 'w').write(case['tex'])
            render.run(os.path.join(wd, 'a.tex'), os.path.join(wd, 'out'), render.config(case['render'], document__sec_num_depth=case['depth'], files__split_level=case['split']))
            pages = '\n'.join(render.html_files(os.path.join(wd, 'out')).values())
            # what is displayed: no attributes, no <title>
            pages = re.sub('<[^>]*>', '', re.sub('<title>.*?</title>', '', pages, flags=re.S))
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    cfg = render.config('HTML5', document__sec_num_depth=case['depth'])
    tex = TeX(TeXDocument(config=cfg))
    tex.input(case['tex'])
    doc = tex.parse()
    objs, refs, cites = [], [], []
    nodes = list(walk(doc, {}))
    for n in nodes:
        nm = n.nodeName
        if nm in SECS:
            objs.append(('sec', [n]))
        elif isinstance(n, (equation, multiline)):
            objs.append(('eqn', [n]))
        elif isinstance(n, (split, cases, aligned)):
            pass
        elif isinstance(n, eqnarray):
            for i, row in enumerate(n):
                objs.append(('row' if i else 'eqn', [row] if i else [n, row]))
        elif isinstance(n, EqnarrayStar):
            objs.append(('starred', [n]))
        elif nm in KIND:
            objs.append((KIND[nm], [n]))
        elif nm in REFS:
            refs.append(n)
        elif nm == 'cite':
            cites.append(n)
    want = [e['k'] for e in case['events'] if 'o' in e and e['k'] != 'nonumber']
    if want != [k for k, _ in objs]:
        return {'exc': 'objects of the document: %s for %s' % ([k for k, _ in objs], want)}
    whole = doc.textContent
    where = {}
    for i, (_, ns) in enumerate(objs):
        for n in ns:
            where[id(n)] = i + 1
    inside = {id(n) for n in nodes}

    def target(n):
        return where.get(id(n), -1 if id(n) in inside else 0)
    out = []
    ri = ci = 0
    for e in case['events']:
        e = dict(e)
        if 'o' in e and e['k'] not in ('nonumber', 'bibitem'):
            ns = objs[e['o'] - 1][1]
            e['num'] = sorted({text(n.ref) for n in ns})
            if e['k'] == 'item' and ns[0].counter:
                e['num'] = sorted(set(e['num']) | {str(ns[0].position)})
        elif e['k'] == 'ref':
            n = refs[ri]
            ri += 1
            t = n.idref.get('label')
            e['to'], e['num'] = target(t), [text(getattr(t, 'ref', None))]
            if pages and e['q']:
                m = re.findall(r'Rq%d:(.*?):qR' % e['q'], pages, re.S)
                # a reference in a title is displayed in the contents as well
                shown = {x.strip() for x in m}
                if n.nodeName == 'pageref':
                    shown = {e['num'][0] if x == '*' else x for x in shown}
                e['num'] = sorted(set(e['num']) | {'' if x == '??' else x for x in shown})
        elif e['k'] == 'cite':
            n = cites[ci]
            ci += 1
            e['to'] = [target(x) for x in n.bibitems]
            e['text'] = text(n.citation())
        elif e['k'] == 'print':
            e['got'] = re.findall(r'Pq%d:(.*?):qP' % e['q'], whole, re.S)
        elif e['k'] == 'label':
            t = doc.context.labels.get(e['l'])
            e['to'], e['id'] = (target(t), t.id) if t is not None else (0, '')
        out.append(e)
    return json.loads(json.dumps({'cls': case['cls'], 'depth': case['depth'], 'events': out,
            'end': {k: c.value for k, c in doc.context.counters.items()}, 'texsrc': case['tex']}))
