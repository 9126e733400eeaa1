"""Random documents with every kind of text position (used by C12, C13, C14, C17).

A document is JSON: a class, front matter, a flat list of units (the first one is the text before the first
section), and back matter.  Texts are numbered leaves ['t', n]; the source of leaf n is supplied by the caller."""

LEVELS = {'article': [('section', 1), ('subsection', 2), ('subsubsection', 3), ('paragraph', 4)],
          'book': [('part', -1), ('chapter', 0), ('section', 1), ('subsection', 2), ('subsubsection', 3), ('paragraph', 4)],
          'report': [('chapter', 0), ('section', 1), ('subsection', 2), ('subsubsection', 3)]}
THMS = ['thm', 'lem']


class Gen:
    def __init__(self, rng, feats):
        """feats: the set of optional features (see the code)"""
        self.rng, self.feats, self.n, self.labels = rng, feats, 0, []
        self.cites, self.leaves, self.nlab = [], [], 0

    def has(self, f, p=.6):
        return f in self.feats and self.rng.random() < p

    def leaf(self, kind='text', where=''):
        self.leaves.append((kind, where))
        return ['t', len(self.leaves) - 1]

    def label(self, kind, p=.6):
        if 'ref' in self.feats and self.rng.random() < p:
            self.nlab += 1
            lab = '%s:%d' % (kind, self.nlab)
            self.labels.append(lab)
            return lab
        return ''

    # ---- inline material
    def text(self, where, n=1, depth=0, marks=True):
        """marks: footnotes, references, index entries may occur"""
        out = []
        for i in range(self.rng.randint(1, n)):
            out.append(self.leaf('text', where))
            r = self.rng.random()
            if not marks:
                if r < .15:
                    out.append(['em', self.rng.choice(['emph', 'textbf', 'texttt', 'textsc']), [self.leaf('text', where + '/em')]])
                continue
            if self.has('fn', .15):
                out.append(['fn', [self.leaf('text', 'footnote')] + ([['em', 'emph', [self.leaf('text', 'footnote/em')]]] if r < .2 else [])])
            if self.has('idx', .15):
                out.append(self.index())
            if self.has('verb', .1):
                out.append(['verb', self.leaf('verb', 'verb')])
            if self.has('href', .12):
                out.append(self.rng.choice([['href', self.leaf('url', 'href/url'), [self.leaf('text', 'href/text')]], ['url', self.leaf('url', 'url')]]))
            if self.has('ref', .2):
                out.append(['ref', None, self.rng.choice(['ref', 'ref', 'pageref'])])
            if self.has('cite', .15):
                out.append(['cite', None, [self.leaf('text', 'cite/note')] if r < .4 else []])
            if self.has('mp', .06):
                out.append(['mp', [self.leaf('text', 'marginpar')]])
            if self.has('math', .1):
                out.append(['math', self.rng.choice(['x<y', 'a>b', 'x^2+1', 'a_i'])])
            if r < .15:
                out.append(['em', self.rng.choice(['emph', 'textbf', 'texttt', 'textsf', 'textit', 'underline', 'mbox', 'fbox']), [self.leaf('text', where + '/em')]])
            if r > .93 and 'sym' in self.feats:
                out.append(['raw', self.rng.choice(['\\ldots{}', '\\&', '\\#', '~', '``', "''", '--', '\\copyright{}', '\\S{}'])])
        return out

    def index(self):
        lv = [[self.leaf('index', 'index'), self.leaf('index', 'index/shown') if self.rng.random() < .3 else None] for _ in range(self.rng.choice([1, 1, 1, 2, 3]))]
        return ['idx', lv]

    # ---- blocks
    def blocks(self, n, depth=0):
        return [self.block(depth) for _ in range(self.rng.randint(1, n))]

    def block(self, depth):
        kinds = ['para'] * 4
        for f in ('list', 'quote', 'center', 'table', 'figure', 'verbatim', 'thm', 'equation', 'proof', 'align'):
            if f in self.feats:
                if depth and f in ('figure', 'table') or depth > 1 and f in ('list', 'quote', 'thm', 'proof', 'center'):
                    continue
                kinds.append(f)
        k = self.rng.choice(kinds)
        if k == 'para':
            return ['para', self.text('para', 2)]
        if k == 'list':
            env = self.rng.choice(['itemize', 'enumerate', 'description'])
            items = []
            for _ in range(self.rng.randint(1, 3)):
                term = [self.leaf('text', 'term')] if env == 'description' or self.has('itemterm', .2) else None
                lab = self.label('item', .3) if env == 'enumerate' and term is None else ''
                bs = [['para', self.text('item', 1)]]
                if depth < 1 and self.rng.random() < .2:
                    bs.append(self.block(depth + 1))
                items.append([term, lab, bs])
            return ['list', env, items]
        if k in ('quote', 'center'):
            return ['env', {'quote': self.rng.choice(['quote', 'quotation', 'verse']), 'center': 'center'}[k], self.blocks(1, depth + 1)]
        if k == 'proof':
            return ['proof', [self.leaf('text', 'proof/title')] if self.rng.random() < .4 else None, self.blocks(1, depth + 1)]
        if k == 'table':
            fl = self.rng.random() < .5
            rows, cols = self.rng.randint(1, 3), self.rng.randint(1, 3)
            cells = [[[self.leaf('text', 'cell')] + ([['fn', [self.leaf('text', 'footnote')]]] if self.has('fn', .05) and not fl else []) for _ in range(cols)] for _ in range(rows)]
            cap = self.cap() if fl else None
            return ['table', 'c' * cols, cells, cap, self.label('tab') if cap else '', self.rng.choice(['above', 'below'])]
        if k == 'figure':
            return ['figure', self.text('figure', 1, marks=False), self.cap(), self.label('fig')]
        if k == 'verbatim':
            return ['verbatim', self.rng.choice(['verbatim', 'verbatim', 'verbatim*'] if 'verbatim*' in self.feats else ['verbatim']), [self.leaf('verb', 'verbatim') for _ in range(self.rng.randint(1, 2))]]
        if k == 'thm':
            return ['thm', self.rng.choice(THMS), [self.leaf('text', 'thm/title')] if self.rng.random() < .5 else None, self.label('thm'), self.blocks(1, depth + 1)]
        if k == 'equation':
            return ['equation', self.label('eq'), self.rng.choice(['x<y', 'a>b \\& c', 'x^2'])]
        if k == 'align':
            return ['align', self.rng.choice(['align', 'eqnarray', 'gather']), [[self.label('eq', .4), self.rng.choice(['x', 'y<z'])] for _ in range(self.rng.randint(1, 3))]]

    def cap(self):
        return self.text('caption', 1, marks=False)

    def document(self, cls, nunits=5, nblocks=3, star=.15):
        rng = self.rng
        d = {'cls': cls, 'feats': sorted(self.feats)}
        d['title'] = [self.leaf('text', 'title')] if self.has('title', .8) else None
        d['author'] = [[self.leaf('text', 'author')] for _ in range(rng.randint(1, 2))] if d['title'] and rng.random() < .7 else []
        d['date'] = [self.leaf('text', 'date')] if d['title'] and rng.random() < .5 else None
        d['thanks'] = [self.leaf('text', 'thanks')] if 'thanks' in self.feats and d['title'] and rng.random() < .3 else None
        d['abstract'] = self.text('abstract', 1) if self.has('abstract', .4) and cls != 'book' else None
        d['thm'] = [[self.leaf('text', 'thm/name')], [self.leaf('text', 'thm/name')]] if 'thm' in self.feats else []
        units = [{'name': '', 'level': -99, 'blocks': self.blocks(2)}]
        levels = LEVELS[cls]
        cur = -1
        for _ in range(rng.randint(1, nunits)):
            cur = rng.choice([i for i in range(len(levels)) if i <= cur + 1 and (i or levels[0][0] != 'part' or rng.random() < .5 or cur < 0)] or [cur])
            if cur < 0:
                cur = 0
            name, lev = levels[cur]
            u = {'name': name, 'level': lev, 'star': rng.random() < star, 'title': self.text('section', 1, marks=False)}
            u['short'] = [self.leaf('text', 'section/short')] if 'short' in self.feats and not u['star'] and rng.random() < .15 else None
            u['label'] = self.label('sec') if not u['star'] else ''
            u['blocks'] = self.blocks(nblocks) if rng.random() < .85 else []
            units.append(u)
        d['units'] = units
        d['bib'] = []
        if 'cite' in self.feats:
            for i in range(rng.randint(1, 3)):
                d['bib'].append(['key%d' % i, [self.leaf('text', 'bib/label')] if rng.random() < .3 else None, self.text('bib', 1, marks=False)])
        d['appendix'] = 'appendix' in self.feats and rng.random() < .25 and len(units) > 2
        if d['appendix']:
            top = [i for i, u in enumerate(units) if i > 1 and u['level'] == (1 if cls == 'article' else 0)]
            d['appendix'] = rng.choice(top) if top else 0
        d['index'] = 'idx' in self.feats and rng.random() < .8
        d['toc'] = 'toc' in self.feats and rng.random() < .5
        self.fill(d)
        d['leaves'] = self.leaves
        d['labels'] = self.labels
        return d

    def fill(self, node):
        """choose the labels and keys that are referred to"""
        def walk(x, bib):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == 'ref' and x[1] is None:
                    x[1] = self.rng.choice(self.labels) if self.labels else ''
                elif len(x) == 3 and x[0] == 'cite' and x[1] is None:
                    x[1] = self.rng.sample(bib, self.rng.randint(1, min(2, len(bib)))) if bib else []
                for y in x:
                    walk(y, bib)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y, bib)
        walk(node, [b[0] for b in node['bib']])


def latex(d, src):
    """src(n): the source of leaf n"""
    def inl(xs):
        return ' '.join(one(x) for x in xs)

    def one(x):
        k = x[0]
        if k == 't':
            return src(x[1])
        if k == 'em':
            return '\\%s{%s}' % (x[1], inl(x[2]))
        if k == 'fn':
            return '\\footnote{%s}' % inl(x[1])
        if k == 'idx':
            return '\\index{%s%s}' % ('!'.join(one(a) + ('@' + one(b) if b else '') for a, b in x[1]), x[2] if len(x) > 2 else '')
        if k == 'link':                     # \hyperref[label]{text}, \hyperlink{name}{text}, \hypertarget{name}{text}
            return ('\\%s[%s]{%s}' if x[1] == 'hyperref' else '\\%s{%s}{%s}') % (x[1], x[2], inl(x[3]))
        if k == 'fnm':
            return '\\footnotemark{} %s \\footnotetext{%s}' % (inl(x[1]), inl(x[2]))
        if k == 'verb':
            return '\\verb+%s+' % one(x[1])
        if k == 'href':
            return '\\href{%s}{%s}' % (one(x[1]), inl(x[2]))
        if k == 'url':
            return '\\url{%s}' % one(x[1])
        if k == 'ref':
            return '\\%s{%s}' % (x[2], x[1]) if x[1] else ''
        if k == 'cite':
            return '\\cite%s{%s}' % ('[%s]' % inl(x[2]) if x[2] else '', ','.join(x[1])) if x[1] else ''
        if k == 'mp':
            return '\\marginpar{%s}' % inl(x[1])
        if k == 'math':
            return '$%s$' % x[1]
        if k == 'raw':
            return x[1]
        raise ValueError(x)

    def lab(s):
        return '\\label{%s}' % s if s else ''

    def block(b):
        k = b[0]
        if k == 'para':
            return inl(b[1]) + '\n'
        if k == 'list':
            out = '\\begin{%s}\n' % b[1]
            for term, l, bs in b[2]:
                out += '\\item%s%s %s' % ('[%s]' % inl(term) if term else '', lab(l), '\n'.join(block(x) for x in bs))
            return out + '\\end{%s}\n' % b[1]
        if k == 'env':
            return '\\begin{%s}\n%s\\end{%s}\n' % (b[1], '\n'.join(block(x) for x in b[2]), b[1])
        if k == 'proof':
            return '\\begin{proof}%s\n%s\\end{proof}\n' % ('[%s]' % inl(b[1]) if b[1] else '', '\n'.join(block(x) for x in b[2]))
        if k == 'table':
            t = '\\begin{tabular}{%s}\n%s\n\\end{tabular}\n' % (b[1], ' \\\\\n'.join(' & '.join(inl(c) for c in r) for r in b[2]))
            if not b[3]:
                return t
            c = '\\caption{%s}%s\n' % (inl(b[3]), lab(b[4]))
            return '\\begin{table}\n%s\\end{table}\n' % (c + t if b[5] == 'above' else t + c)
        if k == 'figure':
            return '\\begin{figure}\n%s\n\\caption{%s}%s\n\\end{figure}\n' % (inl(b[1]), inl(b[2]), lab(b[3]))
        if k == 'verbatim':
            return '\\begin{%s}\n%s\n\\end{%s}\n' % (b[1], '\n'.join(one(x) for x in b[2]), b[1])
        if k == 'thm':
            return '\\begin{%s}%s%s\n%s\\end{%s}\n' % (b[1], '[%s]' % inl(b[2]) if b[2] else '', lab(b[3]), '\n'.join(block(x) for x in b[4]), b[1])
        if k == 'equation':
            return '\\begin{equation}%s\n%s\n\\end{equation}\n' % (lab(b[1]), b[2])
        if k == 'align':
            return '\\begin{%s}\n%s\n\\end{%s}\n' % (b[1], ' \\\\\n'.join(s + lab(l) for l, s in b[2]), b[1])
        raise ValueError(b)

    out = '\\documentclass{%s}\n' % d['cls']
    f = d['feats']
    for feat, pkg in (('href', 'hyperref'), ('idx', 'makeidx'), ('thm', 'amsthm'), ('proof', 'amsthm'), ('align', 'amsmath')):
        if feat in f and '{%s}' % pkg not in out:
            out += '\\usepackage{%s}\n' % pkg
    if 'idx' in f:
        out += '\\makeindex\n'
    out += d.get('preamble', '')
    for env, name in zip(THMS, d['thm']):
        out += '\\newtheorem{%s}{%s}%s\n' % (env, inl(name), '[section]' if env == 'lem' else '')
    if d['title']:
        out += '\\title{%s}\n' % inl(d['title'])
        if d['author']:
            out += '\\author{%s}\n' % ' \\and '.join(inl(a) for a in d['author'])
        if d['date']:
            out += '\\date{%s}\n' % inl(d['date'])
        if d['thanks']:
            out += '\\thanks{%s}\n' % inl(d['thanks'])
    out += '\\begin{document}\n'
    if d['title']:
        out += '\\maketitle\n'
    if d['abstract']:
        out += '\\begin{abstract}\n%s\n\\end{abstract}\n' % inl(d['abstract'])
    if d['toc']:
        out += '\\tableofcontents\n'
    for i, u in enumerate(d['units']):
        if d['appendix'] and i == d['appendix']:
            out += '\\appendix\n'
        if u['name']:
            out += '\\%s%s%s{%s}%s\n\n' % (u['name'], '*' if u['star'] else '', '[%s]' % inl(u['short']) if u['short'] else '', inl(u['title']), lab(u['label']))
        out += '\n'.join(block(b) for b in u['blocks']) + '\n'
    if d['bib']:
        out += '\\begin{thebibliography}{9}\n'
        for key, l, t in d['bib']:
            out += '\\bibitem%s{%s} %s\n' % ('[%s]' % inl(l) if l else '', key, inl(t))
        out += '\\end{thebibliography}\n'
    if d['index']:
        out += '\\printindex\n'
    return out + '\\end{document}\n'
