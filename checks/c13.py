"""C13: the files of a rendered document (Split.tla)."""
import json, os, re, shutil
from html.parser import HTMLParser
from vf import conform, docgen

TRACE = 'SplitTrace'
FEATS = {'title', 'abstract', 'fn', 'idx', 'verb', 'href', 'cite', 'mp', 'math', 'list', 'quote', 'center', 'table', 'figure', 'verbatim', 'thm', 'equation', 'proof', 'toc', 'sym', 'ref', 'short', 'appendix'}
THEMES = [('HTML5', 'default')] * 3 + [('HTML5', 'minimal')] * 2 + [('XHTML', t) for t in ('default', 'plain', 'minimal', 'python')]
BODY = {'para', 'item', 'term', 'cell', 'figure', 'caption', 'bib', 'marginpar', 'cite/note', 'verb', 'verbatim', 'proof/title', 'thm/title', 'abstract', 'author', 'date', 'href/text'}
L = lambda s: {'k': 'lit', 's': s}
V = lambda n, w=-1: {'k': 'var', 's': n, 'w': w}
DEFAULT_BAD = ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.'
SUFFIX = ['', '', '', '', ':x', '?', '.v', '(a)', '*', '=b', '<i>', '"', ';', 'x|y']


def show(pieces):
    out = ''
    for i, p in enumerate(pieces):
        if p['k'] == 'lit':
            out += p['s']
        else:
            nxt = pieces[i + 1]['s'] if i + 1 < len(pieces) and pieces[i + 1]['k'] == 'lit' else ''
            w = '' if p['w'] < 0 else '(%d)' % p['w']
            out += '${%s%s}' % (p['s'], w) if not w and nxt[:1].isalnum() or nxt[:1] == '_' else '$%s%s' % (p['s'], w)
    return out


def template(rng):
    """static templates, alternatives of the bracketed one"""
    r = rng.random()
    if r < .3:
        return [[L('index')]], [[V('id')], [L('sect'), V('num', 4)]]
    if r < .42:
        return [[rng.choice([L('index'), V('jobname'), L('all.htm')])]], []
    if r < .55:
        return [[L('index')], [L('p'), V('num', rng.choice([-1, 1, 3]))]], []
    alts = rng.sample([[V('id')], [V('title')], [V('title', 2)], [V('title', 1), L('-'), V('name')], [V('name')], [V('jobname'), L('_'), V('id')], [L('x-'), V('title', 3)]], rng.randint(0, 3))
    return [[L(n)] for n in rng.sample(['index', 'toc', 'start.html'], rng.randint(0, 2))], alts + [rng.choice([[L('f'), V('num')], [V('num', 3)], [V('name'), V('num')], [V('jobname'), L('-'), V('num', 2)]])]


def spell_template(t):
    static, wild = t
    return ' '.join([show(p) for p in static] + (['[' + ', '.join(show(p) for p in wild) + ']'] if wild else []))


def events(d, words):
    """the document as Split.tla sees it: every piece of body text, footnote and heading in document order"""
    ev = [{'k': 'unit', 'lev': -1000, 'vars': [['name', 'document']], 'head': []}]
    pos = [p for _, p in d['leaves']]
    text = lambda xs: ' '.join(words[x[1]] if x[0] == 't' else text(x[2]) for x in xs)

    def marks(xs):
        out = []
        for x in xs:
            out += [m(words[x[1]])] if x[0] == 't' else marks(x[2])
        return out

    def m(w):
        return re.search(r'Q[tbf]\d{3}q', w).group(0)

    def inl(xs, kind='w'):
        for x in xs or []:
            one(x, kind)

    def one(x, kind):
        k = x[0]
        if k == 't' and pos[x[1]].split('/em')[0] in BODY | {'footnote'}:
            ev.append({'k': kind, 's': m(words[x[1]])})
        elif k == 'em':
            inl(x[2], kind)
        elif k == 'fn':
            inl(x[1], 'f')
        elif k == 'verb':
            one(x[1], kind)
        elif k == 'href':
            inl(x[2], kind)
        elif k == 'cite' and x[1]:
            inl(x[2], kind)
        elif k == 'mp':
            inl(x[1], kind)

    def block(b):
        k = b[0]
        if k == 'para':
            inl(b[1])
        elif k == 'list':
            for term, _, bs in b[2]:
                inl(term)
                blocks(bs)
        elif k == 'env':
            blocks(b[2])
        elif k == 'proof':
            inl(b[1])
            blocks(b[2])
        elif k == 'table':
            if b[3] and b[5] == 'above':
                inl(b[3])
            for r in b[2]:
                for c in r:
                    inl(c)
            if b[3] and b[5] == 'below':
                inl(b[3])
        elif k == 'figure':
            inl(b[1])
            inl(b[2])
        elif k == 'verbatim':
            inl(b[2])
        elif k == 'thm':
            inl(b[2])
            blocks(b[4])

    def blocks(bs):
        for b in bs:
            block(b)
    ev[0]['vars'].insert(0, ['title', text(d['title'] or [])])
    if d['title']:
        for a in d['author']:
            inl(a)
        inl(d['date'])
    inl(d['abstract'])
    for u in d['units']:
        if u['name']:
            ev.append({'k': 'unit', 'lev': u['level'], 'head': marks(u['title']),
                       'vars': ([['id', u['label']]] if u['label'] else []) + [['title', text(u['title'])], ['name', u['name']]]})
        blocks(u['blocks'])
    for _, _, t in d['bib']:
        inl(t)
    if d['index']:
        ev.append({'k': 'unit', 'lev': 1 if d['cls'] == 'article' else 0, 'head': [], 'vars': [['title', 'Index'], ['name', 'printindex']]})
    return ev


def case(rng, work, size=(6, 3), shape=None):
    renderer, theme = rng.choice(THEMES)
    f = set(FEATS)
    if renderer == 'XHTML':
        f -= {'math', 'equation', 'align'}
    for x in sorted(f):
        if rng.random() < .3:
            f.discard(x)
    g = docgen.Gen(rng, f)
    d = g.document(rng.choice(['article', 'article', 'book', 'report']), size[0], size[1]) if shape is None else skeleton(rng, g, shape)
    words = []
    for i, (k, p) in enumerate(g.leaves):
        p = p.split('/em')[0]
        c = 't' if p == 'section' else 'f' if p == 'footnote' else 'b' if p in BODY else 'x'
        words.append('Q%s%03dq' % (c, i) + (rng.choice(SUFFIX) if p in ('section', 'title') else ''))
    r = rng.random()
    bad, rep = (DEFAULT_BAD, '-') if r < .6 else (': ?*', '_') if r < .8 else (':', '') if r < .9 else ('', '-')
    t = template(rng)
    return {'doc': d, 'words': words, 'renderer': renderer, 'theme': theme, 'static': t[0], 'wild': t[1], 'bad': bad, 'rep': rep,
            'split': rng.choice([-10, -1, 0, 1, 1, 2, 2, 2, 3, 4, 6]), 'work': work}


def skeleton(rng, g, shape):
    """a document of the model: [unit, level, labelled] | [w] | [f]"""
    lv = {0: 'section', 1: 'subsection', 2: 'subsubsection'}
    d = {'cls': 'article', 'feats': sorted(g.feats), 'title': None, 'author': [], 'date': None, 'thanks': None, 'abstract': None, 'thm': [], 'bib': [], 'appendix': 0, 'index': False, 'toc': False}
    units = [{'name': '', 'level': -99, 'blocks': []}]
    for i, e in enumerate(shape):
        if e[0] == 'unit':
            units.append({'name': lv[e[1]], 'level': e[1] + 1, 'star': False, 'title': [g.leaf('text', 'section')], 'short': None, 'label': 'l:%d' % i if e[2] else '', 'blocks': []})
        else:
            units[-1]['blocks'].append(['para', [g.leaf('text', 'para')] if e[0] == 'w' else [['fn', [g.leaf('text', 'footnote')]]]])
    d['thm'] = [[g.leaf('text', 'thm/name')], [g.leaf('text', 'thm/name')]] if 'thm' in g.feats else []
    d['units'], d['leaves'], d['labels'] = units, g.leaves, []
    return d


TEX = {'&': '\\&', '#': '\\#', '%': '\\%'}


def source(case):
    return docgen.latex(case['doc'], lambda n: ''.join(TEX.get(c, c) for c in case['words'][n]))


class Marks(HTMLParser):
    """the marked pieces of a page: body text, headings of units, notes"""
    VOID = {'br', 'img', 'link', 'meta', 'hr', 'input'}

    def __init__(self):
        HTMLParser.__init__(self)
        self.seq, self.head = [], None

    def handle_starttag(self, tag, attrs):
        if re.fullmatch('h[1-6]', tag):
            self.head = dict(attrs).get('id') not in (None, 'doc_title')
        elif tag in ('title', 'nav', 'header', 'ul'):
            pass

    def handle_endtag(self, tag):
        if re.fullmatch('h[1-6]', tag):
            self.head = None

    def handle_data(self, data):
        for k, n in re.findall(r'Q([tbf])(\d{3})q', data):
            if k == 't':
                if self.head:
                    self.seq.append(['h', 'Qt%sq' % n])
            else:
                self.seq.append(['w' if k == 'b' else 'f', 'Q%s%sq' % (k, n)])


def observe(case):
    from vf import render as R
    import plasTeX.Renderers as PR
    base = os.path.join(case['work'], 's%d' % os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        with open(os.path.join(base, 'doc.tex'), 'w', encoding='utf-8') as f:
            f.write(source(case))
        cfg = R.config(case['renderer'], general__theme=case['theme'], files__split_level=case['split'], files__filename=spell_template((case['static'], case['wild'])),
                       files__bad_chars_sub=case['rep'], general__copy_theme_extras=False, **({} if case['bad'] == DEFAULT_BAD else {'files__bad_chars': case['bad']}))
        issued = []
        old = PR.Renderer.cleanup

        def cleanup(self, document, files, postProcess=None):
            issued.extend(self.files.values())
            return old(self, document, files, postProcess)
        PR.Renderer.cleanup = cleanup
        R.run(os.path.join(base, 'doc.tex'), os.path.join(base, 'out'), cfg)
        files = []
        for b, ds, fs in os.walk(os.path.join(base, 'out')):
            if b == os.path.join(base, 'out'):
                ds[:] = [x for x in ds if x not in ('styles', 'js', 'icons', 'images')]
            for fn in fs:
                if not fn.endswith(('.css', '.svg', '.paux')):
                    p = os.path.join(b, fn)
                    m = Marks()
                    m.feed(open(p, encoding='utf-8').read())
                    m.close()
                    files.append({'name': os.path.relpath(p, os.path.join(base, 'out')), 'seq': m.seq})
        return {'files': files, 'issued': issued}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def mktrace(case, obs):
    exc = obs.get('exc', '')
    return {'static': case['static'], 'wild': case['wild'], 'conf': {'ext': '.html', 'bad': case['bad'], 'rep': case['rep']}, 'jobname': 'doc', 'split': case['split'],
            'events': events(case['doc'], case['words']), 'exc': exc, 'files': obs.get('files', []), 'issued': obs.get('issued', [])}


def rand_case(rng, size=None, work='/tmp/q/w13'):
    os.makedirs(work, exist_ok=True)
    c = case(rng, work)
    c['src'] = source(c)
    return c


def describe(c):
    return '%s/%s split %d %s: %s' % (c['renderer'], c['theme'], c['split'], spell_template((c['static'], c['wild'])), source(c)[-300:])


def corrupt(rng, t):
    fs = [f for f in t['files'] if f['seq']]
    if not fs:
        return None
    f = rng.choice(fs)
    i = rng.randrange(len(f['seq']))
    x = rng.randrange(5)
    if x == 0:
        del f['seq'][i]
    elif x == 1:
        f['seq'].insert(i, list(f['seq'][i]))
    elif x == 2 and len(f['seq']) > 1:
        i = rng.randrange(len(f['seq']) - 1)
        f['seq'][i], f['seq'][i + 1] = f['seq'][i + 1], f['seq'][i]
    elif x == 3:
        t['files'].remove(f)
    else:
        f['name'] = 'q' + f['name']
    return t


def run(ck):
    rng = ck.rng
    fn = os.path.join(ck.work, 'shapes.json')
    ck.model('MC_Split', 'MC_Split1.cfg' if ck.thorough else 'MC_Split0.cfg', env={'OUT': fn}, timeout=700, expect_states=10000)
    shapes = [s for s in json.load(open(fn))['shapes']]
    if not ck.thorough:
        shapes = rng.sample(shapes, 700)
    cases = [case(rng, ck.work, shape=s) for s in shapes]
    cases += [case(rng, ck.work, (rng.choice([2, 6, 9]), 3)) for _ in range(2500 if ck.thorough else 450)]
    conform.run(ck, TRACE, cases, observe, mktrace, describe, corrupt, chunk=8, batch=300)
    ck.cov['documents_from_model_shapes'] = len(shapes)
    ck.cov['random_documents'] = len(cases) - len(shapes)
    ck.cov['configurations'] = len({(c['renderer'], c['theme'], c['split'], spell_template((c['static'], c['wild'])), c['bad']) for c in cases})
    ck.assumptions += ['no text follows \\printindex; formulas are left out of XHTML documents', 'templates of the normal form of C15']
