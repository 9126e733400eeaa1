"""C14: links of a rendered document (Links.tla)."""
import json, os, re, shutil
from html.parser import HTMLParser
from vf import conform, docgen
from checks import c13

TRACE = 'LinksTrace'
FEATS = {'title', 'abstract', 'fn', 'idx', 'href', 'cite', 'mp', 'math', 'list', 'quote', 'center', 'table', 'figure', 'verbatim', 'thm', 'equation', 'align', 'proof', 'toc', 'ref', 'short', 'appendix'}
THEMES = [('HTML5', 'default')] * 4 + [('HTML5', 'minimal')] * 2 + [('XHTML', 'default')] * 3
VOID = {'br', 'img', 'link', 'meta', 'hr', 'input', 'use'}
BASES = ['', '', '', 'http://b.org/d', 'http://b.org/d/']


class Page(HTMLParser):
    """what a page has: identifiers (with the marks around them), links (with what they are), notes"""

    def __init__(self):
        HTMLParser.__init__(self)
        self.ids, self.links, self.notes, self.stack, self.marks = [], [], [], [], []
        self.ref, self.link, self.item, self.note, self.head = ('', 0), None, [], None, False

    def within(self, tag, cls):
        return any(t == tag and cls in (a.get('class') or '').split() for t, a in self.stack)

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag not in VOID:
            self.stack.append((tag, a))
        if re.fullmatch('h[1-6]', tag):
            self.head = a.get('id') not in (None, 'doc_title')
        names = [a['id']] if 'id' in a else []
        if tag == 'a' and a.get('name') and a['name'] not in names:
            names.append(a['name'])
        for x in names:
            self.ids.append([x, len(self.marks)])
        if tag == 'li' and self.foot():
            self.note = {'id': a.get('id', ''), 'words': []}
            self.notes.append(self.note)
        if tag == 'li' and not self.foot():
            self.item.append([])
        if tag == 'span' and 'index-item' in (a.get('class') or ''):
            self.item[-1] = []
        if tag == 'link' and a.get('rel') in ('next', 'prev', 'up'):
            self.links.append({'k': 'rel:' + a['rel'], 'n': 0, 'href': a.get('href', ''), 'text': '', 'at': ''})
        if tag == 'a' and 'href' in a:
            k, n = self.kind(a)
            self.link = {'k': k, 'n': n, 'href': a['href'] or '', 'text': '', 'at': ''}
            if k == 'page':
                self.link['at'] = '!'.join(w for i in self.item for w in i)
            self.links.append(self.link)

    def foot(self):
        return any(a.get('id') == 'footnotes' for t, a in self.stack[:-1])

    def kind(self, a):
        if self.ref[0]:
            return self.ref
        if a.get('class') == 'footnote':
            return 'fn', 0
        if self.within('nav', 'toc'):
            return 'toc', 0
        if self.within('nav', 'local_toc') or self.within('div', 'contents'):
            return 'local', 0
        if self.within('nav', 'prev_up_next') or self.within('div', 'navigation'):
            return 'nav', 0
        if self.within('ul', 'breadcrumbs') or self.within('div', 'breadcrumbs'):
            return 'crumb', 0
        if 'index-page' in (a.get('class') or '') or self.within('div', 'theindex'):
            return 'page', 0
        return 'other', 0

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.handle_endtag(tag)

    def handle_endtag(self, tag):
        if re.fullmatch('h[1-6]', tag):
            self.head = False
        if tag == 'li' and self.item and not self.foot():
            self.item.pop()
        if tag == 'li' and self.foot():
            self.note = None
        if tag == 'a':
            self.link = None
        for i in range(len(self.stack) - 1, -1, -1):
            if self.stack[i][0] == tag:
                del self.stack[i:]
                break

    def handle_data(self, data):
        for m in re.finditer(r'Q([a-z])(\d{3})q|R([rc])(\d+)([se])q|[^QR]+|.', data, re.S):
            k, n, rk, rn, se = m.groups()
            if k:
                w = m.group(0)
                if k == 'b' and self.note is None or k == 't' and self.head:
                    self.marks.append(w)
                if self.note is not None and k == 'f':
                    self.note['words'].append(w)
                if k in 'ik' and self.item and self.link is None:
                    self.item[-1].append(w)
            elif rk:
                self.ref = ({'r': 'ref', 'c': 'cite'}[rk], int(rn)) if se == 's' else ('', 0)
                continue
            if self.link is not None:
                self.link['text'] = self.link['text'] + m.group(0)

    def around(self):
        g = lambda i: self.marks[i] if 0 <= i < len(self.marks) else ''
        return [[x, g(i - 1), g(i)] for x, i in self.ids]


def target(href, base):
    """file and fragment of a link into the document"""
    if base:
        b = base.rstrip('/') + '/'
        if href.startswith(b):
            href = href[len(b):]
        elif not href.startswith('#'):
            return '?' + href, ''
    f, _, frag = href.partition('#')
    return f, frag


def events(d, words):
    """the document as Links.tla sees it"""
    ev, n, objs = [], [0], [0]
    pos = [p for _, p in d['leaves']]

    def marks(xs):
        return [y for x in xs for y in ([words[x[1]]] if x[0] == 't' else marks(x[2]))]
    text = lambda xs: ' '.join(words[x[1]] if x[0] == 't' else text(x[2]) for x in xs)

    def e(k, **kw):
        ev.append(dict(kw, k=k))
        return len(ev)

    def obj(k, **kw):
        objs[0] += 1
        return e(k, o=objs[0], **kw)

    def label(l):
        if l:
            e('label', l=l)

    def inl(xs, note=None):
        for x in xs or []:
            k = x[0]
            if k == 't' and pos[x[1]].split('/em')[0] in c13.BODY | {'footnote'}:
                if note is not None:
                    note.append(words[x[1]])
                else:
                    e('w', s=words[x[1]])
            elif k in ('em', 'href'):
                inl(x[2], note)
            elif k == 'fn':
                ws = []
                e('fn', ws=ws, list=False)
                inl(x[1], ws)
            elif k == 'mp':
                inl(x[1])
            elif k == 'idx':
                if len(x) == 2 or 'see' not in x[2]:
                    e('idx', p='!'.join(words[a[1]] for a, _ in x[1]))
            elif k == 'link' and x[1] == 'hypertarget':
                obj('anchor', l=x[2])
                inl(x[3])
            elif k == 'link' and (x[1] == 'hyperref' or x[2]):
                n[0] += 1
                e('ref', n=n[0], l=x[2], cmd=x[1], text=words[x[3][0][1]])
                inl(x[3])
            elif k == 'link':
                inl(x[3])
            elif k == 'fnm':
                ws = []
                e('fn', ws=ws, list=True)
                inl(x[1])
                inl(x[2], ws)
            elif k == 'ref' and x[1]:
                n[0] += 1
                e('ref', n=n[0], l=x[1], cmd=x[2], text='')
            elif k == 'cite' and x[1]:
                n[0] += 1
                e('cite', n=n[0], ls=x[1])
                inl(x[2])

    def block(b):
        k = b[0]
        if k == 'para':
            inl(b[1])
        elif k == 'list':
            e('list', n=b[1])
            for term, l, bs in b[2]:
                obj('item', opt=bool(term))
                inl(term)
                label(l)
                blocks(bs)
            e('endlist')
        elif k == 'env':
            blocks(b[2])
        elif k == 'proof':
            inl(b[1])
            blocks(b[2])
        elif k == 'table':
            fl = e('open')

            def cap():
                if b[3]:
                    obj('caption', c='table', star=False, float=fl)
                    inl(b[3])
                    label(b[4])
            if b[5] == 'above':
                cap()
            for r in b[2]:
                for c in r:
                    inl(c)
            if b[5] == 'below':
                cap()
            e('close')
        elif k == 'figure':
            fl = e('open')
            inl(b[1])
            obj('caption', c='figure', star=False, float=fl)
            inl(b[2])
            label(b[3])
            e('close')
        elif k == 'verbatim':
            inl(b[2])
        elif k == 'thm':
            obj('thm', n=b[1])
            inl(b[2])
            label(b[3])
            blocks(b[4])
            e('close')
        elif k == 'equation':
            obj('eqn')
            label(b[1])
            e('close')
        elif k == 'align':
            for i, (l, _) in enumerate(b[2]):
                obj('row' if i else 'eqn')
                label(l)
            e('close')

    def blocks(bs):
        for b in bs:
            block(b)
    e('unit', lev=-1000, vars=[['title', text(d['title'] or [])], ['name', 'document']], head=[], toc=[], index=False)
    if d['thm']:
        e('newtheorem', n='thm', star=False, shared='', within='')
        e('newtheorem', n='lem', star=False, shared='', within='section')
    if d['title']:
        for a in d['author']:
            inl(a)
        inl(d['date'])
    inl(d['abstract'])
    for i, u in enumerate(d['units']):
        if d['appendix'] and i == d['appendix']:
            e('appendix')
        if u['name']:
            h = marks(u['title'])
            e('unit', lev=u['level'], head=h, toc=[] if u['short'] else h, index=False,
              vars=([['id', u['label']]] if u['label'] else []) + [['title', text(u['title'])], ['name', u['name']]])
            obj('sec', c=u['name'], star=u['star'])
            label(u['label'])
        blocks(u['blocks'])
    for key, l, t in d['bib']:
        obj('bibitem', l=key, opt=bool(l), text=text(l or []))
        inl(t)
    if d['index']:
        e('unit', lev=1 if d['cls'] == 'article' else 0, head=[], toc=[], index=True, vars=[['title', 'Index'], ['name', 'printindex']])
    return ev


def text_of(s):
    return ' '.join(s.split())


def case(rng, work, size=(6, 3)):
    renderer, theme = rng.choice(THEMES)
    f = set(FEATS)
    if renderer == 'XHTML':
        f -= {'math'}
    for x in sorted(f):
        if rng.random() < .25:
            f.discard(x)
    g = docgen.Gen(rng, f)
    d = g.document(rng.choice(['article', 'article', 'book', 'report']), size[0], size[1])
    words, pool = [], rng.choice([3, 8, 900])
    for i, (k, p) in enumerate(g.leaves):
        p = p.split('/em')[0]
        if p == 'href/url' or p == 'url':
            words.append('http://x.org/Qx%03dq' % i)
        elif p == 'index':
            words.append('Qi%03dq' % rng.randrange(pool))
        elif p == 'index/shown':
            words.append('')
        else:
            words.append('Q%s%03dq' % ('t' if p == 'section' else 'f' if p == 'footnote' else 'b' if p in c13.BODY else 'x', i))
    t = rng.choice([([[c13.L('index')]], [[c13.V('id')], [c13.L('sect'), c13.V('num', 4)]]), ([[c13.L('index')]], [[c13.L('p'), c13.V('num')]]), ([[c13.V('jobname')]], [])])
    return {'doc': enrich(rng, d, words, renderer == 'HTML5'), 'words': words, 'renderer': renderer, 'theme': theme, 'static': t[0], 'wild': t[1], 'base': rng.choice(BASES),
            'split': rng.choice([-10, -1, 0, 1, 1, 2, 2, 2, 3, 4, 6]), 'tocdepth': rng.choice([0, 1, 2, 3, 3, 6, 6]), 'nonfiles': rng.random() < .5, 'work': work}


def leaf(d, words, where):
    d['leaves'].append(['text', where])
    words.append('Q%s%03dq' % ('f' if where == 'footnote' else 'x' if where == 'x' else 'b', len(words)))
    return ['t', len(words) - 1]


def enrich(rng, d, words, h5):
    """further kinds of links; entries of the index are shown as they are sorted"""
    hyper, ams, anchors = 'href' in d['feats'], 'align' in d['feats'], []

    def inl(xs, fn=False):
        out = []
        for x in xs:
            r = rng.random()
            if x[0] == 'idx':
                x = ['idx', [[a, None] for a, _ in x[1]]] + ([rng.choice(['|see{Qx999q}', '|textbf', '|seealso{Qx999q}'])] if r < .25 else [])
            elif x[0] == 'ref' and x[1]:
                if hyper and r < .2:
                    x = ['link', 'hyperref', x[1], [leaf(d, words, 'href/text')]]
                elif hyper and r < .35:
                    x = ['ref', x[1], 'autoref']
                elif ams and r < .5:
                    x = ['ref', x[1], 'eqref']
            elif x[0] == 'fn':
                if r < .2:
                    x = ['fnm', [leaf(d, words, 'para')], x[1]]
                elif r < .5 and d['labels']:
                    x = ['fn', x[1] + [['ref', rng.choice(d['labels']), rng.choice(['ref', 'pageref'])]]]
            elif x[0] in ('em', 'href'):
                x = x[:2] + [inl(x[2])]
            out.append(x)
            if hyper and 'ref' in d['feats'] and r > .9:
                if r > .96:
                    anchors.append('h%d' % len(anchors))
                    out.append(['link', 'hypertarget', anchors[-1], [leaf(d, words, 'href/text')]])
                elif r > .93:
                    out.append(['link', 'hyperlink', None, [leaf(d, words, 'href/text')]])
        return out

    def block(b):
        k = b[0]
        if k == 'para':
            b[1] = inl(b[1])
        elif k == 'list':
            for it in b[2]:
                for x in it[2]:
                    block(x)
        elif k in ('env', 'proof'):
            for x in b[2]:
                block(x)
        elif k == 'thm':
            for x in b[4]:
                block(x)
        elif k == 'table' and b[3] and h5 and d['labels'] and rng.random() < .3:
            b[3] = b[3] + [['ref', rng.choice(d['labels']), 'ref']]
        elif k == 'figure' and h5 and d['labels'] and rng.random() < .3:
            b[2] = b[2] + [['ref', rng.choice(d['labels']), 'ref']]
    d = json.loads(json.dumps(d))
    if d['abstract']:
        d['abstract'] = inl(d['abstract'])
    for u in d['units']:
        for b in u['blocks']:
            block(b)

    def drop(x):                            # links to anchors there are
        if isinstance(x, list):
            if len(x) == 4 and x[:2] == ['link', 'hyperlink']:
                x[2] = rng.choice(anchors) if anchors else ''
            for y in x:
                drop(y)
        elif isinstance(x, dict):
            for y in x.values():
                drop(y)
    drop(d['units'])
    drop(d['abstract'])
    return d


def source(case):
    n = [0]

    def mark(m):
        n[0] += 1
        k = 'c' if m.group(1) == 'cite' else 'r'
        return 'R%s%dsq %s R%s%deq' % (k, n[0], m.group(0), k, n[0])
    s = docgen.latex(case['doc'], lambda n: case['words'][n]).replace('\\hyperlink{}', '')
    return re.sub(r'\\(ref|pageref|eqref|autoref|cite)(\[[^\]]*\])?\{[^}]*\}|\\(hyperref\[[^\]]*\]|hyperlink\{h\d+\})\{[^}]*\}', mark, s)


def observe(case):
    from vf import render as R
    base = os.path.join(case['work'], 'l%d' % os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        with open(os.path.join(base, 'doc.tex'), 'w', encoding='utf-8') as f:
            f.write(source(case))
        cfg = R.config(case['renderer'], general__theme=case['theme'], files__split_level=case['split'], files__filename=c13.spell_template((case['static'], case['wild'])),
                       document__base_url=case['base'], document__toc_depth=case['tocdepth'], document__toc_non_files=case['nonfiles'], document__sec_num_depth=10, general__copy_theme_extras=False)
        R.run(os.path.join(base, 'doc.tex'), os.path.join(base, 'out'), cfg)
        files = []
        for n, s in sorted(R.html_files(os.path.join(base, 'out')).items()):
            p = Page()
            p.feed(s)
            p.close()
            links = []
            for x in p.links:
                h = x.pop('href')
                if h.startswith('http://x.org/'):
                    continue
                x['file'], x['frag'] = target(h, case['base'])
                x['text'] = text_of(x['text'])
                x['tail'] = x['text'].split(' ')[-1]
                x['title'] = x['k'] in ('toc', 'local', 'crumb')
                x['words'] = re.findall(r'Qt\d{3}q', x['text'])
                links.append(x)
            files.append({'name': n, 'ids': p.around(), 'links': links, 'notes': p.notes})
        return {'files': files}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def rand_case(rng, size=None, work='/tmp/q/w14'):
    os.makedirs(work, exist_ok=True)
    c = case(rng, work)
    c['src'] = source(c)
    return c


def mktrace(case, obs):
    h5 = case['renderer'] == 'HTML5'
    return {'static': case['static'], 'wild': case['wild'], 'conf': {'ext': '.html', 'bad': c13.DEFAULT_BAD, 'rep': '-'}, 'jobname': 'doc', 'split': case['split'], 'cls': case['doc']['cls'],
            'tocdepth': case['tocdepth'], 'nonfiles': case['nonfiles'], 'toc': '' if case['theme'] != 'default' else 'all' if h5 else 'local', 'tocmax': 0 if h5 else 5,
            'nav': case['theme'] == 'default', 'crumbs': not h5, 'events': events(case['doc'], case['words']), 'exc': obs.get('exc', ''), 'files': obs.get('files', [])}


def skeleton(g, shape):
    """a document of the model: unit | w | ref | fn | idx | thm"""
    lv = {1: 'section', 2: 'subsection'}
    d = {'cls': 'article', 'feats': sorted(g.feats), 'title': None, 'author': [], 'date': None, 'thanks': None, 'abstract': None, 'bib': [], 'appendix': 0, 'index': any(p[0] == 'idx' for p in shape), 'toc': False}
    units = [{'name': '', 'level': -99, 'blocks': []}]
    nlab = [p[0] in ('unit', 'thm') for p in shape]
    n = 0
    for p in shape:
        if p[0] in ('unit', 'thm'):
            n += 1
        if p[0] == 'unit':
            units.append({'name': lv[p[1]], 'level': p[1], 'star': False, 'title': [g.leaf('text', 'section')], 'short': None, 'label': 'l:%d' % n, 'blocks': []})
        elif p[0] == 'thm':
            units[-1]['blocks'].append(['thm', 'thm', None, 'l:%d' % n, [['para', [g.leaf('text', 'para')]]]])
        else:
            x = {'w': lambda: g.leaf('text', 'para'), 'ref': lambda: ['ref', 'l:%d' % p[1], 'ref'], 'fn': lambda: ['fn', [g.leaf('text', 'footnote')]], 'idx': lambda: ['idx', [[g.leaf('index', 'index'), None]]]}[p[0]]()
            units[-1]['blocks'].append(['para', [x]])
    d['thm'] = [[g.leaf('text', 'thm/name')], [g.leaf('text', 'thm/name')]]
    d['units'], d['leaves'], d['labels'] = units, g.leaves, ['l:%d' % i for i in range(1, sum(nlab) + 1)]
    return d


def shaped(rng, work, shape):
    c = case(rng, work)
    renderer, theme = rng.choice(THEMES)
    g = docgen.Gen(rng, {'thm', 'ref', 'idx', 'fn'})
    d = skeleton(g, shape)
    words = ['Qi000q' if p == 'index' else 'Q%s%03dq' % ('t' if p == 'section' else 'f' if p == 'footnote' else 'b' if p in c13.BODY else 'x', i) for i, (_, p) in enumerate(g.leaves)]
    return dict(c, doc=d, words=words, renderer=renderer, theme=theme, split=rng.choice([-10, 1, 1, 2, 2]))


def describe(c):
    return '%s/%s split %d %s base %r toc %d%s: %s' % (c['renderer'], c['theme'], c['split'], c13.spell_template((c['static'], c['wild'])), c['base'], c['tocdepth'], '' if c['nonfiles'] else ' files only', source(c)[-300:])


def corrupt(rng, t):
    fs = [f for f in t['files'] if f['links']]
    if not fs:
        return None
    f = rng.choice(fs)
    ls = [x for x in f['links'] if x['k'] in ('ref', 'cite', 'fn', 'page', 'toc', 'local', 'crumb')]
    l = rng.choice(ls or f['links'])
    x = rng.randrange(6)
    if x == 0:
        l['file'] = 'nowhere.html'
    elif x == 1:
        l['frag'] = l['frag'] + 'x'
    elif x == 2 and l['k'] in ('ref', 'cite', 'fn'):
        l['text'] = l['tail'] = '77'
    elif x == 3 and ls:
        f['links'].remove(l)
    elif x == 4 and f['ids']:
        f['ids'].append(list(rng.choice(f['ids'])))
    elif x == 5 and len(t['files']) > 1 and ls and l['k'] != 'fn':
        l['file'], l['frag'] = [g['name'] for g in t['files'] if g['name'] != (l['file'] or f['name'])][0], ''
    else:
        return None
    return t


def run(ck):
    rng = ck.rng
    fn = os.path.join(ck.work, 'shapes.json')
    ck.model('MC_Links', 'MC_Links1.cfg' if ck.thorough else 'MC_Links0.cfg', env={'OUT': fn}, timeout=800, expect_states=4000)
    shapes = [s for s in json.load(open(fn))['shapes'] if any(p[0] in ('ref', 'idx', 'fn', 'unit') for p in s)]
    shapes = rng.sample(shapes, 8000 if ck.thorough else 450)
    cases = [shaped(rng, ck.work, s) for s in shapes]
    n = len(cases)
    cases += [case(rng, ck.work, (rng.choice([2, 6, 9]), 3)) for _ in range(4500 if ck.thorough else 650)]
    good = conform.run(ck, TRACE, cases, observe, mktrace, describe, corrupt, chunk=8, batch=300)
    ck.cov['documents_from_model_shapes'] = n
    ck.cov['random_documents'] = len(cases) - n
    ck.cov['links_checked'] = sum(len(f['links']) for t in good for f in t['files'])
    ck.cov['kinds_of_links'] = sorted({l['k'] for t in good for f in t['files'] for l in f['links']})
    ck.cov['configurations'] = len({(c['renderer'], c['theme'], c['split'], c['tocdepth'], c['nonfiles'], c['base']) for c in cases})
    ck.assumptions += ['labels refer to numbered objects or nothing', 'a label follows its object', 'no references in section titles; in captions of HTML5 pages only', 'a \\footnotetext follows its \\footnotemark']
