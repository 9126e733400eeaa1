"""C18: the index, against Index.tla."""
import json, os, re, shutil, tempfile
from vf import pool, render

# atom -> (LaTeX source, text in a sort key, what a displayed key shows)
ALIAS = {'<_:>': '_', '<":o>': 'ö'}
SPECIAL = '!@|"'
ATOMS = {c: (c, c, c) for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-(){}=*.,:?' + SPECIAL}
ATOMS.update({
    'sp': (' ', ' ', ' '), 'us': ('\\_', '_', '<_:>'), 'eacute': ('é', 'é', 'é'), 'Eacute': ('É', 'É', 'É'), 'ouml': ('\\"o', 'ö', '<":o>'), 'aring': ('å', 'å', 'å'),
    'ae': ('æ', 'æ', 'æ'), 'AE': ('Æ', 'Æ', 'Æ'), 'oe': ('œ', 'œ', 'œ'), 'ss': ('ß', 'ß', 'ß'), 'lstroke': ('ł', 'ł', 'ł'), 'Ccedil': ('Ç', 'Ç', 'Ç'), 'ntilde': ('ñ', 'ñ', 'ñ'),
    'mx': ('$x$', 'x', '<math:x>'), 'bfk': ('\\textbf{k}', 'k', '<textbf:k>'), 'emk': ('\\emph{k}', 'k', '<emph:k>'), 'tt': ('\\texttt{t}', 't', '<texttt:t>'), 'mac': ('\\Mc ', 'mc', 'mc'),
    'ar': ('→', '→', '→'), 'eur': ('€', '€', '€')})
BASE = {'é': 'E', 'É': 'E', 'ö': 'O', 'å': 'A', 'æ': 'A', 'Æ': 'A', 'œ': 'O', 'ß': 'S', 'ł': 'L', 'Ç': 'C', 'ñ': 'N'}


def head(text):
    c = text[:1]
    if c == '_':
        return '_ (Underscore)'
    c = BASE.get(c, c.upper())
    return c if 'A' <= c <= 'Z' else 'Symbols'


def fold(s):
    return ''.join(c if ord(c) < 128 else '~%x;' % ord(c) for c in s)


def W(s):
    """'\\eacute t \\eacute' style word -> atoms: names are in <>"""
    return [x for x in re.findall(r'<(\w+)>|(.)', s) for x in x if x]


WORDS = [W(x) for x in ['a', 'A', 'b', 'B', 'ab', 'Ab', 'aB', 'aa', '<eacute>t<eacute>', '<Eacute>t', 'eta', 'e', 'E', 'zed', 'Zed', '10', '9', '-x', '+', '<us>y', '<us>', '<mx>', '<ae>on', '<AE>on', 'ad', 'af',
                        '<oe>uf', 'of', 'oe', '<ss>t', 'st', 'ss', 'x!', '!', 'u@v', 'p|q', 'd"', 'a<sp>b', 'a-b', '<bfk>', '<emk>', 'k', '<ouml>l', 'ol', 'oz', '<aring>', '<lstroke>o', 'lo', 'lz',
                        '<Ccedil>a', 'ca', 'cz', 'n', '<ntilde>', 'nz', '<tt>', 't', '<mac>', 'mc', '*', '=', 'abc', 'abcd', 'ABC', '(a)', '<ar>a', '<eur>']]
FORMATS = [W(x) for x in ['textbf', 'emph', 'see{w}', 'seealso{w<sp>v}', '(', ')', 'see{a"!b}', 'see{a!b}', 'see{a@b}', 'textit', '', 'see{<eacute>}', 'see{<bfk>}', '(textbf']]


def spell(w):
    out = []
    for a in w:
        if a in SPECIAL:
            out.append('"')
        out.append(a)
    return out


def raw(path, fmt):
    """path: [(sort word or None, displayed word)]"""
    out = []
    for i, (s, d) in enumerate(path):
        if i:
            out.append('!')
        if s is not None:
            out += spell(s) + ['@']
        out += spell(d)
    if fmt is not None:
        out += ['|'] + fmt
    return out


def src(atoms):
    return ''.join(ATOMS[a][0] for a in atoms)


def text(w):
    return ''.join(ATOMS[a][1] for a in w)


# where an entry can stand; %s is the marker and the entry
PLACES = {
    'par': '%s\n\n', 'inline': 'some %s text\n', 'section': '\\section{T %s}\n', 'subsection': '\\subsection{%s U}\n', 'caption': '\\begin{table}T\\caption{C %s c}\\end{table}\n',
    'foot': 'w\\footnote{F %s}\n', 'item': '\\begin{itemize}\\item %s\\item x\\end{itemize}\n', 'cell': '\\begin{tabular}{ll}%s& b\\\\c&d\\end{tabular}\n',
    'cell2': '\\begin{tabular}{ll}a&b\\\\c&%s\\end{tabular}\n', 'mac': '\\Use{%s}\n', 'thm': '\\begin{thm}%s\\end{thm}\n', 'group': '{\\bfseries %s}\n', 'bf': '\\textbf{B %s}\n',
    'quote': '\\begin{quote}%s\\end{quote}\n', 'desc': '\\begin{description}\\item[L] %s\\end{description}\n', 'star': '\\section*{%s}\n', 'center': '\\begin{center}%s\\end{center}\n'}
MATH = {'eq': '\\begin{equation}x %s\\end{equation}\n', 'math': 'm $y %s$\n'}


def document(case):
    out = ['\\documentclass{%s}\\usepackage{makeidx}\\makeindex\\newtheorem{thm}{Theorem}\\newcommand\\Use[1]{[#1]}\\newcommand\\Mc{mc}\\begin{document}\n' % case['cls']]
    for k, (place, atoms) in enumerate(case['entries'], 1):
        if case['print'] == k - 1:
            out.append('\\printindex\n')
        if place in MATH:
            out.append(MATH[place] % ('z_{%d}\\index{%s}' % (k, src(atoms))))
        else:
            out.append(PLACES[place] % ('q%d\\index{%s}' % (k, src(atoms))))
    if case['print'] >= len(case['entries']):
        out.append('\\printindex\n')
    return ''.join(out) + '\\end{document}\n'


def sig(node):
    """what a key shows: characters, and the macros around them"""
    if node.nodeType == node.TEXT_NODE:
        return str(node)
    inner = ''.join(sig(c) for c in node.childNodes)
    if node.nodeType == node.DOCUMENT_FRAGMENT_NODE or node.nodeName in ('bgroup', 'Mc'):
        return inner
    if not node.hasChildNodes():
        return node.textContent
    return '<%s:%s>' % (node.nodeName, inner)


def show(nodes):
    return ''.join(sig(n) for n in nodes)


def occurrences(doc):
    out = {}
    for n in doc.getElementsByTagName('index'):
        p, before = n.previousSibling, ''
        while p is not None and len(before.strip()) < 5:
            p, before = p.previousSibling, p.textContent + before
        m = re.search(r'(\d+)\s*$', before)
        out[id(n)] = int(m.group(1)) if m else -1
    return out


def dom_event(doc):
    occ = occurrences(doc)
    pi = doc.getElementsByTagName('printindex')[0]

    def line(x):
        return {'s': fold(str(x.sortkey)), 'd': fold(show(x.key)),
                'pages': [[occ.get(id(p._cr_node), 0), 'see' if p.see else 'seealso' if p.seealso else 'page'] for p in x.pages], 'kids': [line(y) for y in x]}
    nums = {id(x): i for i, x in enumerate(pi, 1)}
    return {'k': 'dom', 'tree': [line(x) for x in pi], 'groups': [{'title': str(g.title), 'cols': [[nums.get(id(x), 0) for x in c] for c in g]} for g in pi.groups]}


def html_event(pages, keys):
    """the index as a reader sees it; keys: what is shown -> (sort key, display), of unambiguous keys"""
    from bs4 import BeautifulSoup
    soups = {n: BeautifulSoup(t, 'html.parser') for n, t in pages.items()}
    where = [n for n, s in soups.items() if s.select('section.theindex')]
    if len(where) != 1:
        return {'k': 'exc', 'what': 'index on %d pages' % len(where)}
    anchors = {}
    for n, t in pages.items():
        for m in re.finditer(r'(?:q|z_\{)(\d+)\}?\s*<a name="([^"]*)" id="\2">', t):
            anchors.setdefault((n, m.group(2)), int(m.group(1)))

    def line(li):
        t = re.sub(r'\s+', ' ', li.find('span', 'index-item', recursive=False).get_text())
        s, d = keys.get(t.strip(), ('?' + t, '?' + t))
        ps = []
        for a in li.find_all(['a', 'span'], recursive=False):
            if not any(c.startswith('index-page') for c in a.get('class', [])):
                continue
            i = a.find('i')
            kind = {'see': 'see', 'see also': 'seealso'}.get(i.get_text().strip() if i else '', 'page')
            href = a.get('href') or ''
            f, _, frag = href.partition('#')
            ps.append([anchors.get((f or where[0], frag), 0) if kind == 'page' else -1, kind])
        return {'s': s, 'd': d, 'pages': ps, 'kids': [line(x) for u in li.find_all('ul', recursive=False) for x in u.find_all('li', recursive=False)]}
    tree, groups = [], []
    for sec in soups[where[0]].select('section.theindex'):
        g = {'title': sec.find('h2').get_text().strip(), 'cols': []}
        for ul in sec.find_all('ul', recursive=False):
            c = []
            for li in ul.find_all('li', recursive=False):
                tree.append(line(li))
                c.append(len(tree))
            g['cols'].append(c)
        groups.append(g)
    return {'k': 'html', 'tree': tree, 'groups': groups}


def observe(case):
    from plasTeX.TeX import TeX
    ev = []
    t = TeX()
    t.ownerDocument.config['document']['index-columns'] = case['cols']
    t.input(document(case))
    doc = t.parse()
    ev.append(dom_event(doc))
    if case['html']:
        wd = tempfile.mkdtemp(dir=case['work'])
        try:
            p = os.path.join(wd, 'd.tex')
            open(p, 'w').write(document(case))
            out = os.path.join(wd, 'out')
            render.run(p, out, render.config('HTML5', document__index_columns=case['cols']))
            e = html_event(render.html_files(out), case['keys'])
            # a cross reference does not link anywhere: take the occurrences as they are in the document
            if e['k'] == 'html':
                # (an occurrence inside a formula has no anchor)
                fill(e['tree'], ev[0]['tree'], [k for k, (pl, _) in enumerate(case['entries'], 1) if pl in MATH])
            ev.append(e)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    return ev


def fill(tree, ref, math):
    for x, y in zip(tree, ref):
        for p, q in zip(x['pages'], y['pages']):
            if p[1] == q[1] and (p[0] == -1 or p[0] == 0 and q[0] in math):
                p[0] = q[0]
        fill(x['kids'], y['kids'], math)


def env(case):
    sorts = sorted({text(w) for e in case['paths'] for s, d in e for w in [d if s is None else s]})
    from pyuca.collator import Collator_10_0_0
    global KEY
    try:
        KEY
    except NameError:
        KEY = Collator_10_0_0().sort_key
    ks = sorted(set(KEY(s) for s in sorts))
    used = sorted({a for _, r in case['entries'] for a in r})
    return {'text': {a: fold(ATOMS[a][1]) for a in used}, 'shown': {a: fold(ATOMS[a][2]) for a in used}, 'rank': {fold(s): ks.index(KEY(s)) for s in sorts}, 'head': {a: head(ATOMS[a][1]) for a in used}}


def finish(case):
    """the map from what a page shows to the keys, if it is unambiguous"""
    keys = {}
    for p in case['paths']:
        for s, d in p:
            shown = re.sub(r'<[^:]+:([^>]*)>', lambda m: '\\(x\\)' if m.group(0) == '<math:x>' else ALIAS.get(m.group(0), m.group(1)), ''.join(ATOMS[a][2] for a in d))
            keys.setdefault(shown.strip(), set()).add((fold(text(d if s is None else s)), fold(''.join(ATOMS[a][2] for a in d))))
    case['html'] = case['html'] and all(len(v) == 1 for v in keys.values())
    case['keys'] = {k: list(v)[0] for k, v in keys.items()}
    return case


def rcase(rng, work, n=None):
    words = rng.sample(WORDS, rng.randint(2, 9))
    levels = []
    for w in words:
        levels.append((None, w))
        if rng.random() < .4:
            levels.append((rng.choice(words), w))
    n = n or rng.choice([1, 2, 3, 4, 6, 8, 12, 18, 30])
    entries, paths = [], []
    for _ in range(n):
        p = [rng.choice(levels) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        if paths and rng.random() < .3:
            q = rng.choice(paths)
            p = rng.choice([q, q[:1] + p[:2], q[:2] + p[:1], [(None, w[1]) for w in q], [(w[0] or w[1], w[1]) for w in q]])
        f = rng.choice(FORMATS) if rng.random() < .35 else None
        r = raw(p, f)
        # no math in a key inside math
        entries.append((rng.choice(list(PLACES)) if rng.random() < .9 or 'mx' in r else rng.choice(list(MATH)), r))
        paths.append(p)
    return finish({'cls': rng.choice(['article', 'book', 'report']), 'entries': entries, 'paths': paths, 'cols': rng.randint(1, 4), 'work': work,
                   'print': n if rng.random() < .8 else rng.randint(0, n), 'html': rng.random() < .25})


def mcase(rng, raws, work):
    """a document of the model: its entries are spelled as the model spells them"""
    paths = []
    for r in raws:
        p, cur, s, q = [], [], None, False
        for a in r:
            if q:
                cur.append(a)
                q = False
            elif a == '"':
                q = True
            elif a == '@':
                s, cur = cur, []
            elif a in '!|':
                p.append((s, cur))
                s, cur = None, []
                if a == '|':
                    break
            else:
                cur.append(a)
        else:
            p.append((s, cur))
        paths.append(p)
    return finish({'cls': 'article', 'entries': [(rng.choice(['par', 'inline', 'item']), r) for r in raws], 'paths': paths, 'cols': rng.randint(1, 4), 'work': work, 'print': len(raws), 'html': False})


def trace(case, ev):
    if not isinstance(ev, list):
        ev = [{'k': 'exc', 'what': ev['exc']}]
    return {'env': env(case), 'raws': [r for _, r in case['entries']], 'cols': case['cols'], 'events': ev}


def run(ck):
    rng = ck.rng
    fn = os.path.join(ck.work, 'gen.json')
    ck.model('MC_Index', 'MC_Index1.cfg' if ck.thorough else 'MC_Index0.cfg', env={'OUT': fn}, timeout=600, expect_states=10000)
    g = json.load(open(fn))
    docs = g['docs']
    if ck.thorough:
        docs = docs + [[rng.choice(g['raws']) for _ in range(3)] for _ in range(4000)]
    else:
        docs = rng.sample(docs, 250) + [[rng.choice(g['raws']) for _ in range(rng.randint(3, 5))] for _ in range(150)]
    cases = [mcase(rng, d, ck.work) for d in docs] + [rcase(rng, ck.work) for _ in range(5000 if ck.thorough else 500)]
    res = pool.run(observe, cases, timeout=60, chunk=10)
    traces = [trace(c, r) for c, r in zip(cases, res)]
    vs = ck.validate('IndexTrace', traces, batch=len(traces) // 8 + 1, parallel=8, timeout=800)
    good = []
    for c, t, v in zip(cases, traces, vs):
        if v[0] != 'ok':
            ck.violation(json.dumps([src(r) for _, r in c['entries']])[:300], v[1], {'source': document(c), 'columns': c['cols'], 'events': t['events'], 'verdict': v[1]})
        else:
            good.append(t)
    bad = []
    for t in rng.sample(good, min(len(good), 60)):
        t = json.loads(json.dumps(t))
        e = rng.choice(t['events'])
        x = rng.randrange(5)
        ln = rng.choice(e['tree'])
        if x == 0:
            ln['pages'] = ln['pages'][1:] if ln['pages'] else [[1, 'page']]
        elif x == 1:
            e['tree'].remove(ln)
        elif x == 2:
            ln['d'] += 'z'
        elif x == 3:
            rng.choice(e['groups'])['cols'].append([])
        else:
            rng.choice(e['groups'])['title'] += 'z'
        bad.append(t)
    ck.selftest(ck.validate('IndexTrace', bad, count=False))
    ck.cov['traces_validated_against_impl'] += len(traces)
    ck.cov['documents_from_model'] = len(docs)
    ck.cov['rendered_pages_read'] = sum(len(t['events']) - 1 for t in traces)
    ck.cov['entries'] = sum(len(t['raws']) for t in traces)
    ck.cov['largest_index'] = max(len(t['raws']) for t in traces)
    ck.sample({'source': document(cases[-1]), 'events': traces[-1]['events'][:1]})
    ck.sample(traces[3])
    ck.assumptions += ['the collation order is that of pyuca (UCA 10.0.0), given to the specification as a table of ranks',
                       'keys are not empty; one letter is spelled one way in a document (as a character or as an accent macro)']
