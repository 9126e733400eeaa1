"""C10: lists and tables, against Tables.tla."""
import json, os, re
from vf import pool, conform

LISTS = ['itemize', 'enumerate', 'description']
DECLS = {'b': ['\\bfseries', '\\bf'], 'i': ['\\itshape', '\\it'], 't': ['\\ttfamily'], 'L': ['\\large']}
NODES = {'bfseries': 'b', 'bf': 'b', 'itshape': 'i', 'it': 'i', 'ttfamily': 't', 'large': 'L'}


def names():
    i = 0
    while True:
        i += 1
        n, s = i, ''
        while n:
            n, r = divmod(n - 1, 25)
            s = 'abcdefghijklmnopqrstuvwxy'[r] + s
        yield 'z' + s


# --- the tree that was built ---------------------------------------------------------------
def project(nodes, f=()):
    out, text = [], ''
    for n in list(nodes) + [None]:
        if n is not None and n.nodeType == n.TEXT_NODE:
            text += str(n)          # text in the document's own level is not merged
            continue
        for w in text.split():
            out.append({'k': 'w', 'w': w, 'f': sorted(set(f))})
        text = ''
        if n is None:
            break
        nm = n.nodeName
        if nm in LISTS:
            items = []
            for c in n.childNodes:
                if c.nodeName == 'item':
                    t = c.attributes.get('term')
                    items.append({'has': t is not None, 'term': project([t] if t is not None and hasattr(t, 'nodeType') else [], f), 'c': project(c.childNodes, f)})
                elif c.nodeType == c.TEXT_NODE and not str(c).strip():
                    continue
                else:
                    items.append({'has': False, 'term': [], 'c': [{'k': 'not an item'}] + project([c], f)})
            out.append({'k': 'l', 'kind': nm, 'items': items})
        elif nm in ('tabular', 'array', 'tabular*', 'tabularx'):
            rows = []
            for r in n.childNodes:
                cells = []
                for c in r.childNodes:
                    st = c.style

                    def border(side):
                        return any(v and 'none' not in str(v) and str(v) != '0' for k, v in st.items() if k.startswith('border-' + side))
                    cells.append({'span': int(c.attributes.get('colspan', 1)), 'c': project(c.childNodes, f), 'top': border('top'), 'bottom': border('bottom'),
                                  'left': border('left'), 'right': border('right')})
                rows.append(cells)
            out.append({'k': 't', 'rows': rows})
        elif nm in ('hline', 'cline'):
            continue
        elif nm == 'multicolumn':
            s = n.attributes.get('self')
            out += project(s.childNodes if hasattr(s, 'childNodes') else [], f)
        elif nm in ('textbf', 'emph'):
            s = n.attributes.get('self')
            out += project(s.childNodes, f + ({'textbf': 'b', 'emph': 'i'}[nm],))
        elif nm in ('footnote',):
            continue
        else:
            out += project(n.childNodes, f + ((NODES[nm],) if nm in NODES else ()))
    return out


def observe(case):
    from plasTeX.TeX import TeX
    t = TeX()
    t.input(case['src'])
    doc = t.parse()
    body = doc.getElementsByTagName('document')[0]
    return json.loads(json.dumps(project(body.childNodes)))


# --- documents -----------------------------------------------------------------------------
class Gen:
    def __init__(self, rng, size):
        self.rng, self.names, self.left = rng, names(), size
        self.toks, self.src = [], []
        self.ends = [['\n', ' ', '', '%\n', '\n  ']]

    def put(self, tok, src):
        self.toks.append(tok)
        self.src.append(src)

    def sp(self, need=False):
        self.src.append(self.rng.choice([' ', '\n', '  ', '\n ', ' %c\n'] + ([] if need else ['', '%\n'])))

    def word(self, src='%s'):
        w = next(self.names)
        self.left -= 1
        self.put({'t': 'w', 'w': w}, src % w)
        self.sp(True)

    def text(self, depth, math=False):
        """words, formatting and structures"""
        rng = self.rng
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if self.left <= 0:
                return
            p = rng.random()
            if p < .6 or depth <= 0 or (math and p > .8):
                if math:
                    self.word()
                else:
                    self.word(rng.choice(['%s', '%s', '%s', '%s', '$%s$', '{%s}', '\\mbox{%s}']))
            elif p < .7:
                f = rng.choice(list(DECLS)) if not math else 'b'
                if math:
                    continue
                self.put({'t': '{'}, '{')
                self.put({'t': 'decl', 'f': f}, rng.choice(DECLS[f]) + ' ')
                self.text(depth - 1, math)
                self.put({'t': '}'}, '}')
                self.sp()
            elif p < .76 and not math:
                f = rng.choice('bi')
                self.put({'t': '{'}, '\\textbf{' if f == 'b' else '\\emph{')
                self.put({'t': 'decl', 'f': f}, '')
                for _ in range(rng.randint(0, 2)):
                    self.word()
                self.put({'t': '}'}, '}')
                self.sp()
            elif p < .8 and not math:
                f = rng.choice(list(DECLS))
                self.put({'t': 'decl', 'f': f}, rng.choice(DECLS[f]) + ' ')
            elif p < .9 and not math:
                self.list(depth - 1)
            else:
                self.table(depth - 1, math)

    def par(self):
        if self.rng.random() < .3:
            self.put({'t': 'par'}, self.rng.choice(['\n\n', '\\par ', '\n \n']))

    def list(self, depth):
        rng = self.rng
        kind = rng.choice(LISTS)
        self.put({'t': 'list', 'kind': kind}, '\\begin{%s}' % kind)
        self.sp()
        if rng.random() < .2:
            self.src.append('\n\n')
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            has = rng.random() < (.9 if kind == 'description' else .25)
            term = [next(self.names) for _ in range(rng.choice([0, 1, 1, 2]))] if has else []
            self.put({'t': 'item', 'has': has, 'term': term}, '\\item' + ('[%s]' % ' '.join(term) if has else ' '))
            self.sp()
            self.text(depth)
            while rng.random() < .3 and self.left > 0:
                self.par()
                self.text(depth)
            self.par()
        self.put({'t': 'endlist'}, '\\end{%s}' % kind)
        self.sp()

    def bars(self):
        return self.rng.choice(['', '', '|', '||', '@{}', '|@{ }']) if self.rng.random() < .6 else ''

    def spec(self):
        rng = self.rng
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        out = rng.choice(['', '', '|', '||', '@{}', '@{}|', '|@{:}'])
        k = 0
        while k < n:
            p = rng.random()
            if p < .2 and n - k >= 2:
                m = rng.randint(1, min(4, n - k))
                out += '*{%d}{%s}' % (m, rng.choice(['c', 'l|', '|r', 'p{1cm}|', '|c|']))
                k += m
            else:
                out += rng.choice('lcr') if p < .8 else 'p{%dcm}' % rng.randint(1, 9)
                k += 1
            out += self.bars()
            if rng.random() < .1:
                out += ' '
        return out, n

    def table(self, depth, math=False):
        rng = self.rng
        spec, n = self.spec()
        kind = 'array' if math else rng.choice(['tabular'] * 5 + ['array', 'tabular*'])
        pre, post = ('$', '$') if kind == 'array' and not math else ('', '')
        opt = rng.choice(['', '', '[t]', '[b]']) if kind != 'tabularx' else ''
        self.put({'t': 'table', 'spec': list(spec)}, '%s\\begin{%s}%s%s{%s}' % (pre, kind, '{5cm}' if kind == 'tabular*' else '', opt, spec))
        inner = math or kind == 'array'
        if not inner or rng.random() < .5:
            self.sp()
        rows = rng.choice([1, 1, 2, 2, 3, 4, 6])
        for r in range(rows + 1):
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                if rng.random() < .65 or n < 2:
                    self.put({'t': 'hline'}, rng.choice(['\\hline ', '\\hline ', '\\hline ', '\\toprule ', '\\midrule ', '\\bottomrule ']))
                else:
                    a = rng.randint(1, n)
                    b = rng.randint(a, n)
                    self.put({'t': 'cline', 'a': a, 'b': b}, '\\%s{%d-%d}' % (rng.choice(['cline', 'cline', 'cmidrule']), a, b))
                self.sp()
            if r == rows:
                break
            c = 0
            short = rng.random() < .15
            while c < n:
                if rng.random() < .15:
                    m = rng.choice([1, 2, 2, 3])
                    m = min(m, n - c)
                    msp = rng.choice(['c', '|c|', 'l|', '|r', 'c||', '@{}c', 'p{2cm}|'])
                    ws = [next(self.names) for _ in range(rng.choice([0, 1, 1, 2]))]
                    body = ' '.join(ws)
                    self.put({'t': 'multi', 'n': m, 'spec': list(msp), 'words': ws}, '\\multicolumn{%d}{%s}{%s}' % (m, msp, body if inner or rng.random() < .7 else ' '.join(rng.choice(['$%s$', '{%s}', '\\mbox{%s}']) % w for w in ws)))
                    self.sp()
                    c += m
                else:
                    if rng.random() < .8:
                        self.text(depth if rng.random() < .4 else 0, inner)
                    c += 1
                if c < n:
                    if short and rng.random() < .4:
                        break
                    self.put({'t': 'cell'}, '&')
                    self.sp()
            if r < rows - 1 or rng.random() < .6:
                self.put({'t': 'row'}, rng.choice(['\\\\', '\\\\', '\\\\', '\\\\[2pt]', '\\\\*', '\\tabularnewline ', '\\cr ']))
                self.sp()
            else:
                break
        self.put({'t': 'endtable'}, '\\end{%s}%s' % (kind, post))
        self.sp()


def rand_case(rng, size=30):
    g = Gen(rng, size)
    for _ in range(rng.randint(1, 2)):
        if rng.random() < .2:
            g.word()
        if rng.random() < .5:
            g.list(rng.choice([0, 1, 2, 3, 3]))
        else:
            g.table(rng.choice([0, 0, 1, 2]))
        if rng.random() < .2:
            g.word()
    return {'toks': g.toks, 'src': '\\documentclass{article}\\begin{document}\n' + ''.join(g.src) + '\\end{document}\n'}


# --- documents of the model ------------------------------------------------------------------
def spell(rng, toks):
    out = []
    kinds, math = [], []
    for i, t in enumerate(toks):
        k = t['t']
        sp = lambda: rng.choice([' ', '\n', ' %c\n'])
        if k == 'w':
            s = t['w'] + sp()
        elif k == 'decl':
            s = rng.choice(DECLS[t['f']]) + ' '
        elif k in '{}':
            s = k + sp()
        elif k == 'list':
            kinds.append(t['kind'])
            s = '\\begin{%s}' % t['kind'] + sp()
        elif k == 'endlist':
            s = '\\end{%s}' % kinds.pop() + sp()
        elif k == 'item':
            s = '\\item' + ('[%s]' % ' '.join(t['term']) if t['has'] else '') + sp()
        elif k == 'table':
            s = '\\begin{tabular}{%s}' % ''.join(t['spec']) + rng.choice(['', ' ', '\n'])
        elif k == 'endtable':
            s = '\\end{tabular}' + sp()
        elif k == 'cell':
            s = '&' + rng.choice(['', ' ', '\n'])
        elif k == 'row':
            s = rng.choice(['\\\\', '\\tabularnewline ', '\\\\*', '\\\\[1pt]']) + sp()
        elif k == 'hline':
            s = '\\hline' + sp()
        elif k == 'cline':
            s = '\\cline{%d-%d}' % (t['a'], t['b']) + sp()
        elif k == 'multi':
            s = '\\multicolumn{%d}{%s}{%s}' % (t['n'], ''.join(t['spec']), ' '.join(t['words'])) + sp()
        out.append(s)
    return {'toks': toks, 'src': '\\documentclass{article}\\begin{document}\n' + ''.join(out) + '\\end{document}\n'}


def rename(toks):
    """the words of the model are positions"""
    n = names()
    for t in toks:
        if t['t'] == 'w':
            t['w'] = next(n)
        elif t['t'] == 'item':
            t['term'] = [next(n) for _ in t['term']]
        elif t['t'] == 'multi':
            t['words'] = [next(n) for _ in t['words']]
    return toks


def mktrace(case, res):
    return {'toks': case['toks'], 'tree': res if isinstance(res, list) else [{'k': 'no tree: ' + str(res)[:120]}]}


def corrupt(rng, t):
    """another tree: a word lost, moved or formatted, an item or a row dropped, a border or a span changed"""
    nodes = []

    def walk(c):
        for i, x in enumerate(c):
            if x['k'] == 'w':
                nodes.append(('w', c, i))
            elif x['k'] == 'l':
                nodes.append(('l', x['items'], None))
                for it in x['items']:
                    walk(it['c'])
                    walk(it['term'])
            elif x['k'] == 't':
                nodes.append(('t', x['rows'], x))
                for r in x['rows']:
                    for y in r:
                        nodes.append(('c', y, None))
                        walk(y['c'])
    walk(t['tree'])
    if not nodes:
        return None
    k, a, b = rng.choice(nodes)
    if k == 'w':
        p = rng.random()
        if p < .4:
            del a[b]
        elif p < .7:
            a[b]['f'] = sorted(set(a[b]['f']) ^ {'q'})
        else:
            a.insert(b, dict(a[b]))
    elif k == 'l':
        a.pop()
    elif k == 't':
        if not a or rng.random() < .3:
            a.append([{'span': 1, 'c': [], 'top': False, 'bottom': False, 'left': False, 'right': False}])
        else:
            del a[rng.randrange(len(a))]
    else:
        a['span'] += 1
    return t


def run(ck):
    rng = ck.rng
    cases = []
    for x in 'NT':
        fn = os.path.join(ck.work, 'gen%s.json' % x)
        ck.model('MC_Tables', 'MC_Tables%s%d.cfg' % (x, ck.thorough), env={'OUT': fn}, timeout=800, expect_states=10000)
        cases += [spell(rng, rename(t)) for t in json.load(open(fn)) if t]
    ck.cov['cases_from_model'] = len(cases)
    for i in range(60000 if ck.thorough else 4000):
        cases.append(rand_case(rng, rng.choice([4, 8, 15, 30, 30, 60])))
    conform.run(ck, 'TablesTrace', cases, observe, mktrace, lambda c: c['src'], corrupt, chunk=25)
    ck.cov['longest_input_tokens'] = max(len(c['toks']) for c in cases)
    ck.cov['tables'] = sum(t['t'] == 'table' for c in cases for t in c['toks'])
    ck.cov['lists'] = sum(t['t'] == 'list' for c in cases for t in c['toks'])
    ck.assumptions += ['rows of empty cells are dropped by plasTeX and their rules go to the boundary at which they stand; rows with only empty groups or declarations in them are left open',
                       'a declaration inside an item holds to the end of that item at least; TeX keeps it to the end of the list',
                       'rules that end inside a spanned cell, and rules beyond the end of a shorter adjacent row, are left open',
                       'a rule between two rows may be the bottom of one or the top of the other']
