"""C07: the document tree, against Digest.tla."""
import json, os
from vf import pool, conform
from checks.c10 import names

# classes of the chain; anything else is transparent
LABELS = {'document', 'part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph', 'itemize', 'enumerate', 'description', 'item', 'tabular',
          'ArrayRow', 'ArrayCell', 'quote', 'quotation', 'center', 'flushleft', 'verse', 'minipage', 'figure', 'table', 'caption', 'footnote', 'textbf', 'emph', 'texttt', 'textit', 'mbox', 'fbox',
          'math', 'displaymath', 'equation', 'eqnarray', 'verbatim', 'verb', 'multicolumn', 'title', 'author', 'abstract', 'thm', 'proof', 'parbox', 'underline', 'textsc', 'makebox'}
SECS = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}


def char(c):
    return c if ord(c) < 128 else 'U+%04X' % ord(c)


def observe(case):
    from plasTeX.TeX import TeX
    from plasTeX.DOM import Node
    t = TeX()
    t.input(case['src'])
    doc = t.parse()
    nodes, index, words, keep = [], {}, [], []
    buf = []

    def flush():
        text = ''.join(x for x, _ in buf)
        at = [n for x, n in buf for _ in x]
        i = 0
        for w in text.replace('\n', ' ').replace('\t', ' ').split(' '):
            if w:
                words.append({'s': [char(c) for c in w], 'n': at[i]})
            i += len(w) + 1
        del buf[:]

    def add(n, d, arg, key=''):
        nm = n.nodeName
        label = ('.' + key if nodes[d - 1]['k'] else '') if key else 'thm' if nm == 'thmenv' else nm if nm in LABELS else ''
        i = len(nodes) + 1
        if id(n) in index:
            nodes.append({'k': label, 'lv': 0, 'd': -2, 'p': 0, 'a': arg, 'par': False, 'sec': False})
            return None
        index[id(n)] = i
        keep.append(n)
        nodes.append({'k': label, 'lv': n.level if isinstance(n.level, int) else 0, 'd': d, 'p': n.parentNode, 'a': arg, 'par': nm == 'par', 'sec': nm in SECS})
        return i

    def walk(n, d, arg=False, key=''):
        if n.nodeType == Node.TEXT_NODE:
            keep.append(n)
            # text: its own parentNode is the place where it hangs
            nodes.append({'k': '', 'lv': 0, 'd': d, 'p': n.parentNode, 'a': arg or not str(n).strip(), 'par': False, 'sec': False})
            buf.append((str(n), len(nodes)))
            return
        i = add(n, d, arg, key)
        if i is None:
            return
        s = getattr(n, 'str', None) if n.nodeType == Node.ELEMENT_NODE else None
        if s is not None and not n.attributes:
            buf.append((str(s), i))
            nodes[-1]['a'] = nodes[-1]['a'] or not str(s).strip()
            return
        flush()
        kids = list(n.childNodes)
        if n.nodeType == Node.ELEMENT_NODE and n.nodeName not in ('document',) and n.attributes:
            for k, v in n.attributes.items():
                if k in ('self', '*modifier*', 'colspec', 'width', 'pos', 'label', 'entry'):
                    continue
                for x in v if isinstance(v, (list, tuple)) else [v]:
                    if isinstance(x, Node):
                        walk(x, i, True, k)
                        flush()
            s = n.attributes.get('self')
            if isinstance(s, Node) and s.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
                # the content of the node is the content of the argument
                index[id(s)] = i
        for c in kids:
            walk(c, i)
        flush()
    add(doc, 0, False)
    for c in doc.childNodes:
        if c.nodeName == 'document':
            walk(c, 1)
    inside = [False]                 # by index: below the document environment?
    for n in nodes:
        inside.append(n['k'] == 'document' or n['d'] > 0 and inside[n['d']])
    words = [w for w in words if inside[w['n']]]
    for n in nodes:
        p = n['p']
        n['p'] = 0 if p is None else n['p'] if isinstance(p, int) else index.get(id(p), -1)
    nodes[0]['p'] = 0
    return json.loads(json.dumps({'nodes': nodes, 'words': words}))


# --- documents -----------------------------------------------------------------------------
LIG = ['--', '---', '``', "''", '`', "'", '-', '----', "'''", '"`', '"\'', '```', ',', '.', '!', '?', ';', ':', '(', ')', '/', '*', '+', '=', '@', '|', '<', '>', '-----']
ESC = {'&': '\\&', '%': '\\%', '#': '\\#', '$': '\\$', '_': '\\_', '{': '\\{', '}': '\\}'}


class Gen:
    def __init__(self, rng, size):
        self.rng, self.names, self.left = rng, names(), size
        self.toks, self.src = [], []
        self.nl = self.args = self.tables = 0             # labels; open arguments

    def put(self, tok, src=''):
        self.toks.append(tok)
        self.src.append(src)

    def sp(self):
        self.src.append(self.rng.choice([' ', ' ', '\n', '  ', ' %c -- `\n', '\n  ']))

    def chars(self, math=False):
        """characters of a word and their spelling"""
        rng = self.rng
        s, src = '', ''
        for c in next(self.names):
            s, src = s + c, src + c
            if rng.random() < .12:
                if math:
                    x = rng.choice(["'", '-', '--', "''", '+', '=', '(', ')', '*', '.', '`', '---'])
                else:
                    x = rng.choice(LIG)
                s, src = s + x, src + x
            elif rng.random() < .04 and not math:
                x = rng.choice(list(ESC))
                s, src = s + x, src + ESC[x]
        if s.endswith('"`') or s.endswith('"\''):      # next to other quotes these are ambiguous
            s, src = s + 'x', src + 'x'
        if not math and rng.random() < .06:
            s, src = "``" + s + "''", "``" + src + "''"
        return list(s), src

    def word(self, math=False):
        s, src = self.chars(math)
        self.left -= 1
        self.put({'t': 'w', 's': s}, src)
        self.sp()

    def braced(self, tok, pre, body, post='}'):
        self.put(tok, pre)
        self.args += 1
        body()
        self.args -= 1
        self.put({'t': 'end'}, post)

    def words(self, a=1, b=3):
        for _ in range(self.rng.randint(a, b)):
            self.word()

    def math(self, display=False):
        rng = self.rng
        if not display:
            a, b, k = rng.choice([('$', '$', 'math'), ('$', '$', 'math'), ('\\(', '\\)', 'math'), ('\\begin{math}', '\\end{math}', 'math')])
        else:
            a, b, k = rng.choice([('$$', '$$', 'displaymath'), ('\\[', '\\]', 'displaymath'), ('\\begin{equation}', '\\end{equation}', 'equation'), ('\\begin{displaymath}', '\\end{displaymath}', 'displaymath'), ('\\begin{eqnarray}', '\\end{eqnarray}', 'eqnarray')])
        self.put({'t': 'math', 'k': k}, a)
        if k == 'eqnarray':
            self.put({'t': 'table', 'k': ''}, '')
        self.mathwords(rng.choice([0, 0, 1, 2]))
        if k == 'eqnarray' and rng.random() < .6:
            self.put({'t': 'cell'}, '& ')
            self.mathwords(1)
            self.put({'t': 'row'}, '\\\\ ')
            self.mathwords(1)
        if rng.random() < .15:
            self.put({'t': 'cmd', 'k': 'mbox'}, '\\mbox{')
            self.put({'t': 'w', 's': list('mb')}, 'mb')
            self.put({'t': 'end'}, '}')
        if k == 'eqnarray':
            self.put({'t': 'end'}, '')
        self.put({'t': 'end'}, b)
        self.sp()

    def mathwords(self, depth):
        rng = self.rng
        for i in range(rng.choice([1, 1, 2])):
            p = rng.random()
            if p < .5 or depth <= 0:
                s, src = self.chars(True)
                self.put({'t': 'w', 's': s}, src + ' ')
                continue
            if p < .85:
                pre, n = rng.choice([('{', 1), ('^{', 1), ('_{', 1), ('\\frac{', 2), ('\\sqrt{', 1), ('\\mathrm{', 1), ('\\hat{', 1)])
                for k in range(n):
                    self.put({'t': 'grp'}, pre if k == 0 else '{')
                    self.mathwords(depth - 1)
                    self.put({'t': 'end'}, '}')
            elif p < .92:
                self.put({'t': 'table', 'k': ''}, '\\begin{array}{cc}')
                self.mathwords(depth - 1)
                self.put({'t': 'cell'}, '& ')
                self.mathwords(depth - 1)
                if rng.random() < .5:
                    self.put({'t': 'row'}, '\\\\ ')
                    self.mathwords(depth - 1)
                self.put({'t': 'end'}, '\\end{array}')
            else:
                self.src.append(rng.choice(['\\quad ', '\\displaystyle ', '\\limits ']))

    def inline(self, depth, title=False, foot=True):
        rng = self.rng
        p = rng.random()
        if p < .62 or depth <= 0:
            self.word()
        elif p < .72:
            k = rng.choice(['textbf', 'emph', 'texttt', 'textit', 'textsc', 'underline'])
            self.braced({'t': 'cmd', 'k': k}, '\\%s{' % k, lambda: self.run(depth - 1, title, foot))
            self.sp()
        elif p < .78:
            self.put({'t': 'grp'}, '{')
            if rng.random() < .5:
                self.put({'t': 'decl'}, rng.choice(['\\bfseries ', '\\it ', '\\large ', '\\tiny ', '\\em ']))
            self.run(depth - 1, title, foot)
            self.put({'t': 'end'}, '}')
            self.sp()
        elif p < .84:
            self.math()
        elif p < .88 and not title and not self.args:
            s = self.rng.choice(['a--b', "x`y'", '\\bf{', '%c', '``q\'\'', '$x$', 'a_b^c', '---', '#1&'])
            self.put({'t': 'raw', 'k': 'verb', 's': list(s)}, '\\verb|%s|' % s)
            self.sp()
        elif p < .92 and foot and not title:
            self.put({'t': 'cmd', 'k': 'footnote'}, '\\footnote{')
            self.args += 1
            self.run(depth - 1, title, False)
            if rng.random() < .2:
                self.put({'t': 'par'}, '\n\n')
                self.run(depth - 1, title, False)
            self.args -= 1
            self.put({'t': 'end'}, '}')
            self.sp()
        elif p < .95 and not title:
            k, pre = rng.choice([('mbox', '\\mbox{'), ('fbox', '\\fbox{'), ('makebox', '\\makebox[2cm]{'), ('parbox', '\\parbox{3cm}{')])
            self.braced({'t': 'cmd', 'k': k}, pre, lambda: self.run(depth - 1, True, False))
            self.sp()
        elif p < .955 and not title and not self.args:
            q = rng.random()
            if q < .3:
                self.src.append(rng.choice(['\\\\ ', '\\\\[2pt] ', '\\newline ', '\\linebreak ', '\\hspace{1cm} ', '\\hfill ', '\\noindent ', '\\vspace*{2pt} ', '\\index{zz} ', '\\nopagebreak ']) if not self.tables else '\\hspace{1cm} ')
            elif q < .5:                 # a user's macro with text of its own
                self.put({'t': 'w', 's': list('pre--'[:3] + '--')}, '\\mm{')
                self.args += 1
                self.run(depth - 1, title, foot)
                self.put({'t': 'cmd', 'k': 'textbf'}, '}{')
                self.run(depth - 1, title, foot)
                self.put({'t': 'end'}, '}')
                self.args -= 1
                self.put({'t': 'w', 's': list('post')}, '')
                self.sp()
            elif q < .7:
                self.put({'t': 'w', 's': list('short')}, '\\nn{} ')
            else:
                for i in range(2):
                    s, x = self.chars()
                    self.put({'t': 'w', 's': s}, x + '~' * (i == 0))
                self.sp()
        elif p < .97 and not title:
            self.nl += 1
            self.src.append('\\label{l%d}' % self.nl + rng.choice(['', ' ', '\n']))
        elif self.nl and not title:
            self.src.append('\\ref{l%d} ' % rng.randint(1, self.nl))
        else:
            self.put({'t': 'decl'}, rng.choice(['\\bfseries ', '\\itshape ', '\\small ', '\\sffamily ']))

    def run(self, depth, title=False, foot=True, n=None):
        for _ in range(n if n is not None else self.rng.choice([0, 1, 1, 2, 3])):
            if self.left > 0:
                self.inline(depth, title, foot)

    def par(self):
        self.put({'t': 'par'}, self.rng.choice(['\n\n', '\n\n', '\\par ', '\n \n\n']))

    def flow(self, depth, n=None):
        """paragraphs and blocks"""
        rng = self.rng
        for _ in range(n if n is not None else rng.choice([1, 1, 2, 3])):
            if self.left <= 0:
                return
            p = rng.random()
            if p < .55 or depth <= 0:
                self.run(depth, n=rng.choice([0, 1, 2, 4]))
            else:
                self.block(depth)
            if rng.random() < .4:
                self.par()

    def block(self, depth):
        rng = self.rng
        p = rng.random()
        if p < .25:
            k = rng.choice(['quote', 'quotation', 'center', 'flushleft', 'verse', 'minipage', 'thm', 'thm', 'abstract', 'ee'])
            self.put({'t': 'env', 'k': k if k != 'ee' else 'quote'}, '\\begin{%s}' % k + ('{3cm}' if k == 'minipage' else ''))
            if k == 'thm' and rng.random() < .4:
                self.put({'t': 'arg', 'k': '.title'}, '[')
                self.args += 1
                self.run(1, True, False)
                self.args -= 1
                self.put({'t': 'end'}, ']')
            if k == 'ee':
                self.put({'t': 'w', 's': list('begins')}, '')
            self.sp()
            self.flow(depth - 1)
            if k == 'ee':
                self.put({'t': 'w', 's': list('ends')}, '')
            self.put({'t': 'end'}, '\\end{%s}' % k)
        elif p < .5:
            k = rng.choice(['itemize', 'enumerate', 'description'])
            self.put({'t': 'list', 'k': k}, '\\begin{%s}' % k)
            self.sp()
            for _ in range(rng.choice([1, 2, 2, 3])):
                self.put({'t': 'item'}, '\\item')
                if k == 'description' and rng.random() < .8 or rng.random() < .1:
                    self.put({'t': 'arg', 'k': '.term'}, '[')
                    self.run(1, True, False)
                    self.put({'t': 'end'}, ']')
                self.sp()
                self.flow(depth - 1)
            self.put({'t': 'end'}, '\\end{%s}' % k)
        elif p < .68:
            n = rng.randint(1, 3)
            self.put({'t': 'table', 'k': 'tabular'}, '\\begin{tabular}{%s}' % ('l' * n))
            rows = rng.randint(1, 3)
            self.tables += 1
            for r in range(rows):
                for c in range(n):
                    # a row needs some text
                    if c == 0:
                        self.word()
                    if n == 1 and c == 0 and rng.random() < .2:
                        pass
                    elif depth > 1 and rng.random() < .15:
                        self.block(depth - 2)
                    else:
                        self.run(depth - 1, False, True)
                    if c < n - 1:
                        self.put({'t': 'cell'}, '& ')
                if r < rows - 1:
                    self.put({'t': 'row'}, '\\\\ ')
            self.tables -= 1
            self.put({'t': 'end'}, '\\end{tabular}')
        elif p < .78:
            s = rng.choice(['a -- b', "`x'\n  y", '\\section{q}', '% c', 'a\n\nb', '$x$ ``q\'\''])
            self.put({'t': 'rawenv', 's': s}, '\\begin{verbatim}\n%s\n\\end{verbatim}' % s)
        elif p < .9:
            self.math(True)
        else:
            k = rng.choice(['figure', 'table'])
            self.put({'t': 'env', 'k': k}, '\\begin{%s}' % k)
            self.sp()
            self.run(1)
            self.put({'t': 'cmd', 'k': 'caption'}, '\\caption')
            if rng.random() < .3:
                self.put({'t': 'arg', 'k': '.toc'}, '[')
                self.words(0, 2)
                self.put({'t': 'end'}, ']')
            self.src.append('{')
            self.run(1, True)
            self.put({'t': 'end'}, '}')
            self.sp()
            self.run(1)
            self.put({'t': 'end'}, '\\end{%s}' % k)
        self.sp()

    def section(self, k):
        rng = self.rng
        self.put({'t': 'sec', 'k': k, 'lv': SECS[k]}, '\\' + k)
        if rng.random() < .2:
            self.src.append('*')
        elif rng.random() < .25:
            self.put({'t': 'arg', 'k': '.toc'}, '[')
            self.words(0, 2)
            self.put({'t': 'end'}, ']')
        self.put({'t': 'arg', 'k': '.title'}, '{')
        self.run(2, True)
        self.put({'t': 'end'}, '}')
        self.src.append(rng.choice([' ', '\n', '\n\n', '']))
        if rng.random() < .3:
            self.nl += 1
            self.src.append('\\label{l%d}\n' % self.nl)


def rand_case(rng, size=40):
    g = Gen(rng, size)
    cls = rng.choice(['article', 'article', 'book', 'report'])
    secs = ['section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph'] if cls == 'article' else ['part', 'chapter', 'section', 'subsection', 'subsubsection']
    pre = '\\documentclass{%s}\n\\newtheorem{thm}{Theorem}\n\\newcommand{\\mm}[2]{pre-- #1 \\textbf{#2} post}\\def\\nn{short }\\newenvironment{ee}{\\begin{quote}begins }{ ends\\end{quote}}\n' % cls
    depth = rng.choice([0, 1, 2, 3, 4])
    g.src.append('\\begin{document}' + rng.choice(['\n', ' ', '\n\n', '']))
    if rng.random() < .8:
        g.flow(depth, rng.choice([0, 1, 2, 4]))
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
        if g.left <= 0:
            break
        g.section(rng.choice(secs))
        g.flow(depth, rng.choice([0, 1, 2, 4]))
    toks = []
    for t in g.toks:
        if t['t'] == 'rawenv':          # one word per line
            ws = [w for w in t['s'].replace('\n', ' ').split(' ') if w]
            toks += [{'t': 'raw', 'k': 'verbatim', 's': list(w)} for w in ws]
        else:
            toks.append(t)
    return {'toks': toks, 'src': pre + ''.join(g.src) + '\\end{document}\n'}


def mktrace(case, res):
    if 'nodes' not in (res or {}):
        res = {'nodes': [{'k': 'no tree: ' + str(res)[:120], 'lv': 0, 'd': 0, 'p': 0, 'a': False, 'par': False, 'sec': False}], 'words': [{'s': ['no tree'], 'n': 1}]}
    return {'toks': case['toks'], 'nodes': res['nodes'], 'words': res['words']}


# --- documents of the model ------------------------------------------------------------------
def spell(rng, toks):
    out, ends, n = [], [], names()
    if toks[-1]['t'] == 'sec':
        return None
    toks = json.loads(json.dumps(toks))
    for t in toks:
        k, sp = t['t'], rng.choice([' ', '\n', ' %c\n'])
        if k == 'w':
            t['s'] = list(next(n)) + ['-', '-']
            s = ''.join(t['s']) + sp
        elif k == 'raw':
            t['s'] = list(next(n)) + ['-', '-']
            s = '\\verb|%s|' % ''.join(t['s']) + sp
            if any(e in ('}', '.}') for e in ends):
                return None          # \verb does not work in an argument
        elif k == 'par':
            s = rng.choice(['\n\n', '\\par '])
        elif k == 'sec':
            s = '\\' + t['k']
        elif k == 'arg':
            s = '{'
            ends.append('.}')
        elif k == 'cmd':
            s = '\\%s{' % t['k']
            ends.append('}')
        elif k == 'grp':
            s = '{'
            ends.append('} ')
        elif k == 'math':
            s = '$ '
            ends.append('$')
        elif k in ('env', 'list', 'table'):
            s = '\\begin{%s}%s' % (t['k'], '{ccccc}' if k == 'table' else '') + sp
            ends.append('\\end{%s}' % t['k'])
        elif k == 'item':
            s = '\\item' + sp
        elif k == 'cell':
            s = '& '
        elif k == 'row':
            s = '\\\\ '
        else:
            s = ends.pop().lstrip('.') + sp
        out.append(s)
    return {'toks': toks, 'src': '\\documentclass{article}\\begin{document}\n' + ''.join(out) + '\\end{document}\n'}


def corrupt(rng, t):
    p = rng.random()
    nodes, words = t['nodes'], t['words']
    if p < .3 and words:
        i = rng.randrange(len(words))
        if rng.random() < .5:
            del words[i]
        else:
            words.insert(i, words[i])
    elif p < .5 and len(words) > 1:
        i = rng.randrange(len(words) - 1)
        words[i], words[i + 1] = words[i + 1], words[i]
    elif p < .6 and words:
        words[rng.randrange(len(words))]['s'] += ["'"]
    elif p < .8:
        rng.choice(nodes)['p'] = -1
    elif p < .9:
        rng.choice(nodes)['d'] = -2
    else:
        pars = [i for i, n in enumerate(nodes) if n['par']]
        kids = [n for n in nodes if n['d'] - 1 in pars]
        if not kids:
            return None
        rng.choice(kids)['par'] = True
    return t


def run(ck):
    rng = ck.rng
    fn = os.path.join(ck.work, 'gen.json')
    ck.model('MC_Digest', 'MC_Digest%d.cfg' % ck.thorough, env={'OUT': fn}, timeout=800, expect_states=10000)
    cases = [c for c in (spell(rng, t) for t in json.load(open(fn)) if t) if c]
    ck.cov['cases_from_model'] = len(cases)
    for i in range(50000 if ck.thorough else 4000):
        cases.append(rand_case(rng, rng.choice([5, 10, 20, 40, 80])))
    good = conform.run(ck, 'DigestTrace', cases, observe, mktrace, lambda c: c['src'], corrupt, chunk=25)
    ck.cov['words'] = sum(len(t['words']) for t in good)
    ck.cov['nodes'] = sum(len(t['nodes']) for t in good)
    ck.cov['longest_document_tokens'] = max(len(t['toks']) for t in good)
    ck.assumptions += ['a paragraph contains a paragraph when it is its child; paragraphs of an environment that stands in a paragraph are inside that environment',
                       'declarations, groups, boxes without a class of their own and paragraphs do not count as containers of the chain',
                       'the substitutions are those of TeXDocument.defaultCharsubs; a double quote followed by more quotes is ambiguous and left out',
                       '\\verb inside arguments is not well-formed and left out']
