"""C17: the result of a document does not depend on its predecessors (Histories.tla)."""
import hashlib, json, os, pickle, re, shutil, signal, sys
from vf import conform, docgen

TRACE = 'HistoriesTrace'
REGS = {'tolerance': 'ifnum', 'hbadness': 'ifnum', 'parindent': 'ifdim', 'parskip': 'ifdim', 'textwidth': 'ifdim', 'maxdepth': 'ifdim'}
PKGS = ['amsmath', 'hyperref', 'ifthen', 'amsthm', 'makeidx', 'graphicx']
CLASSES = ['article', 'book', 'report']
FEATS = {'title', 'abstract', 'fn', 'idx', 'verb', 'href', 'cite', 'mp', 'math', 'list', 'quote', 'center', 'table', 'figure', 'verbatim', 'thm', 'equation', 'align', 'proof', 'toc', 'sym', 'ref', 'short', 'appendix'}

# pieces of documents that touch what the interpreter keeps: options, switches, trackers, definitions
PREAMBLE = [
    '\\usepackage[utf8]{inputenc}', '\\usepackage[french]{babel}', '\\usepackage[ngerman]{babel}', '\\usepackage{babel}', '\\usepackage{natbib}', '\\usepackage[numbers]{natbib}', '\\usepackage[dvipsnames]{xcolor}',
    '\\usepackage{array}\\newcolumntype{Z}{>{\\bfseries}c}', '\\usepackage{array}\\newcolumntype{P}[1]{p{#1}}', '\\usepackage{longtable}', '\\usepackage{tabularx}', '\\usepackage{booktabs}', '\\usepackage{float}\\newfloat{prog}{t}{lop}', '\\usepackage{caption}',
    '\\usepackage{subfig}', '\\usepackage{listings}', '\\usepackage{fancyvrb}', '\\usepackage{alltt}', '\\usepackage{comment}\\excludecomment{hidden}', '\\usepackage{cleveref}', '\\usepackage{nameref}', '\\usepackage{ifthen}\\newboolean{flag}\\setboolean{flag}{true}',
    '\\usepackage{textcomp}', '\\usepackage{url}', '\\usepackage{verse}', '\\usepackage{enumerate}', '\\usepackage{keyval}', '\\usepackage{mathtools}', '\\usepackage{amscd}', '\\usepackage{setspace}', '\\usepackage{geometry}', '\\usepackage{todonotes}', '\\usepackage[disable]{todonotes}',
    '\\usepackage{pifont}', '\\usepackage{wasysym}', '\\usepackage{cancel}', '\\usepackage{shortvrb}\\MakeShortVerb{\\|}', '\\usepackage{rotating}', '\\usepackage{multicol}', '\\usepackage{minitoc}', '\\usepackage{tocbibind}', '\\usepackage{imakeidx}', '\\usepackage{lipsum}', '\\usepackage{nosuchpackage}',
    '\\numberwithin{equation}{section}', '\\newcounter{mycount}[section]', '\\setcounter{secnumdepth}{1}', '\\renewcommand{\\thesection}{\\Roman{section}}', '\\newif\\ifmine\\minetrue', '\\newcommand{\\mine}[1]{<#1>}', '\\renewcommand{\\emph}[1]{EMPH}', '\\def\\textbf#1{BOLD}', '\\let\\section\\subsection',
    '\\newenvironment{myenv}{ENV}{END}', '\\newtheorem{ax}{Axiom}', '\\renewenvironment{quote}{Q}{q}', '\\newcount\\mycnt\\mycnt=5', '\\newdimen\\mydim\\mydim=5pt', '\\catcode`\\!=13\\def!{BANG}', '\\catcode`\\@=11', '\\makeatletter', '\\parindent=99pt', '\\tolerance=1', '\\pagestyle{empty}',
    '\\DeclareMathOperator{\\foo}{foo}', '\\theoremstyle{definition}', '\\newtheorem{nn}{NN}[section]', '\\renewcommand{\\abstractname}{ABS}', '\\renewcommand{\\figurename}{FIG}', '\\graphicspath{{x/}}', '\\title{T}\\author{A}', '\\let\\par\\relax', '\\mathcode`\\x=5']
BODY = [
    '\\begin{itemize}\\item a \\begin{enumerate}\\item b\\end{enumerate}\\end{itemize}', '\\begin{enumerate}\\item x\\item y\\end{enumerate}', '$x_1$ \\(y\\) \\[z\\] $$w$$', '$\\mbox{a $b$ c}$', '\\begin{tabular}{l|Z}a&b\\\\c&d\\end{tabular}', '\\begin{tabular}{lP{2cm}}a&b\\end{tabular}',
    '\\begin{tabular}{|l|*{2}{c|}}\\hline a&b&c\\\\\\cline{2-3}d&\\multicolumn{2}{c}{e}\\end{tabular}', '\\begin{array}{cc}a&b\\end{array}', '\\section{S}\\label{s} see \\ref{s} and \\ref{other}', '\\section*{U}', '\\footnote{note}', '\\index{k}\\index{k!l}', '\\cite{key}', '\\mine{x}', '\\ifmine A\\else B\\fi',
    '\\begin{myenv}x\\end{myenv}', '\\begin{ax}x\\end{ax}', '\\begin{nn}y\\end{nn}', '\\begin{quote}x\\end{quote}', 'a!b', 'a|b|c', '\\emph{x} \\textbf{y}', '\\verb+x y+', '\\begin{verbatim}\n\\x{\n\\end{verbatim}', '\\begin{equation}x\\label{e}\\end{equation} \\ref{e}', '\\begin{figure}\\caption{c}\\label{f}\\end{figure}\\ref{f}',
    '\\begin{thebibliography}{9}\\bibitem{key} B\\end{thebibliography}', '\\ifthenelse{\\boolean{flag}}{yes}{no}', '\\parbox{\\parindent}{x}', '\\hspace{2em}', '\\the\\mycnt', '\\ifnum\\tolerance=1 one\\else other\\fi', '\\ifdim\\parindent=99pt big\\else small\\fi', '\\setcounter{section}{7}\\section{X}', '\\addtocounter{enumi}{3}',
    '\\begin{abstract}a\\end{abstract}', '\\maketitle', '\\tableofcontents', '\\printindex', '{\\bf bold} \\it rest', "``q'' --- '", '\\mathchardef\\zz=5', '\\hbox{a}\\vbox{b}', '\\begin{minipage}{3cm}m\\end{minipage}', '\\newcommand{\\late}{L}\\late', '\\def\\a#1.{(#1)}\\a x.', '\\let\\b=\\emph \\b{z}', '\\appendix\\section{App}',
    '\\begin{center}c\\end{center}', '\\marginpar{m}', '\\begin{description}\\item[t] d\\end{description}', '\\input{nosuchfile}', '\\undefinedthing{x}', '\\ifx\\mine\\undefined U\\else D\\fi', '\\csname mine\\endcsname{q}', '\\newcolumntype{Y}{r}\\begin{tabular}{Y}1\\end{tabular}', '\\begin{comment}x\\end{comment}',
    '\\begin{lstlisting}\nx\n\\end{lstlisting}', '\\begin{hidden}x\\end{hidden}', '\\begin{eqnarray}a&=&b\\\\c&=&d\\nonumber\\end{eqnarray}', '\\begin{longtable}{l}a\\\\\\end{longtable}', '\\color{red}x', '\\chapter{C}', '\\part{P}', '\\citep{key}', '\\Cref{s} \\cref{e}', '\\todo{x}', '\\autoref{s}', '\\eqref{e}', '\\href{http://x.org}{l}', '\\xspace']
LEFT_OPEN = ['\\begin{itemize}\\item left', '\\begin{enumerate}\\item a\\begin{itemize}\\item', '$x', '\\[ x', '$$ y', '{\\bf group', '\\begin{equation} z', '\\begin{tabular}{ll} a & b', '\\begin{quote} q', '\\iftrue x', '\\iffalse x', '\\begin{verbatim} v', '\\footnote{open', '\\begin{theindex}', '\\verb+x',
             '\\hspace{', '\\parindent=', '\\parbox[', '\\setcounter{section', '\\newcommand{\\x', '\\mbox{$a', '\\begin{array}{c}']


# ------------------------------------------------------------------ sources
def program(acts):
    """the document of a sequence of actions"""
    cls = [a[1] for a in acts if a[0] == 'cls'] or ['article']
    pre, body, end, n = '', '', '', 0
    for a in acts:
        k = a[0]
        if k in ('ask', 'has', 'show', 'form', 'put', 'bang'):
            n += 1
        say = lambda s: '[%d:%s:]\n\n' % (n, s)
        if k == 'set':
            body += '\\%s=%s%s\\relax\n' % (a[1], a[2], '' if REGS[a[1]] == 'ifnum' else 'pt')
        elif k == 'ask':
            body += say('\\%s\\%s=%s%s Y\\else N\\fi' % (REGS[a[1]], a[1], a[2], '' if REGS[a[1]] == 'ifnum' else 'pt'))
        elif k == 'def':
            body += '\\newcommand{\\%s}{x}\n' % a[1]
        elif k == 'has':
            body += say('\\ifdefined\\%s Y\\else N\\fi' % a[1])
        elif k == 'pkg':
            pre += '\\usepackage{%s}\n' % a[1]
        elif k == 'cnt':
            body += '\\setcounter{section}{%s}\n' % a[1]
        elif k == 'step':
            body += '\\stepcounter{section}\n'
        elif k == 'show':
            body += say('\\arabic{section}')
        elif k == 'form':
            body += say('\\thesection')
        elif k == 'renew':
            body += '\\renewcommand{\\thesection}{\\Roman{section}}\n'
        elif k == 'label':
            body += '\\section{t}\\label{%s}\n' % a[1]
        elif k == 'put':
            body += say('\\ref{%s}' % a[1])
        elif k == 'cat':
            body += '\\catcode`\\!=14 \n'
        elif k == 'bang':
            body += '[%d:a!b:]\nb:]\n\n' % n
        elif k == 'open':
            end += {'math': '$x', 'list': '\\begin{enumerate}\\item x', 'group': '{\\bf x', 'env': '\\begin{quote} x'}[a[1]]
    return '\\documentclass{%s}\n%s\\begin{document}\n%s%s\n\\end{document}\n' % (cls[0], pre, body, end)


# ------------------------------------------------------------------ the interpreter
SIMPLE = (int, float, str, bytes, bool, type(None))


def show(v, depth=0):
    if isinstance(v, SIMPLE):
        return repr(v)
    if depth > 4:
        return '...'
    if isinstance(v, (list, tuple)):
        return '%s(%s)' % (type(v).__name__, ', '.join(show(x, depth + 1) for x in v))
    if isinstance(v, (set, frozenset)):
        return 'set(%s)' % ', '.join(sorted(show(x, depth + 1) for x in v))
    if isinstance(v, dict):
        return '{%s}' % ', '.join(sorted('%s: %s' % (show(k, depth + 1), show(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, type) or callable(v) or hasattr(v, '__get__'):
        return '<%s>' % getattr(v, '__qualname__', type(v).__name__)
    return '<%s>' % type(v).__name__


KEEP = {}                                  # classes and modules seen, so that they stay what they are


def snapshot():
    """what the process keeps: attributes of classes and variables of modules of plasTeX, places it works with"""
    import plasTeX
    out = {}
    todo, seen = [plasTeX.Macro, plasTeX.Context.Context, plasTeX.TeX.TeX, plasTeX.TeXDocument], set()
    for name, m in list(sys.modules.items()):
        if name.startswith('plasTeX') and m is not None:
            for k, v in list(vars(m).items()):
                if isinstance(v, type) and (getattr(v, '__module__', None) or '').startswith('plasTeX'):
                    todo.append(v)
                elif isinstance(v, SIMPLE + (list, dict, set, tuple)) and not k.startswith('__'):
                    out['%s.%s' % (name, k)] = show(v)
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        KEEP[id(c)] = c
        todo += type.__subclasses__(c)
        for k, v in list(vars(c).items()):
            if k[0] != '@' and not (k.startswith('__') and k.endswith('__')) and k not in ('_abc_impl', '_abc_data'):
                out['%s.%s#%d.%s' % (c.__module__, c.__qualname__, id(c), k)] = show(v)
    out['cwd'] = os.getcwd()
    out['path'] = repr(sys.path)
    out['environ'] = repr(sorted(os.environ.items()))
    out['recursion'] = str(sys.getrecursionlimit())
    return out


def changes(old, new):
    """of what was there: what has another value, what is gone; new attributes of classes there were"""
    ks = [k for k in old if old[k] != new.get(k, '(gone)')]
    owners = {k.rsplit('.', 1)[0] for k in old if '#' in k}
    ks += [k for k in new if k not in old and '#' in k and k.rsplit('.', 1)[0] in owners]
    return ['%s: %s -> %s' % (re.sub(r'#\d+', '', k), old.get(k, '(none)')[:60], new.get(k, '(gone)')[:60]) for k in sorted(ks)]


GENID = re.compile(r'\ba\d{10}\b')


class Hangs(BaseException):
    """a document that is not processed to completion in the time"""


def process(path, out, renderer, theme, split):
    """one document: what it shows, its tree, its files"""
    from vf import render as R
    r = {'exc': '', 'out': [], 'tree': '', 'files': []}
    cwd = os.getcwd()

    def hangs(*_):
        raise Hangs()
    signal.signal(signal.SIGVTALRM, hangs)
    signal.setitimer(signal.ITIMER_VIRTUAL, 15)
    try:
        cfg = R.config(renderer, general__theme=theme, general__xml=True, files__split_level=split, general__copy_theme_extras=False)
        R.run(path, out, cfg)
    except (Exception, SystemExit, Hangs) as e:
        r['exc'] = '%s: %s' % (type(e).__name__, str(e)[:80])
        os.chdir(cwd)
        return r
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    names = {}

    def canon(s):
        return GENID.sub(lambda m: names.setdefault(m.group(0), 'id%d' % len(names)), s)
    texts = {}
    for b, ds, fs in os.walk(out):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(b, f)
            texts[os.path.relpath(p, out)] = open(p, encoding='utf-8', errors='replace').read() if not f.endswith('.paux') else 'labels'
    # the tree first, then the files by name
    tree = canon(texts.pop('doc.xml', ''))
    files = [[n, canon(t)] for n, t in sorted(texts.items(), key=lambda x: (x[0] != 'index.html', GENID.sub('', x[0])))]
    files = [[canon(n), t] for n, t in files]
    shown = {}
    for n, t in files:
        if n.endswith('.html'):
            for k, v in re.findall(r'\[(\d+):(.*?):\]', re.sub('<[^>]*>', '', t), re.S):
                shown[int(k)] = ''.join(v.split())
    r['out'] = [{'??': 'none', '': 'none'}.get(v, v) for _, v in sorted(shown.items())]
    r['tree'], r['files'] = tree, files
    return r


def forked(fn):
    """fn() in a child of this process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                data = pickle.dumps(fn())
            except BaseException as e:
                data = pickle.dumps({'exc': '%s: %s' % (type(e).__name__, str(e)[:200])})
            with os.fdopen(wr, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else {'exc': 'Died'}


def digest(x):
    return hashlib.sha1(json.dumps(x).encode()).hexdigest()[:16]


def difference(a, b):
    if a['tree'] != b['tree']:
        x, y = a['tree'], b['tree']
    else:
        fa, fb = dict(a['files']), dict(b['files'])
        if set(fa) != set(fb):
            return 'files %s / %s' % (sorted(set(fa) - set(fb)), sorted(set(fb) - set(fa)))
        n = [n for n in fa if fa[n] != fb[n]]
        if not n:
            return ''
        x, y = fa[n[0]], fb[n[0]]
    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
    return ascii('%s / %s' % (x[max(0, i - 60):i + 60], y[max(0, i - 60):i + 60]))


def observe(case):
    base = os.path.join(case['work'], 'h%d' % os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)

    def one(i):
        d = case['docs'][i]
        # every document has a directory of its own: label files of other documents are read by design
        w = os.path.join(base, 'd%d' % (case['docs'].index(d)))
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        with open(os.path.join(w, 'doc.tex'), 'w', encoding='utf-8') as f:
            f.write(d['src'])
        return process(os.path.join(w, 'doc.tex'), os.path.join(w, 'out'), d['renderer'], d['theme'], d['split'])

    def history():
        if case['preload']:
            import importlib, pkgutil, plasTeX.Packages
            for m in pkgutil.iter_modules(plasTeX.Packages.__path__):
                if m.name not in ('embed', 'debugplastex'):
                    try:
                        importlib.import_module('plasTeX.Packages.' + m.name)
                    except Exception:
                        pass
        res = []
        old = snapshot()
        for i in range(len(case['docs'])):
            r = one(i)
            new = snapshot()
            r['state'] = changes(old, new) if not r['exc'] else []
            for k, v in new.items():            # what a package brings is to stay as it was first
                old.setdefault(k, v)
            res.append(r)
            if r['exc']:
                break                            # not processed to completion
        return res
    try:
        import vf.render, plasTeX.Compile, plasTeX.client, plasTeX.TeX, plasTeX.Context  # noqa
        h = forked(history)
        if isinstance(h, dict):
            return h
        docs, fresh = [], {}
        for i, g in enumerate(h):
            k = json.dumps(case['docs'][i])
            f = fresh[k] if k in fresh else forked(lambda: one(i))
            fresh[k] = f
            if 'out' not in f:
                return {'exc': 'alone: %s' % f['exc']}
            docs.append({'got': dict(exc=g['exc'], out=g['out'], tree=digest(g['tree']), files=digest(g['files']), state=[ascii(x) for x in g['state'][:5]]),
                         'fresh': dict(exc=f['exc'], out=f['out'], tree=digest(f['tree']), files=digest(f['files'])), 'diff': difference(g, f)})
        return {'docs': docs}
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ------------------------------------------------------------------ documents
def doc(rng, src, acts=()):
    return {'src': src, 'acts': list(acts), 'renderer': rng.choice(['HTML5', 'HTML5', 'XHTML']), 'theme': 'default', 'split': rng.choice([-10, 0, 1, 2])}


def rand_acts(rng):
    acts = [['cls', rng.choice(CLASSES)]]
    for _ in range(rng.randint(1, 9)):
        k = rng.choice(['set', 'set', 'ask', 'ask', 'ask', 'def', 'has', 'has', 'has', 'pkg', 'cnt', 'step', 'show', 'label', 'put', 'form', 'form', 'renew', 'cat', 'bang', 'open'])
        if k in ('set', 'ask'):
            acts.append([k, rng.choice(sorted(REGS)), rng.choice(['7', '77', '123'])])
        elif k == 'def':
            acts.append([k, rng.choice(['mya', 'myb'])])
        elif k == 'has':
            acts.append([k, rng.choice(['mya', 'myb', 'eqref', 'autoref', 'includegraphics', 'href', 'ifthenelse', 'newtheoremstyle'])])
        elif k == 'pkg':
            acts.insert(1, [k, rng.choice(sorted(PKGS))])
        elif k == 'cnt':
            acts.append([k, rng.randint(0, 9)])
        elif k == 'label':
            l = rng.choice(['k', 'l'])            # a label names one thing
            acts += [[k, l]] if [k, l] not in acts else []
        elif k == 'put':
            acts.append([k, rng.choice(['k', 'l'])])
        elif k == 'open':
            acts.append([k, rng.choice(['math', 'list', 'group', 'env'])])
        else:
            acts.append([k])
    return acts


def mixed(rng):
    src = '\\documentclass%s{%s}\n' % (rng.choice(['', '', '[11pt]', '[twocolumn,draft]']), rng.choice(['article', 'article', 'book', 'report', 'amsart', 'amsbook', 'memoir', 'beamer']))
    src += '\n'.join(rng.sample(PREAMBLE, rng.randint(0, 4))) + '\n\\begin{document}\n'
    src += '\n\n'.join(rng.sample(BODY, rng.randint(1, 6)))
    if rng.random() < .35:
        return src + '\n\n' + rng.choice(LEFT_OPEN) + rng.choice(['', '\n\\end{document}\n'])
    return src + '\n\\end{document}\n'


def structured(rng):
    g = docgen.Gen(rng, {f for f in FEATS if rng.random() < .6})
    d = g.document(rng.choice(CLASSES), 4, 2)
    return docgen.latex(d, lambda n: 'http://x.org/w%d' % n if g.leaves[n][0] == 'url' else 'w%d' % n)


def one_doc(rng):
    r = rng.random()
    if r < .3:
        a = rand_acts(rng)
        return doc(rng, program(a), a)
    return doc(rng, structured(rng) if r < .5 else mixed(rng))


def case(rng, work):
    docs = [one_doc(rng) for _ in range(rng.randint(1, 4))]
    if rng.random() < .3:
        docs.append(dict(rng.choice(docs)))       # the same input again
    else:
        docs.append(one_doc(rng))
    return {'docs': docs, 'work': work, 'preload': rng.random() < .3}


def shaped(rng, work, first, second):
    # the class and packages come first
    docs = [doc(rng, program(a), a) for a in (sorted(x, key=lambda y: {'cls': 0, 'pkg': 1}.get(y[0], 2)) for x in (first, second))]
    return {'docs': docs, 'work': work, 'preload': False}


def mktrace(case, obs):
    out = []
    for c, o in zip(case['docs'], obs.get('docs', [])):
        out.append(dict(o, acts=[[x if isinstance(x, int) else str(x) for x in a] for a in c['acts']], src=digest([c['src'], c['renderer'], c['split']])))
    return {'exc': obs.get('exc', ''), 'docs': out}


def rand_case(rng, size=None, work='/tmp/q/w17'):
    os.makedirs(work, exist_ok=True)
    c = case(rng, work)
    c['src'] = '\n=======\n'.join(d['renderer'] + ' ' + d['src'] for d in c['docs'])
    return c


def describe(c):
    return ' ;; '.join('%s %r' % (d['renderer'], d['src'][:200]) for d in c['docs'])


def corrupt(rng, t):
    ds = [d for d in t['docs'] if d['got']['exc'] == '']
    if not ds:
        return None
    d = rng.choice(ds)
    x = rng.randrange(4)
    if x == 0:
        d['got']['tree'] += 'x'
    elif x == 1:
        d['got']['files'] += 'x'
    elif x == 2:
        d['got']['state'] = ['x']
    elif d['got']['out']:
        i = rng.randrange(len(d['got']['out']))
        d['got']['out'][i] = d['fresh']['out'][i] = 'q' + d['got']['out'][i]
    else:
        return None
    return t


def run(ck):
    rng = ck.rng
    fn = os.path.join(ck.work, 'acts.json')
    ck.model('MC_Histories', 'MC_Histories1.cfg' if ck.thorough else 'MC_Histories0.cfg', env={'OUT': fn}, timeout=700, expect_states=10000)
    acts = json.load(open(fn))
    first, second = acts['first'], acts['second']
    cases = [shaped(rng, ck.work, rng.choice(first), rng.choice(second)) for _ in range(500 if ck.thorough else 150)]
    cases += [case(rng, ck.work) for _ in range(2600 if ck.thorough else 420)]
    good = conform.run(ck, TRACE, cases, observe, mktrace, describe, corrupt, timeout=200, chunk=4, batch=300)
    ck.cov['documents'] = sum(len(t['docs']) for t in good)
    ck.cov['documents_aborted_alike'] = sum(1 for t in good for d in t['docs'] if d['got']['exc'])
    ck.cov['documents_compared_in_a_history'] = sum(1 for t in good for i, d in enumerate(t['docs']) if i and not d['got']['exc'])
    ck.cov['documents_with_known_meaning'] = sum(1 for t in good for d in t['docs'] if d['acts'] and not d['got']['exc'])
    ck.assumptions += ['a history ends at a document that is not processed to completion', 'generated identifiers are renumbered in order of occurrence', 'documents have directories of their own',
                       'caches that do not depend on a document may grow']
