"""C20: saved label data, against Persist.tla."""
import json, os, re, shutil, tempfile, pickle
from vf import pool, render

SOURCE = r'''\documentclass{article}\newtheorem{thm}{Theorem}\newtheorem{thm}{Theorem}
\begin{document}\section{First one}\label{a}
\begin{equation}\label{b} x\end{equation}
\begin{thm}\label{c} t\end{thm}
\subsection{Deep \emph{x} é}\label{d}
\begin{figure}\caption{Cap}\label{e}\end{figure}
\begin{enumerate}\item\label{f} i\end{enumerate}
\end{document}'''


def context():
    from plasTeX.TeX import TeX
    return TeX().ownerDocument.context


def fields(n):
    """what a page of another document can show of a restored label"""
    def s(x):
        return '' if x is None else str(x)
    return [s(getattr(n, 'ref', None)), s(getattr(n, 'title', None)), s(getattr(n, 'urloverride', None) or getattr(n, 'url', None))]


JUNK = [b'', b'\0', b'not a pickle', b'\x80\x04.', pickle.dumps(5), pickle.dumps([1, 2]), pickle.dumps({'HTML5': 5, 'XHTML': 5}), pickle.dumps({'HTML5': {'a': 3}}),
        pickle.dumps({'HTML5': {'a': {}}}), pickle.dumps({'HTML5': None}), pickle.dumps({1: {2: 3}}), pickle.dumps(None), pickle.dumps({'XHTML': {'a': [1]}}),
        pickle.dumps({'HTML5': {'a': {'ref': 5, 'url': None, 'title': {}, 'macroName': 7}}}), b'\x80\x05\x95' + b'\xff' * 60, pickle.dumps({'HTML5': {5: {'ref': '1'}}}),
        pickle.dumps({'HTML5': ['a']}), b'\x89PNG\r\n\x1a\n' * 9, 'é'.encode() * 50, pickle.dumps({'HTML5': {'a': {'nosuch': 1, 'parentNode': 3, 'attributes': 4, 'childNodes': 5, 'id': 6}}}),
        b'cno_such_module\nthing\n.', pickle.dumps({'HTML5': {'a': 'x', 'b': {'url': 'u'}}})]


def observe(case):
    """a history of one or more files, through Context.persist/restore"""
    from plasTeX.TeX import TeX
    from plasTeX import TeXFragment
    ev = []
    t = TeX()
    t.input(SOURCE)
    doc = t.parse()
    nodes = dict(doc.context.persistentLabels)
    wd = tempfile.mkdtemp(dir=case['work'])
    ctx = context()
    try:
        for st in case['steps']:
            k, f = st[0], os.path.join(wd, st[1])
            size = os.path.getsize(f) if os.path.isfile(f) else 0
            if k == 'save':
                r, labels = st[2], st[3]
                c = doc.context
                c.persistentLabels = {}
                out = []
                for name, key, ver in labels:
                    n = nodes[key]
                    n.ref = TeXFragment()
                    n.ref.ownerDocument = doc
                    n.ref.append(doc.createTextNode(ver))
                    n.url = 'file-%s.html#%s' % (st[1], name)
                    c.persistentLabels[name] = n
                    out.append([name] + fields(n))
                e = {'k': k, 'f': st[1], 'r': r, 'labels': out}
                c.persist(f, r)
                ev.append(e)
            elif k == 'restore':
                ctx.labels = {}
                before = ctx.warnOnUnrecognized, set(ctx.keys()) - {'Macro'}, len(ctx.contexts)
                ctx.restore(f, st[2])
                if (ctx.warnOnUnrecognized, set(ctx.keys()) - {'Macro'}, len(ctx.contexts)) != before:
                    ev.append({'k': 'restore changed the context', 'f': st[1]})
                got = []
                for name, n in ctx.labels.items():
                    try:
                        got.append([str(name)] + fields(n))
                    except Exception as e:
                        got.append([str(name), 'unreadable', '', ''])
                ev.append({'k': k, 'f': st[1], 'r': st[2], 'got': got})
            elif k == 'flip':
                if size:
                    b = bytearray(open(f, 'rb').read())
                    pos = st[2] if isinstance(st[2], int) else int(st[2] * len(b) * 8)
                    if pos >= len(b) * 8:
                        continue
                    b[pos // 8] ^= 1 << pos % 8
                    open(f, 'wb').write(bytes(b))
                    ev.append({'k': 'damage', 'f': st[1]})
            elif k == 'cut':
                if size:
                    pos = st[2] if isinstance(st[2], int) else int(st[2] * size)
                    if pos >= size:
                        continue
                    open(f, 'r+b').truncate(pos)
                    ev.append({'k': 'damage' if pos else 'gone', 'f': st[1]})
            elif k == 'gone':
                if os.path.isfile(f):
                    os.remove(f)
                if st[2]:
                    open(f, 'wb').close()
                ev.append({'k': k, 'f': st[1]})
            elif k == 'junk':
                open(f, 'wb').write(JUNK[st[2]])
                ev.append({'k': 'foreign', 'f': st[1]})
    except Exception as e:
        ev.append({'k': 'exc', 'f': 'x', 'what': '%s: %s' % (type(e).__name__, str(e)[:200]), 'after': len(ev)})
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return ev


KEYS = 'abcdef'


def history(rng, seq, f='p.paux'):
    """concrete steps for a model history, reading back after every step"""
    steps = []
    for a in seq:
        if a[0] == 'save':
            labels = [[n, rng.choice(KEYS) if False else KEYS[i % 6], v] for i, (n, v) in enumerate(a[2])]
            steps.append(('save', f, a[1], labels))
        elif a[0] == 'gone':
            steps.append(('gone', f, rng.random() < .5))
        elif a[0] == 'junk':
            steps.append(('junk', f, rng.randrange(len(JUNK))))
        else:
            steps.append((a[0], f, rng.random()))
        steps += [('restore', f, 'HTML5'), ('restore', f, 'XHTML')]
    return steps


# ---- whole documents ---------------------------------------------------------
OBJ = {'section': '\\section{Sec %(n)s <x> \\& y}\\label{%(n)s}\n', 'equation': '\\begin{equation}\\label{%(n)s} x=1\\end{equation}\n',
       'table': '\\begin{table}T\\caption{Tab %(n)s}\\label{%(n)s}\\end{table}\n', 'figure': '\\begin{figure}F\\caption{Cap %(n)s}\\label{%(n)s}\\end{figure}\n',
       'plain': '\\section{Unlabelled}\n'}


def number(objs):
    """label -> number, for the objects of an article"""
    cnt = {k: 0 for k in OBJ}
    out = {}
    for kind, n in objs:
        k = 'section' if kind == 'plain' else kind
        cnt[k] += 1
        if n:
            out[n] = str(cnt[k])
    return out


def project(case):
    """several documents that refer to each other, processed in some order"""
    ev = []
    wd = tempfile.mkdtemp(dir=case['work'])
    try:
        for st in case['steps']:
            if st[0] == 'run':
                _, d, r, objs, refs = st
                src = '\\documentclass{article}\n\\newtheorem{thm}{Theorem}\n\\begin{document}\nStart.\n\n'
                src += ''.join(OBJ[k] % {'n': n} + '\n' for k, n in objs)
                # unique words around every reference
                src += '\n\n' + '\n\n'.join('Zq \\ref{%s} Zz' % n for _, n in refs) + '\n\\end{document}\n'
                p = os.path.join(wd, d + '.tex')
                open(p, 'w').write(src)
                out = os.path.join(wd, 'out-' + r)
                render.run(p, out, render.config(r, files__filename='$jobname [$jobname-$id, $jobname-s$num(4)]'))
                pages = render.html_files(out)
                found = re.findall(r'Zq\s*(.*?)\s*Zz', open_newest(out), re.S)
                others = {}
                for (od, n), h in zip(refs, found):
                    m = re.search(r'href="([^"]*)"[^>]*>(.*?)</a>', h, re.S)
                    others.setdefault(od, [])
                    if m:
                        name, _, frag = m.group(1).partition('#')
                        page = pages.get(name, '')
                        ok = 'ok' if page and (('id="%s"' % frag in page) if frag else name == od + '-' + n + '.html') and frag in ('', n) else 'bad: ' + m.group(1)
                        others[od].append([n, re.sub('<[^>]*>', '', m.group(2)).strip(), '', ok])
                if len(found) != len(refs):
                    ev.append({'k': 'references missing from the page', 'f': d})
                for od in sorted(set(x for x, _ in refs)):
                    ev.append({'k': 'restore', 'f': od, 'r': r, 'got': others[od]})
                ev.append({'k': 'save', 'f': d, 'r': r, 'labels': [[n, v, '', 'ok'] for n, v in number(objs).items()]})
            else:
                f = os.path.join(wd, st[1] + '.paux')
                if not os.path.isfile(f):
                    continue
                if st[0] == 'gone':
                    os.remove(f)
                    ev.append({'k': 'gone', 'f': st[1]})
                elif st[0] == 'junk':
                    open(f, 'wb').write(JUNK[st[2]])
                    ev.append({'k': 'foreign', 'f': st[1]})
                else:
                    b = bytearray(open(f, 'rb').read())
                    if st[0] == 'flip' and b:
                        pos = int(st[2] * len(b) * 8)
                        b[pos // 8] ^= 1 << pos % 8
                    elif b:
                        b = b[:int(st[2] * len(b))]
                    open(f, 'wb').write(bytes(b))
                    ev.append({'k': 'damage', 'f': st[1]})
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ev.append({'k': 'exc', 'f': 'x', 'what': '%s: %s @%s:%s' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.name)})
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return ev


def open_newest(out):
    """the page with the references of the document just rendered"""
    best = ''
    t = -1
    for base, _, files in os.walk(out):
        for f in files:
            p = os.path.join(base, f)
            if f.endswith('.html') and os.stat(p).st_mtime_ns > t:
                s = open(p, encoding='utf-8').read()
                if 'Zq' in s:
                    best, t = s, os.stat(p).st_mtime_ns
    return best


KINDS = ['section', 'section', 'equation', 'figure', 'table']


def rproject(rng, work):
    kinds = KINDS
    docs = ['alpha', 'beta', 'gamma'][:rng.choice([2, 2, 3])]
    every = {d: [d + k + str(i) for i in range(3) for k in 'x'] for d in docs}
    steps = []
    for _ in range(rng.randrange(4, 8)):
        d = rng.choice(docs)
        if steps and rng.random() < .25:
            steps.append(rng.choice([('gone', d), ('junk', d, rng.randrange(len(JUNK))), ('flip', d, rng.random()), ('flip', d, rng.random()), ('cut', d, rng.random())]))
        d = rng.choice(docs)
        objs = []
        names = [n for n in every[d] if rng.random() < .8]
        rng.shuffle(names)
        for n in names:
            if rng.random() < .4:
                objs.append(('plain', ''))
            objs.append((rng.choice(kinds), n))
        refs = [(o, n) for o in docs if o != d for n in every[o]]
        rng.shuffle(refs)
        steps.append(('run', d, rng.choice(['HTML5', 'HTML5', 'XHTML']), objs, refs))
    return {'work': work, 'steps': steps}


def run(ck):
    rng = ck.rng
    fn = os.path.join(ck.work, 'gen.json')
    ck.model('MC_Persist', 'MC_Persist1.cfg' if ck.thorough else 'MC_Persist0.cfg', env={'OUT': fn}, timeout=300, expect_states=1000)
    hists = json.load(open(fn))
    cases = [{'work': ck.work, 'steps': history(rng, h)} for h in hists]
    # every bit and every length of a file
    small = [['save', 'HTML5', [['a', '1'], ['b', '2.3']]]]
    two = [['save', 'HTML5', [['a', '1']]], ['save', 'XHTML', [['a', '2'], ['lab:el', '3'], ['c', 'iv']]]]
    nbits = 0
    for base in (small, two):
        pre = [s for s in history(rng, base) if s[0] == 'save']
        case = {'work': ck.work, 'steps': pre}
        size = sizeof(case)
        ps = list(range(size * 8)) + [('c', i) for i in range(size)]
        if not ck.thorough and base is two:
            ps = rng.sample(ps, len(ps) // 3)
        nbits += len(ps)
        for b in range(0, len(ps), 12):
            steps = []
            for p in ps[b:b + 12]:
                f = 'p%s.paux' % (p if isinstance(p, int) else 'c%d' % p[1])
                steps += [(s[0], f) + s[2:] for s in pre]
                steps.append(('flip', f, p) if isinstance(p, int) else ('cut', f, p[1]))
                steps += [('restore', f, 'HTML5'), ('restore', f, 'XHTML'), ('save', f, 'HTML5', [['n', 'd', '9']]), ('restore', f, 'HTML5'), ('restore', f, 'XHTML')]
            cases.append({'work': ck.work, 'steps': steps})
    for j in range(len(JUNK)):
        for r in ('HTML5', 'XHTML'):
            cases.append({'work': ck.work, 'steps': [('junk', 'j.paux', j), ('restore', 'j.paux', r), ('save', 'j.paux', r, [['z', 'a', '4']]), ('restore', 'j.paux', r)]})
    projects = [rproject(rng, ck.work) for _ in range(150 if ck.thorough else 24)]
    res = pool.run(observe, cases, timeout=60, chunk=max(1, min(20, len(cases) // 64)))
    res2 = pool.run(project, projects, timeout=120)
    traces = [r if isinstance(r, list) else [{'k': 'exc', 'f': 'x', 'what': r['exc']}] for r in res + res2]
    vs = ck.validate('PersistTrace', traces, batch=len(traces) // 8 + 1, parallel=8, timeout=600)
    good = []
    for c, t, v in zip(cases + projects, traces, vs):
        if v[0] != 'ok':
            ck.violation(json.dumps(c['steps'])[:300], v[1], {'steps': c['steps'], 'events': t, 'verdict': v[1]})
        else:
            good.append(t)
    bad = []
    for t in good:
        t = json.loads(json.dumps(t))
        full = [i for i, e in enumerate(t) if e['k'] == 'restore' and e['got']]
        if not full or len(bad) > 60:
            continue
        e = t[rng.choice(full)]
        x = rng.randrange(2)
        if x == 0:
            e['got'][0][1] += 'x'
        else:
            e['got'][0][0] += 'x'
        bad.append(t)
    ck.selftest(ck.validate('PersistTrace', bad, count=False))
    ck.cov['traces_validated_against_impl'] += len(traces)
    ck.cov['histories_from_model'] = len(hists)
    ck.cov['damaged_files'] = nbits
    ck.cov['projects'] = len(projects)
    ck.cov['references_checked'] = sum(len(e['got']) for r in res2 if isinstance(r, list) for e in r if e['k'] == 'restore')
    ck.sample(traces[len(hists) // 2])
    ck.sample(traces[-1])
    ck.assumptions += ['one fault between two saves (a second fault that destroys the mark of the digest can hide the first)',
                       'the label sets of the files of one project are disjoint']


def sizeof(case):
    """size of the file these saves produce"""
    case = dict(case, probe=True)
    r = pool.run(_size, [case], jobs=1, timeout=30)[0]
    return r if isinstance(r, int) else 300


def _size(case):
    steps = case['steps']
    keep = []
    import checks.c20 as me
    real = shutil.rmtree
    def grab(d, **kw):
        for f in os.listdir(d):
            keep.append(os.path.getsize(os.path.join(d, f)))
        real(d, **kw)
    me.shutil.rmtree = grab
    try:
        observe(case)
    finally:
        me.shutil.rmtree = real
    return keep[0]
