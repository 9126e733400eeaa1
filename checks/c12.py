"""C12: pages show the text of the document and turn none of it into markup (Escaping.tla)."""
import json, os, re, shutil, itertools
from vf import conform, docgen

TRACE = 'EscapingTrace'
FEATS = {'title', 'abstract', 'fn', 'idx', 'verb', 'href', 'ref', 'cite', 'mp', 'math', 'list', 'quote', 'center', 'table', 'figure', 'verbatim', 'thm', 'equation', 'proof', 'align', 'toc', 'sym', 'appendix'}
NASTY = ['<', '>', '&', '"', "'", '<b>', '</p>', '<!--', '-->', '&lt;', '&amp;', '&amp;lt;', '&nbsp;', '&#60;', '&#x3c;', '&#60', '&copy', '&notin;', '&not', '&hellip;', '&bogus;', '<script>alert(1)</script>',
         '<img src=x onerror="a()">', '" onclick="x', "' a='b", '<![CDATA[', ']]>', '<?xml ?>', '</script>', '</title>', '</pre>', '<p></p>', '<td> </td>', '<', '&&', '<<', '>>', '&;', '&#', '&#;', '&#x;', '& lt;', 'a<b', 'a>b', 'AT&T',
         '&img-width;', '&a-b-height;', '&x.png-depth;&px;', 'é', '€', '中文', '\U0001f600', '&é;', '<é>', '\u00a0', '¼', '{{ x }}', '{% x %}', '${x}', 'python:1', '&amp', '&lt', '&quot;', '&apos;', '%s', '%(x)s', '\\0']
TEXT = {'&': '\\&', '#': '\\#', '$': '\\$', '%': '\\%', '_': '\\_', '{': '\\{', '}': '\\}', '\\': '\\textbackslash{}', '~': '\\textasciitilde{}', '^': '\\textasciicircum{}', '\u00a0': '~'}
BAD = {'text': '\\~^[]', 'index': '\\~^!@|"[]', 'verb': '+\\', 'url': '\\{}$~^\u00a0 '}
HTML5 = [('HTML5', t) for t in ('default', 'minimal')]
XHTML = [('XHTML', t) for t in ('default', 'minimal', 'plain', 'python')]


def spell(kind, s):
    return ''.join(TEXT.get(c, c) for c in s) if kind in ('text', 'index') else s


def clean(kind, s, where=''):
    """what can be written in a position of this kind"""
    if where.split('/')[0] in ('title', 'section'):
        s = s.replace('\u00a0', '')          # these are also tooltips, where white space is collapsed
    s = re.sub(' +', ' ', ''.join(c for c in s if c not in BAD[kind]))
    if kind == 'url':
        s = re.sub(r'%|#.*#', '', s)
    return s.strip(' ') or '<'


def strings(rng, pool):
    r = rng.random()
    if r < .45 and pool:
        return ''.join(chr(c) for c in rng.choice(pool))
    if r < .8:
        return rng.choice(NASTY)
    if r < .9:
        return rng.choice(NASTY) + rng.choice(['', ' ', 'x']) + rng.choice(NASTY)
    return ''.join(rng.choice('<>&;#"\'lt!-/=a1 é{}[%_$`') for _ in range(rng.randint(1, 12)))


def case(rng, work, pool=(), size=(5, 3), feats=None, cfg=None):
    renderer, theme = cfg or rng.choice(HTML5 * 3 + XHTML)
    f = set(feats or FEATS)
    if renderer == 'XHTML':
        f -= {'math', 'equation', 'align'}        # formulas are pictures there
    for x in sorted(f):
        if rng.random() < .25:
            f.discard(x)
    if 'href' in f and rng.random() < .3:
        f.discard('thm')
    g = docgen.Gen(rng, f)
    d = g.document(rng.choice(['article', 'article', 'book', 'report']), size[0], size[1])
    if len(g.leaves) > 900:
        return case(rng, work, pool, (2, 2), feats, cfg)
    leaves = [{'kind': k, 'pos': p, 'text': clean(k, strings(rng, pool), p)} for k, p in g.leaves]
    enc = rng.choice(['utf-8'] * 4 + ['ascii', 'latin-1'])
    esc = rng.random() < .5 or enc != 'utf-8'
    return {'doc': d, 'leaves': leaves, 'renderer': renderer, 'theme': theme, 'split': rng.choice([-10, -1, 0, 1, 2, 2, 2, 6]), 'esc': esc, 'enc': enc, 'work': work}


def used(d):
    """the leaves that occur in the source"""
    seen = set()
    docgen.latex(d, lambda n: seen.add(n) or '')
    return seen


def render(case, src, esc, enc, tag):
    from vf import render as R
    base = os.path.join(case['work'], 'r%d%s' % (os.getpid(), tag))
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        with open(os.path.join(base, 'doc.tex'), 'w', encoding='utf-8') as f:
            f.write(src)
        cfg = R.config(case['renderer'], general__theme=case['theme'], files__split_level=case['split'], files__escape_high_chars=esc, files__output_encoding=enc, general__copy_theme_extras=False)
        R.run(os.path.join(base, 'doc.tex'), os.path.join(base, 'out'), cfg)
        out = {}
        for b, _, fs in os.walk(os.path.join(base, 'out')):
            for fn in fs:
                if fn.endswith('.html'):
                    with open(os.path.join(b, fn), 'rb') as f:
                        out[fn] = f.read().decode(enc)
        return out
    finally:
        shutil.rmtree(base, ignore_errors=True)


def plain(s, enc):
    """generated identifiers by first appearance, the name of the encoding"""
    ids = {}
    s = re.sub(r'\ba\d{10}\b', lambda m: ids.setdefault(m.group(0), 'a%010d' % len(ids)), s)
    return [ord(c) for c in s.replace('charset="%s"' % enc, 'charset="utf-8"').replace('charset=%s"' % enc, 'charset=utf-8"')]


def observe(case):
    if case.get('hook'):
        import plasTeX.Renderers.PageTemplate as P
        from plasTeX.DOM import Text
        r = P.Renderer()
        return [[list(map(ord, r.textDefault(Text(''.join(map(chr, s)))))), s] for s in case['hook']]
    d, lv = case['doc'], case['leaves']
    base = render(case, docgen.latex(d, lambda n: 'Qm%03dqwq%03dmQ' % (n, n)), False, 'utf-8', 'b')
    adv = render(case, docgen.latex(d, lambda n: 'Qm%03dq%sq%03dmQ' % (n, spell(lv[n]['kind'], lv[n]['text']), n)), case['esc'], case['enc'], 'a')
    return [[fn, plain(base.get(fn, ''), 'utf-8'), plain(adv.get(fn, ''), case['enc'])] for fn in sorted(set(base) | set(adv))]


# positions that are not displayed by a theme
HIDDEN = {'text': set()}


def mktrace(case, obs):
    if isinstance(obs, dict):
        return {'k': 'exc', 'what': obs.get('exc', '?')}
    if case.get('hook'):
        return {'k': 'hook', 'calls': [{'text': s, 'got': o} for o, s in obs]}
    u = used(case['doc'])
    shown = lambda i, l: i in u and l['pos'] not in HID and (l['pos'] != 'index/shown' or case['doc']['index'])
    return {'k': 'pages', 'ascii': case['esc'], 'leaves': [{'kind': l['kind'], 'pos': l['pos'], 'text': list(map(ord, l['text'])), 'word': [119], 'shown': shown(i, l)} for i, l in enumerate(case['leaves'])],
            'pages': [{'name': n, 'base': b, 'adv': a} for n, b, a in obs]}


HID = {'section/short', 'thanks', 'href/url', 'index', 'thm/name'}


def rand_case(rng, size=None, work='/tmp/q/w12'):
    os.makedirs(work, exist_ok=True)
    return case(rng, work, size=(3, 2) if size else (5, 3))


def describe(case):
    return '%s/%s: %s' % (case['renderer'], case['theme'], json.dumps([l['text'] for l in case['leaves']])[:200])


def corrupt(rng, t):
    if t['k'] != 'pages':
        c = rng.choice(t['calls'])
        c['got'] = c['got'] + rng.choice([[60, 112, 62], [120], [38, 108, 116, 59]])
        return t
    ps = [p for p in t['pages'] if p['adv'] and p['base']]
    if not ps:
        return None
    p = rng.choice(ps)
    a = ''.join(map(chr, p['adv']))
    marks = [m.start() for m in re.finditer(r'q\d\d\dmQ', a)]
    if not marks:
        return None
    i = rng.choice(marks)
    x = rng.randrange(4)
    if x == 0:
        a = a[:i] + rng.choice(['<b>', 'x', '<', '&lt;', ' ']) + a[i:]
    elif x == 1:
        a = a[:i - 1] + 'x' + a[i:]
    elif x == 2:
        a = re.sub(r'&(lt|amp|gt);', lambda m: {'lt': '<', 'amp': '&', 'gt': '>'}[m.group(1)] + 'b', a, count=1) if re.search('&(lt|amp|gt);', a) else a + '<p>'
    elif t['ascii']:
        a = a[:i] + '\u00e9' + a[i:]
    else:
        a = a.replace('</p>', '', 1) if '</p>' in a else a + '<i>'
    p['adv'] = [ord(c) for c in a]
    return t


def run(ck):
    rng = ck.rng
    fn = os.path.join(ck.work, 'strings.json')
    ck.model('MC_Escaping', 'MC_Escaping1.cfg' if ck.thorough else 'MC_Escaping0.cfg', env={'OUT': fn}, timeout=600, expect_states=20000)
    pool = json.load(open(fn))['strings']
    n = 4000 if ck.thorough else 330
    cases = [case(rng, ck.work, pool) for _ in range(n)]
    for i, cfg in enumerate((HTML5 + XHTML) * (8 if ck.thorough else 1)):      # every theme with everything in one document
        cases.append(case(rng, ck.work, pool, (7, 5), FEATS, cfg))
    for i in range(0, len(pool), 150):
        cases.append({'hook': pool[i:i + 150]})
    conform.run(ck, TRACE, cases, observe, mktrace, lambda c: 'text hook' if c.get('hook') else describe(c), corrupt, chunk=4, batch=100)
    ck.cov['documents_rendered_twice'] = n
    ck.cov['texts_through_the_hook'] = len(pool)
    ck.cov['leaves'] = sum(len(c['leaves']) for c in cases if 'leaves' in c)
    ck.cov['positions'] = sorted({l['pos'] for c in cases if 'leaves' in c for l in c['leaves']})
    ck.assumptions += ['named character references are those of Codes.tla; characters 128-159 are not written as numeric references',
                       'formulas are left out of XHTML documents (they are pictures there)']
