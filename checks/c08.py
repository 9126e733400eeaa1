"""C08: counters and automatic numbers, against Numbering.tla."""
import json, os, random
from vf import pool, docnum


def representations(case):
    """every representation of the counter values, from the code"""
    from plasTeX.TeX import TeX
    t = TeX()
    c = t.ownerDocument.context
    c.newcounter('cntr')
    ev = [{'k': 'newcounter', 'n': 'cntr', 'within': ''}]
    for v in range(case['lo'], case['hi']):
        ev.append({'k': 'set', 'n': 'cntr', 'v': v})
        c.counters['cntr'].setcounter(v)
        for f in docnum.FORMATS:
            if v <= 26 or f[1:] != 'lph':
                got = str(getattr(c.counters['cntr'], f))
                if v % case['via'] == 0:     # through the document as well
                    sub = TeX(t.ownerDocument)
                    sub.input('\\%s{cntr}' % f)
                    ev.append({'k': 'print', 'n': 'cntr', 'f': f, 'got': [''.join(str(x) for x in sub)]})
                ev.append({'k': 'print', 'n': 'cntr', 'f': f, 'got': [got]})
    return {'cls': 'article', 'depth': 2, 'events': ev, 'end': {}, 'part': True, 'texsrc': ''}


def build(ck, focus, n, work, shown=.0):
    out = []
    for i in range(n):
        rng = random.Random('%s%d-%d' % (focus, ck.seed, i))
        g = docnum.Gen(rng, focus)
        kw = dict(work=work)
        if rng.random() < shown:
            kw.update(render=rng.choice(['HTML5', 'HTML5', 'XHTML']), split=rng.choice([-10, 0, 1, 2, 3]))
        out.append(g.d.case(**kw))
        if focus == 'refs':
            d = docnum.moved(g.d, rng.random() < .5)
            out.append(d.case(**kw))
    return out


def judge(ck, cases, res):
    """verdicts of the specification on the processed documents"""
    traces = [r if 'exc' not in r else {'cls': 'article', 'depth': 2, 'events': [{'k': 'exc', 'what': r['exc']}], 'end': {}} for r in res]
    small = [{k: v for k, v in t.items() if k != 'texsrc'} for t in traces]
    vs = ck.validate('NumberingTrace', small, batch=len(small) // 8 + 1, parallel=8, timeout=700)
    good = []
    for c, t, v in zip(cases, small, vs):
        if v[0] != 'ok':
            src = c.get('tex', str(c))
            ck.violation(src, v[1], {'source': src, 'document': t, 'verdict': v[1]})
        else:
            good.append(t)
    ck.cov['traces_validated_against_impl'] += len(traces)
    return small, good


def corrupt(rng, t):
    """the same trace with one wrong observation, or None"""
    t = json.loads(json.dumps(t))
    es = [e for e in t['events'] if 'num' in e and e['num'] != [''] or e.get('got') or e.get('to')]
    if not es:
        return None
    e = rng.choice(es)
    if e.get('got'):
        e['got'] = [e['got'][0] + '1']
    elif 'to' in e and rng.random() < .6:
        e['to'] = e['to'][1:] if isinstance(e['to'], list) else e['to'] + 1
    elif 'num' in e:
        e['num'] = rng.choice(([['']] if e['num'][0] else []) + [[e['num'][0] + 'i'], ['0' + e['num'][0]]])
    else:
        return None
    return t


def run(ck):
    rng = ck.rng
    cases = []
    for x, cls, kind in (('B', 'book', 'numbers'), ('A', 'article', 'numbers'), ('L', 'article', 'lists')):
        fn = os.path.join(ck.work, 'gen%s.json' % x)
        ck.model('MC_Numbering', 'MC_Numbering%s%d.cfg' % (x, ck.thorough), env={'OUT': fn}, timeout=600, expect_states=5000)
        hists = json.load(open(fn))
        ck.cov['histories_of_model_' + x] = len(hists)
        keep = 20000 if ck.thorough else 900
        for h in (rng.sample(hists, keep) if len(hists) > keep else hists):
            cases.append(docnum.from_history(cls, kind, h).case(work=ck.work))
    nh = len(cases)
    cases += build(ck, 'numbers', 20000 if ck.thorough else 2200, ck.work)
    res = pool.run(docnum.observe, cases, timeout=60, chunk=max(1, min(40, len(cases) // 64)))
    reps = [{'lo': i, 'hi': min(i + 250, 5000), 'via': 1 if ck.thorough else 7} for i in range(1, 5000, 250)]
    cases += reps
    res += pool.run(representations, reps, timeout=120)
    traces, good = judge(ck, cases, res)
    bad = [x for x in (corrupt(rng, t) for t in rng.sample(good, min(150, len(good)))) if x]
    ck.selftest(ck.validate('NumberingTrace', bad, count=False))
    ck.cov['documents'] = len(cases) - len(reps)
    ck.cov['numbered_objects'] = sum('o' in e for t in traces[:-len(reps)] for e in t['events'])
    ck.cov['representations'] = sum(e['k'] == 'print' for t in traces[-len(reps):] for e in t['events'])
    ck.sample(traces[0])
    ck.sample(traces[nh + 1])
    ck.assumptions += ['article, book and report classes; sections are numbered to the configured depth (sec-num-depth), as plasTeX has no counter secnumdepth',
                       'items have the arabic number of their own list as their number (plasTeX does not join the labels of enclosing lists)',
                       'not modelled: subequations, \\tag, longtable captions, \\frontmatter, the page counter']
