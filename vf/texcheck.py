"""Checks of C02/C03/C04: programs replayed on plasTeX, judged by MiniTeXTrace."""
import os, json
from . import pool, minitex, texgen
from .core import MachineryError


def programs(ck, module, cfg, **kw):
    """Programs enumerated (and written out) by a TLC model."""
    fn = os.path.join(ck.work, cfg.replace('.cfg', '') + '.json')
    ck.model(module, cfg, env={'OUT': fn}, **kw)
    progs = json.load(open(fn))
    return [{'toks': texgen.clean(p), 'src': texgen.render(texgen.clean(p)),
             'ctr': ['cx'] if '\\newcounter' in p else []} for p in progs]


def judge(ck, cases, label, min_judged, chunk=1):
    """Run the programs, let TLC judge the traces; returns the accepted traces."""
    if not cases:
        raise MachineryError('no programs for ' + label)
    rs = pool.run(minitex.observe, cases, timeout=2.0, chunk=chunk)
    trs = [minitex.trace(c, r) for c, r in zip(cases, rs)]
    batch = 4000
    vs = ck.validate('MiniTeXTrace', trs, batch=batch, parallel=2 if len(trs) > batch else 1, timeout=850)
    # what hung or died is run again on its own before it is believed
    redo = [i for i, v in enumerate(vs) if v[0] == 'reject' and trs[i]['exc']]
    if redo:
        rr = pool.run(minitex.observe, [cases[i] for i in redo], timeout=20.0, chunk=1)
        tr2 = [minitex.trace(cases[i], r) for i, r in zip(redo, rr)]
        for i, t, v in zip(redo, tr2, ck.validate('MiniTeXTrace', tr2, count=False)):
            trs[i], vs[i] = t, v
    n = {'ok': 0, 'skip': 0, 'reject': 0}
    good = []
    for c, t, v in zip(cases, trs, vs):
        n[v[0]] += 1
        if v[0] == 'ok':
            good.append(t)
        elif v[0] == 'reject':
            ck.violation('%s:%s' % (label, c['src']), '%s\n   %s' % (c['src'], v[1]),
                         {'src': c['src'], 'tokens': c['toks'], 'observed': t, 'verdict': v[1]})
    judged = n['ok'] + n['reject']
    if judged < min_judged * len(cases):
        raise MachineryError('%s: only %d of %d programs are in the language' % (label, judged, len(cases)))
    ck.cov['traces_validated_against_impl'] += judged
    ck.cov.setdefault('programs', {})[label] = {'run': len(cases), 'judged': judged, 'outside_language': n['skip']}
    for c in cases[:2]:
        ck.sample({label: c['src'][:300]})
    return good


def corrupt(ck, good):
    """Binding self-test: damaged observations must be rejected."""
    bad = []
    for t in ck.rng.sample(good, min(40, len(good))):
        t = json.loads(json.dumps(t))
        k = ck.rng.randrange(4)
        if k == 0 or not t['out']:
            t['out'] = t['out'] + ['z']
        elif k == 1:
            i = ck.rng.randrange(len(t['out']))
            t['out'][i] = 'A' if t['out'][i] != 'A' else 'B'
        elif k == 2:
            t['depth'] = 1
        else:
            t['exc'] = 'KeyError'
        bad.append(t)
    ck.selftest(ck.validate('MiniTeXTrace', bad, count=False) if bad else [])


def random_programs(ck, weights, n):
    return [minitex.make(ck.rng, weights) for _ in range(n)]


def pick(ck, cases, n):
    return cases if n is None or len(cases) <= n else ck.rng.sample(cases, n)


def corpus(name):
    """Programs kept because a planted or real defect once needed them."""
    fn = os.path.join(os.path.dirname(__file__), '..', 'corpus', name + '.json')
    if not os.path.exists(fn):
        return []
    return [{'toks': t, 'src': texgen.render(t), 'ctr': sorted({c for c in ('cx', 'cy', 'cz')
             if '\\newcounter { ' + ' '.join(c) in ' '.join(t)})} for t in json.load(open(fn))]
