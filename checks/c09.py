"""C09: references and labels, against Numbering.tla."""
import json, os
from vf import pool, docnum
from checks.c08 import build, judge, corrupt


def run(ck):
    rng = ck.rng
    fn = os.path.join(ck.work, 'gen.json')
    ck.model('MC_Numbering', 'MC_NumberingR%d.cfg' % ck.thorough, env={'OUT': fn}, timeout=600, expect_states=5000)
    hists = json.load(open(fn))
    keep = 20000 if ck.thorough else 1500
    if len(hists) > keep:
        hists = rng.sample(hists, keep)
    cases = [docnum.from_history('article', 'refs', h).case(work=ck.work) for h in hists]
    nh = len(cases)
    cases += build(ck, 'refs', 7000 if ck.thorough else 900, ck.work, shown=.08)
    res = pool.run(docnum.observe, cases, timeout=90, chunk=max(1, min(40, len(cases) // 64)))
    traces, good = judge(ck, cases, res)
    bad = [x for x in (corrupt(rng, t) for t in rng.sample(good, min(150, len(good)))) if x]
    ck.selftest(ck.validate('NumberingTrace', bad, count=False))
    ck.cov['documents'] = len(cases)
    ck.cov['documents_rendered'] = sum('render' in c for c in cases)
    ck.cov['references'] = sum(e['k'] == 'ref' for t in traces for e in t['events'])
    ck.cov['dangling'] = sum(e['k'] == 'ref' and e['to'] == 0 for t in traces for e in t['events'])
    ck.cov['labels'] = sum(e['k'] == 'label' for t in traces for e in t['events'])
    ck.sample(traces[0])
    ck.sample(traces[nh + 1])
    ck.assumptions += ['no label is defined twice', 'labels after \\nonumber, in starred captions and after \\refstepcounter are not generated (LaTeX attaches them to no object of the document)']
