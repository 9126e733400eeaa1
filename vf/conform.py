"""The common course of a check: cases are run in the implementation, what is observed becomes traces,
TLC decides them, traces that were tampered with must be rejected."""
import json
from vf import pool


def run(ck, spec, cases, observe, mktrace, describe, corrupt, batch=1500, timeout=60, chunk=10, tlc_timeout=800, maxskip=8, selftests=80, minimize=None):
    res = pool.run(observe, cases, timeout=timeout, chunk=chunk)
    traces = [mktrace(c, r) for c, r in zip(cases, res)]
    vs = ck.validate(spec, traces, batch=min(batch, len(traces) // 8 + 1), parallel=8, timeout=tlc_timeout)
    good, skipped = [], 0
    for c, t, r, v in zip(cases, traces, res, vs):
        if v[0] == 'skip':
            skipped += 1
        elif v[0] == 'known':               # the specification names a finding; it must be on the list
            ck.violation(str(v[1]).strip('"'), v[1], {'case': c, 'observed': r, 'verdict': v[1]})
        elif v[0] != 'ok':
            ck.violation(describe(c), v[1], {'case': c, 'observed': r, 'verdict': v[1]})
        else:
            good.append(t)
    if skipped > len(cases) // maxskip:
        raise RuntimeError('%d of %d cases are outside the specification' % (skipped, len(cases)))
    bad = []
    for t in good if len(good) <= selftests else ck.rng.sample(good, min(len(good), 4 * selftests)):
        b = corrupt(ck.rng, json.loads(json.dumps(t)))
        if b is not None:
            bad.append(b)
        if len(bad) >= selftests:
            break
    ck.selftest(ck.validate(spec, bad, count=False))
    ck.cov['traces_validated_against_impl'] += len(traces) - skipped
    ck.cov['cases_outside_the_specification'] = ck.cov.get('cases_outside_the_specification', 0) + skipped
    ck.sample(traces[0])
    ck.sample(traces[-1])
    return good
