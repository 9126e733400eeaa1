"""Run MiniTeX programs on plasTeX and record what is observable."""
from vf import texgen


def observe(case):
    from plasTeX.TeX import TeX
    import plasTeX
    tex = TeX()
    ctx = tex.ownerDocument.context

    class vfcat(plasTeX.Command):
        def invoke(self, tex):
            c = self.ownerDocument.context
            return tex.textTokens('%d%d' % (c.whichCode('@'), c.whichCode('!')))
    ctx.addGlobal('vfcat', vfcat)
    d0 = len(ctx.contexts)
    tex.input(case['src'])
    r = {'exc': '', 'out': [], 'depth': 0, 'ctr': []}
    doc = tex.parse()
    r['out'] = list(''.join(doc.textContent.split()))
    r['depth'] = len(ctx.contexts) - d0
    r['ctr'] = [[k, int(ctx.counters[k].value)] for k in case.get('ctr', ()) if k in ctx.counters]
    return r


def trace(case, r):
    if 'out' not in r:
        r = {'exc': r['exc'], 'out': [], 'depth': 0, 'ctr': []}
    return {'toks': case['toks'], 'out': r['out'], 'depth': r['depth'], 'ctr': r['ctr'], 'exc': r['exc']}


def make(rng, weights, n=None, depth=3, budget=None):
    g = texgen.Gen(rng, weights, budget or rng.choice([10, 20, 40, 60]))
    toks = texgen.clean(g.program(n or rng.randint(3, 12), depth))
    return {'toks': toks, 'src': texgen.render(toks), 'ctr': sorted(g.counters)}
