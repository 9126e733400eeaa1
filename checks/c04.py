"""C04: groups, environments and boxes confine local changes."""
from vf import texcheck

W = dict(text=1, call=3, assign=3, group=2, env=1, math=.7, tabular=.7, box=1, uenv=1, catcode=2, counter=.4,
         switch=.4, cond=.5, let=.3, newcommand=.35, csname=.2)


def run(ck):
    ck.model('MC_Scope', 'MC_ScopeModelDeep.cfg' if ck.thorough else 'MC_ScopeModel.cfg', timeout=850)
    cases = texcheck.programs(ck, 'MC_Scope', 'MC_Scope4.cfg' if ck.thorough else 'MC_Scope3.cfg', timeout=800)
    good = texcheck.judge(ck, cases, 'MC_Scope', 1.0, chunk=10)
    good += texcheck.judge(ck, texcheck.random_programs(ck, W, 30000 if ck.thorough else 4000), 'random', .75)
    texcheck.corrupt(ck, good)
    ck.assumptions += ['programs stay within the normal form of spec/MiniTeX.tla (DESIGN.md, C02-C04)']
