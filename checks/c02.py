"""C02: macro definition and expansion follow TeX's rules."""
from vf import texcheck

W = dict(text=1, call=4, assign=4, group=1, csname=.7, expandafter=1, let=.3, nested=.25, newcommand=.35, space=.3)


def run(ck):
    cases = texcheck.programs(ck, 'MC_Macro', 'MC_Macro%d.cfg' % (2 if ck.thorough else 0), timeout=800)
    good = texcheck.judge(ck, texcheck.pick(ck, cases, 60000 if ck.thorough else 6000), 'MC_Macro', 1.0, chunk=10)
    good += texcheck.judge(ck, texcheck.random_programs(ck, W, 40000 if ck.thorough else 4000), 'random', .6)
    texcheck.corrupt(ck, good)
    ck.assumptions += ['programs stay within the normal form of spec/MiniTeX.tla (DESIGN.md, C02-C04)']
