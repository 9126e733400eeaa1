"""C03: conditionals take exactly the branch TeX takes."""
from vf import texcheck

W = dict(text=1, call=2, assign=1.5, group=.7, cond=4, counter=2, switch=1.5, numdef=1, plaindef=1, let=0,
         newcommand=.3, nested=.1)


def run(ck):
    cases = texcheck.programs(ck, 'MC_Cond', 'MC_CondDeep.cfg' if ck.thorough else 'MC_Cond.cfg', timeout=800)
    good = texcheck.judge(ck, texcheck.pick(ck, cases, None), 'MC_Cond', 1.0, chunk=10)
    good += texcheck.judge(ck, texcheck.random_programs(ck, W, 60000 if ck.thorough else 8000), 'random', .75)
    texcheck.corrupt(ck, good)
    ck.assumptions += ['programs stay within the normal form of spec/MiniTeX.tla (DESIGN.md, C02-C04)']
