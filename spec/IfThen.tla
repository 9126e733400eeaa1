------------------------------- MODULE IfThen -------------------------------
(* The ifthen package: tests are token strings, evaluated left to right by a *)
(* stack machine; \ifthenelse and \whiledo are statements of a small         *)
(* language of counters, booleans, macros and registers.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Units
----------------------------------------------------------------------------
(* Test expressions.  A token is [k |-> "("|")"|"and"|"or"|"not"] or an atom *)
(* that has been given its truth value: [k |-> "v", b].                      *)
Frame == [val |-> FALSE, op |-> "none", neg |-> FALSE]
StartTest == [stack |-> <<Frame>>, want |-> TRUE]      \* want: an operand is due
Top(m) == m.stack[Len(m.stack)]
SetTop(m, f) == [m EXCEPT !.stack[Len(m.stack)] = f]
Operand(m, b) ==
  LET f == Top(m)
      v == IF f.neg THEN ~b ELSE b
      w == CASE f.op = "and" -> f.val /\ v [] f.op = "or" -> f.val \/ v [] OTHER -> v
  IN [SetTop(m, [val |-> w, op |-> "none", neg |-> FALSE]) EXCEPT !.want = FALSE]
CanShift(m, k) == CASE k \in {"v", "(", "not"} -> m.want
                    [] k \in {"and", "or"} -> ~m.want
                    [] k = ")" -> ~m.want /\ Len(m.stack) > 1
                    [] OTHER -> FALSE
Shift(m, t) ==
  CASE t.k = "v" -> Operand(m, t.b)
    [] t.k = "not" -> SetTop(m, [Top(m) EXCEPT !.neg = ~@])
    [] t.k = "(" -> [m EXCEPT !.stack = Append(@, Frame)]
    [] t.k = ")" -> Operand([m EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], Top(m).val)
    [] OTHER -> [SetTop(m, [Top(m) EXCEPT !.op = t.k]) EXCEPT !.want = TRUE]
Complete(m) == Len(m.stack) = 1 /\ ~m.want
TestValue(m) == Top(m).val
RECURSIVE RunTest(_, _)
RunTest(m, ts) == IF ts = <<>> THEN m ELSE RunTest(Shift(m, ts[1]), Tail(ts))
----------------------------------------------------------------------------
(* The same by its mathematical definition: the innermost group first, then  *)
(* every \not next to a value, then the leftmost \and or \or.                *)
Sub(ts, i, j, v) == SubSeq(ts, 1, i - 1) \o <<v>> \o SubSeq(ts, j + 1, Len(ts))
V(b) == [k |-> "v", b |-> b]
IsV(t) == t.k = "v"
RECURSIVE Flat(_)
Flat(ts) ==
  LET nots == {i \in 1..Len(ts) - 1 : ts[i].k = "not" /\ IsV(ts[i + 1])}
  IN IF nots /= {} THEN LET i == CHOOSE i \in nots : TRUE IN Flat(Sub(ts, i, i + 1, V(~ts[i + 1].b)))
     ELSE IF Len(ts) = 1 THEN ts[1].b
     ELSE LET b == IF ts[2].k = "and" THEN ts[1].b /\ ts[3].b ELSE ts[1].b \/ ts[3].b
          IN Flat(Sub(ts, 1, 3, V(b)))
RECURSIVE Denote(_)
Denote(ts) ==
  LET closes == {i \in DOMAIN ts : ts[i].k = ")"}
  IN IF closes = {} THEN Flat(ts)
     ELSE LET j == CHOOSE j \in closes : \A x \in closes : j <= x
              i == CHOOSE i \in 1..j : ts[i].k = "(" /\ \A x \in i + 1..j : ts[x].k /= "("
          IN Denote(Sub(ts, i, j, V(Flat(SubSeq(ts, i + 1, j - 1)))))
----------------------------------------------------------------------------
(* Programs.  env: [cnt, bool, mac, reg, dim] functions from names; a macro  *)
(* is [num, s]: the text and the number it spells.                           *)
Sgn(s, x) == IF s < 0 THEN -x ELSE x
Num(env, e) ==
  Sgn(e.s, CASE e.k = "lit" -> e.v
             [] e.k = "val" -> env.cnt[e.n]
             [] e.k = "reg" -> env.reg[e.n]
             [] OTHER -> env.mac[e.n].num)
Dim(env, e) ==
  Sgn(e.s, CASE e.k = "dlit" -> Scaled(e.v, RoundDec(e.f, 0), e.u)
             [] OTHER -> e.v * env.dim[e.n])
RECURSIVE Text(_, _)
Text(env, ps) ==
  IF ps = <<>> THEN ""
  ELSE LET p == ps[1]
           s == CASE p.k = "str" -> p.t
                  [] p.k = "mac" -> env.mac[p.n].s
                  [] OTHER -> ToString(env.cnt[p.n])
       IN s \o Text(env, Tail(ps))
Rel(r, a, b) == CASE r = "<" -> a < b [] r = ">" -> a > b [] OTHER -> a = b
Atom(env, t) ==
  CASE t.k = "num" -> Rel(t.r, Num(env, t.a), Num(env, t.b))
    [] t.k = "len" -> Rel(t.r, Dim(env, t.a), Dim(env, t.b))
    [] t.k = "odd" -> Num(env, t.a) % 2 = 1
    [] t.k = "equal" -> Text(env, t.a) = Text(env, t.b)
    [] t.k = "undef" -> ~t.prim /\ t.n \notin DOMAIN env.mac
    [] OTHER -> IF t.n \in {"true", "false"} THEN t.n = "true" ELSE env.bool[t.n]
Ops == {"(", ")", "and", "or", "not"}
Valued(env, ts) == [i \in DOMAIN ts |-> IF ts[i].k \in Ops THEN ts[i] ELSE V(Atom(env, ts[i]))]
Test(env, ts) == TestValue(RunTest(StartTest, Valued(env, ts)))
Put(f, n, v) == (n :> v) @@ f
(* One step of the machine [env, todo, out]; todo is a list of statements.   *)
Boot(env, prog) == [env |-> env, todo |-> prog, out |-> <<>>]
Exec(m) ==
  LET s == m.todo[1]
      r == Tail(m.todo)
      e == m.env
      N(x) == [m EXCEPT !.env = x, !.todo = r]
  IN CASE s.k = "w" -> [m EXCEPT !.out = Append(@, s.t), !.todo = r]
       [] s.k = "show" -> [m EXCEPT !.out = Append(@, Text(e, s.a)), !.todo = r]
       [] s.k = "setc" -> N([e EXCEPT !.cnt = Put(@, s.n, Num(e, s.e))])
       [] s.k = "addc" -> N([e EXCEPT !.cnt = Put(@, s.n, @[s.n] + Num(e, s.e))])
       [] s.k = "stepc" -> N([e EXCEPT !.cnt = Put(@, s.n, @[s.n] + 1)])
       [] s.k = "setr" -> N([e EXCEPT !.reg = Put(@, s.n, Num(e, s.e))])
       [] s.k = "setd" -> N([e EXCEPT !.dim = Put(@, s.n, Dim(e, s.e))])
       [] s.k = "setb" -> N([e EXCEPT !.bool = Put(@, s.n, s.b)])
       [] s.k = "def" -> N([e EXCEPT !.mac = Put(@, s.n, s.d)])
       [] s.k = "grp" -> [m EXCEPT !.todo = s.body \o <<[k |-> "endgrp", mac |-> e.mac]>> \o r]
       [] s.k = "endgrp" -> N([e EXCEPT !.mac = s.mac])
       [] s.k = "ite" -> [m EXCEPT !.todo = (IF Test(e, s.test) THEN s.then ELSE s.els) \o r]
       [] OTHER -> IF Test(e, s.test) THEN [m EXCEPT !.todo = s.body \o m.todo] ELSE [m EXCEPT !.todo = r]
Halted(m) == m.todo = <<>>
=============================================================================
