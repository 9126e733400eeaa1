----------------------------- MODULE LexerTrace -----------------------------
(* Accepts a recorded tokenizer run iff some behaviour of Lexer explains it. *)
(* trace: [inp: codes, tab: <<char,cat>> list, ev: events]                   *)
(* event: [k: "tok", c: category, cls: class name, t: codes] a token         *)
(*        [k: "cat", ch, code]  the catcode table was changed                *)
(*        [k: "end"]            the tokenizer ended normally                 *)
(*        [k: "exc"]            it raised or hung (never explained)          *)
EXTENDS Lexer, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, inp, st, tab, last, l, done
vars == <<tid, inp, st, tab, last, l, done>>

\* the class of a token must denote the category it carries
ClassOf(c) == CASE c = 0 -> "EscapeSequence" [] c = 1 -> "BeginGroup" [] c = 2 -> "EndGroup"
  [] c = 3 -> "MathShift" [] c = 4 -> "Alignment" [] c = 6 -> "Parameter" [] c = 7 -> "Superscript"
  [] c = 8 -> "Subscript" [] c = 10 -> "Space" [] c = 11 -> "Letter" [] c = 12 -> "Other"
  [] c = 13 -> "EscapeSequence" [] OTHER -> "?"

Init == \E i \in 1..Len(Traces) :
          /\ tid = i /\ inp = Traces[i].inp /\ st = "N"
          /\ tab = LET ps == Traces[i].tab IN [c \in {ps[j][1] : j \in DOMAIN ps} |->
                     ps[CHOOSE j \in DOMAIN ps : ps[j][1] = c][2]]
          /\ last = NoTok /\ l = 1 /\ done = FALSE
Ev == Traces[tid].ev[l]
Verdict(v, why) == PrintT(<<"V", tid, v, why>>)

\* the pending category change is applied before the next lexer step
Change == /\ ~done /\ Ev.k = "cat"
          /\ tab' = SetCat(tab, Ev.ch, Ev.code) /\ l' = l + 1
          /\ UNCHANGED <<tid, inp, st, last, done>>
\* the category the implementation reports for a character
Which == /\ ~done /\ Ev.k = "which" /\ Cat(tab, Ev.ch) = Ev.code
         /\ l' = l + 1 /\ UNCHANGED <<tid, inp, st, tab, last, done>>
Silent == /\ ~done /\ Ev.k \notin {"cat", "which"} /\ inp # <<>>
          /\ \E q \in Steps(tab, inp, st, last) :
               /\ q[3] = NoTok /\ inp' = q[1] /\ st' = q[2]
          /\ UNCHANGED <<tid, tab, last, l, done>>
Emit == /\ ~done /\ Ev.k = "tok" /\ inp # <<>>
        /\ \E q \in Steps(tab, inp, st, last) :
             /\ q[3] # NoTok /\ q[3].c = Ev.c /\ q[3].t = Ev.t /\ Ev.cls = ClassOf(Ev.c)
             /\ inp' = q[1] /\ st' = q[2] /\ last' = q[3]
        /\ l' = l + 1
        /\ UNCHANGED <<tid, tab, done>>
Accept == /\ ~done /\ Ev.k = "end" /\ inp = <<>>
          /\ Verdict("ok", "") /\ done' = TRUE /\ UNCHANGED <<tid, inp, st, tab, last, l>>
Reject == /\ ~done /\ ~ENABLED Change /\ ~ENABLED Which /\ ~ENABLED Silent /\ ~ENABLED Emit /\ ~ENABLED Accept
          /\ Verdict("reject", <<"at event", l, Ev, "state", st, "left", Len(inp),
               "expected", IF inp = <<>> THEN {} ELSE {q[3] : q \in Steps(tab, inp, st, last)}>>)
          /\ done' = TRUE /\ UNCHANGED <<tid, inp, st, tab, last, l>>
Next == Change \/ Which \/ Silent \/ Emit \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
\* every explained prefix keeps the lexer's own invariants
TypeOK == st \in {"N", "M", "S"}
=============================================================================
