----------------------------- MODULE MC_Persist -----------------------------
(* The protocol of the implementation: a file is a sequence of cells (one    *)
(* per renderer and label) with a closing mark and a digest of the cells;    *)
(* any cell, the mark or the digest may be hit, or the tail cut off.  What   *)
(* the loader accepts is what Persist.tla allows.                            *)
EXTENDS Persist, Json, IOUtils, SequencesExt
CONSTANTS Depth, OutLen, Checksum
Renderers == {"HTML5", "XHTML"}
LabelSets == {{}, {<<"a", "1">>}, {<<"a", "2">>, <<"b", "1">>}}
Cells(d) == {<<r, l>> : r \in DOMAIN d, l \in UNION {d[r] : r \in DOMAIN d}} \cap
            UNION {{<<r, l>> : l \in d[r]} : r \in DOMAIN d}
(* A file: kind "none" (absent or empty) | "junk" | "data"; `doms` are the   *)
(* renderers it has an entry for, `cells` the set of <<r, label>>, `wrong`   *)
(* says that a cell was hit, `cut` that cells are lost, `digest` is one of   *)
(* "good" "bad" "none".                                                      *)
VARIABLES file, abs, faults, hist
vars == <<file, abs, faults, hist>>
None == [kind |-> "none", doms |-> {}, cells |-> {}, wrong |-> FALSE, cut |-> FALSE, digest |-> "none"]
Init == file = None /\ abs = NoFile /\ faults = 0 /\ hist = <<>>
Hit(c) == <<c[1], <<c[2][1], "wrong">>>>
Accepts(f) == f.kind = "data" /\ ~f.cut /\ (f.digest = "none" \/ (f.digest = "good" /\ ~f.wrong) \/ (~Checksum /\ f.digest /= "none"))
Load(f, r) == IF Accepts(f) THEN {c[2] : c \in {c \in f.cells : c[1] = r}} ELSE {}
DoSave(r, L) ==
  /\ LET old == IF Accepts(file) THEN {c \in file.cells : c[1] /= r} ELSE {}
     IN file' = [kind |-> "data", doms |-> (IF Accepts(file) THEN file.doms ELSE {}) \cup {r},
                 cells |-> old \cup {<<r, l>> : l \in L}, wrong |-> FALSE, cut |-> FALSE, digest |-> "good"]
  /\ abs' = Save(abs, r, L) /\ faults' = 0
\* one fault at a time between two saves
DoFlip == /\ file.kind = "data" /\ faults = 0 /\ faults' = 1 /\ abs' = Damage(abs)
          /\ \/ \E c \in file.cells : file' = [file EXCEPT !.cells = (@ \ {c}) \cup {Hit(c)}, !.wrong = TRUE]
             \/ file' = [file EXCEPT !.digest = "bad"]
             \/ file' = [file EXCEPT !.digest = "none"]
DoCut == /\ file.kind = "data" /\ faults = 0 /\ faults' = 1 /\ abs' = Damage(abs)
         /\ \/ file' = [file EXCEPT !.digest = "bad"]
            \/ file' = [file EXCEPT !.digest = "none"]
            \/ \E c \in file.cells : file' = [file EXCEPT !.cells = @ \ {c}, !.cut = TRUE, !.digest = "none"]
DoGone == file.kind /= "none" /\ file' = None /\ abs' = Gone(abs) /\ faults' = 0
DoJunk == file' = [None EXCEPT !.kind = "junk"] /\ abs' = Foreign(abs) /\ faults' = 0
Step(a) == Len(hist) < Depth /\ hist' = Append(hist, a)
Next == \/ \E r \in Renderers, L \in LabelSets : DoSave(r, L) /\ Step(<<"save", r, SetToSeq(L)>>)
        \/ DoFlip /\ Step(<<"flip">>)
        \/ DoCut /\ Step(<<"cut">>)
        \/ DoGone /\ Step(<<"gone">>)
        \/ DoJunk /\ Step(<<"junk">>)
Spec == Init /\ [][Next]_vars
RoundTrip == \A r \in Renderers : Allowed(abs, r, Load(file, r))
\* the last save is always complete and loadable
SaveHeals == [][\A r \in Renderers, L \in LabelSets : (DoSave(r, L) => (Load(file', r) = L /\ Accepts(file')))]_vars
Separate == [][\A r \in Renderers, L \in LabelSets : (DoSave(r, L) /\ Accepts(file)) => \A q \in Renderers \ {r} : Load(file', q) = Load(file, q)]_vars
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT,
  LET A == {<<"save", r, SetToSeq(L)>> : r \in Renderers, L \in LabelSets} \cup {<<"flip">>, <<"cut">>, <<"gone">>, <<"junk">>}
  IN SetToSeq(UNION {[1..n -> A] : n \in 1..OutLen}))
View == <<file, abs, faults, Len(hist)>>
=============================================================================
