------------------------------- MODULE Persist -------------------------------
(* The files of saved label data.  A file remembers, per renderer, the       *)
(* labels last saved; `intact` are the renderers whose labels must come back *)
(* complete, `junk` says that something else than saved labels was written.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoFile == [data |-> <<>>, intact |-> {}, junk |-> FALSE]
Save(f, r, L) == [f EXCEPT !.data = (r :> L) @@ @, !.intact = @ \cup {r}]
Damage(f) == [f EXCEPT !.intact = {}]
Foreign(f) == [data |-> <<>>, intact |-> {}, junk |-> TRUE]
Gone(f) == NoFile
\* may a restore for renderer r give the set `got` of labels?
Allowed(f, r, got) ==
  IF r \in f.intact THEN got = f.data[r]
  ELSE IF r \in DOMAIN f.data THEN got \subseteq f.data[r]
  ELSE f.junk \/ got = {}
=============================================================================
