------------------------------- MODULE Units -------------------------------
(* TeX's fixed point arithmetic for dimensions (TeX: The Program, 448-458). *)
EXTENDS Integers, Sequences
UnitRatio == [in |-> <<7227, 100>>, pc |-> <<12, 1>>, cm |-> <<7227, 254>>, mm |-> <<7227, 2540>>,
              bp |-> <<7227, 7200>>, dd |-> <<1238, 1157>>, cc |-> <<14856, 1157>>, pt |-> <<1, 1>>]
\* decimal digits after the point -> multiples of 2^-16, rounded
RECURSIVE RoundDec(_, _)
RoundDec(ds, a) == IF ds = <<>> THEN (a + 1) \div 2
                   ELSE RoundDec(SubSeq(ds, 1, Len(ds) - 1), (a + ds[Len(ds)] * 131072) \div 10)
\* v + f/65536 units -> scaled points
Scaled(v, f, u) ==
  IF u = "sp" THEN v
  ELSE LET r == UnitRatio[u]
           q == (v * r[1]) \div r[2]
           rem == (v * r[1]) % r[2]
           g == (r[1] * f + 65536 * rem) \div r[2]
       IN (q + g \div 65536) * 65536 + (g % 65536)
=============================================================================
