------------------------------- MODULE Config -------------------------------
(* The layered configuration: an option table with documented defaults, INI *)
(* files, command line, assignments, and reading back with interpolation.   *)
(* Values: [t |-> "s", v |-> string]      [t |-> "i", v |-> decimal string] *)
(*   [t |-> "f", v |-> <<mantissa digits, exponent>>]  value m * 10^e       *)
(*   [t |-> "b", v |-> BOOLEAN]   [t |-> "l", v |-> sequence of strings]    *)
(*   [t |-> "d", v |-> set of <<key, value>>], values of the entry type et  *)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
Blanks == {" ", "\t", "\n"}
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
RECURSIVE Pos(_, _, _)
Pos(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Pos(s, c, i + 1)
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN "" ELSE
  LET p == Pos(Upper, Ch(s, 1), 1) IN (IF p = 0 THEN Ch(s, 1) ELSE Ch(Lower, p)) \o ToLower(Tail(s))
RECURSIVE Strip(_)
Strip(s) == IF s = "" THEN "" ELSE IF Ch(s, 1) \in Blanks THEN Strip(Tail(s))
            ELSE IF Ch(s, Len(s)) \in Blanks THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* ---- numbers, in canonical decimal notation ---- *)
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(Tail(s)) ELSE s
IntOf(str) ==
  LET s == Strip(str)
      neg == s # "" /\ Ch(s, 1) = "-"
      d == NoZeros(IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN Tail(s) ELSE s)
  IN IF neg /\ d # "0" THEN "-" \o d ELSE d
RECURSIVE Trail(_, _)
\* move the zeros at the end of the mantissa to the exponent
Trail(m, e) == IF Len(m) > 1 /\ Ch(m, Len(m)) = "0" THEN Trail(SubSeq(m, 1, Len(m) - 1), e + 1) ELSE <<m, e>>
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE ValOf(_, _)
ValOf(s, n) == IF s = "" THEN n ELSE ValOf(Tail(s), 10 * n + (CHOOSE i \in 1..10 : Digits[i] = Ch(s, 1)) - 1)
SmallInt(s) == IF s # "" /\ Ch(s, 1) = "-" THEN - ValOf(Tail(s), 0) ELSE IF s # "" /\ Ch(s, 1) = "+" THEN ValOf(Tail(s), 0) ELSE ValOf(s, 0)
FloatOf(str) ==
  LET s == ToLower(Strip(str))
      neg == Ch(s, 1) = "-"
      u == IF Ch(s, 1) \in {"-", "+"} THEN Tail(s) ELSE s
      x == Pos(u, "e", 1)
      mant == IF x = 0 THEN u ELSE SubSeq(u, 1, x - 1)
      ex == IF x = 0 THEN 0 ELSE SmallInt(SubSeq(u, x + 1, Len(u)))
      p == Pos(mant, ".", 1)
      ip == IF p = 0 THEN mant ELSE SubSeq(mant, 1, p - 1)
      fp == IF p = 0 THEN "" ELSE SubSeq(mant, p + 1, Len(mant))
      m == NoZeros(ip \o fp)
      t == Trail(m, ex - Len(fp))
  IN IF m = "0" THEN <<"0", 0>> ELSE <<(IF neg THEN "-" ELSE "") \o t[1], t[2]>>
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
\* how a (small) float is written out
FloatStr(f) ==
  LET neg == Ch(f[1], 1) = "-"
      m == IF neg THEN Tail(f[1]) ELSE f[1]
      e == f[2]
      body == IF e >= 0 THEN m \o Zeros(e) \o ".0"
              ELSE IF Len(m) > -e THEN SubSeq(m, 1, Len(m) + e) \o "." \o SubSeq(m, Len(m) + e + 1, Len(m))
              ELSE "0." \o Zeros(-e - Len(m)) \o m
  IN (IF neg THEN "-" ELSE "") \o body

BoolOf(str) == CASE ToLower(Strip(str)) \in {"yes", "true", "on", "1"} -> TRUE
                 [] ToLower(Strip(str)) \in {"no", "false", "off", "0"} -> FALSE

(* ---- shell-like word splitting of list values ---- *)
\* q: "" outside quotes, or the quote character; open: a word has been started
RECURSIVE Split(_, _, _, _)
Split(s, q, w, open) ==
  IF s = "" THEN (IF open THEN <<w>> ELSE <<>>)
  ELSE LET c == Ch(s, 1)
           r == Tail(s)
       IN IF q = "" THEN
            (IF c \in Blanks THEN (IF open THEN <<w>> \o Split(r, "", "", FALSE) ELSE Split(r, "", "", FALSE))
             ELSE IF c \in {"'", "\""} THEN Split(r, c, w, TRUE)
             ELSE IF c = "\\" THEN Split(Tail(r), "", w \o Ch(r, 1), TRUE)
             ELSE Split(r, "", w \o c, TRUE))
          ELSE (IF c = q THEN Split(r, "", w, TRUE)
                ELSE IF q = "\"" /\ c = "\\" THEN
                   (IF Ch(r, 1) \in {"\"", "\\"} THEN Split(Tail(r), q, w \o Ch(r, 1), TRUE)
                    ELSE Split(r, q, w \o "\\", TRUE))
                ELSE Split(r, q, w \o c, TRUE))
ShellWords(s) == Split(s, "", "", FALSE)

(* ---- dictionaries ---- *)
DPut(d, k, v) == {p \in d : p[1] # k} \cup {<<k, v>>}
Entry(et, str) == CASE et = "i" -> [t |-> "i", v |-> IntOf(str)] [] et = "f" -> [t |-> "f", v |-> FloatOf(str)]
                    [] OTHER -> [t |-> "s", v |-> str]
\* "a=1, b=2"
RECURSIVE DStr(_, _, _)
DStr(d, et, s) ==
  LET c == Pos(s, ",", 1)
      one == IF c = 0 THEN s ELSE SubSeq(s, 1, c - 1)
      p == Pos(one, "=", 1)
      d2 == DPut(d, Strip(SubSeq(one, 1, p - 1)), Entry(et, Strip(SubSeq(one, p + 1, Len(one)))))
  IN IF c = 0 THEN d2 ELSE DStr(d2, et, SubSeq(s, c + 1, Len(s)))

(* ---- the option table ---- *)
S(s, k, f, d) == [s |-> s, k |-> k, t |-> "s", et |-> "", on |-> f, off |-> {}, d |-> d]
I(s, k, f, d) == [s |-> s, k |-> k, t |-> "i", et |-> "", on |-> f, off |-> {}, d |-> d]
B(s, k, on, off, d) == [s |-> s, k |-> k, t |-> "b", et |-> "", on |-> on, off |-> off, d |-> d]
L(s, k, f) == [s |-> s, k |-> k, t |-> "l", et |-> "", on |-> f, off |-> {}, d |-> <<>>]
D(s, k, f, et) == [s |-> s, k |-> k, t |-> "d", et |-> et, on |-> f, off |-> {}, d |-> {}]
Table == <<
 S("general", "renderer", {"--renderer"}, "HTML5"),
 S("general", "theme", {"--theme"}, "default"),
 L("general", "extra-templates", {"--extra-templates"}),
 B("general", "copy-theme-extras", {"--copy-theme-extras"}, {"--no-theme-extras"}, TRUE),
 S("general", "kpsewhich", {"--kpsewhich"}, "kpsewhich"),
 B("general", "xml", {"--xml"}, {}, FALSE),
 B("general", "debug", {"--debug"}, {}, FALSE),
 L("general", "paux-dirs", {"--paux-dirs"}),
 L("general", "plugins", {"--plugins"}),
 B("general", "load-tex-packages", {"--load-tex-packages"}, {"--no-load-tex-packages"}, TRUE),
 L("general", "tex-packages", {"--tex-packages"}),
 L("general", "packages-dirs", {"--packages-dirs"}),
 D("links", "links", {"--link"}, "s"),
 D("counters", "counters", {"--counter"}, "i"),
 S("files", "input-encoding", {"--input-encoding"}, "utf-8"),
 S("files", "output-encoding", {"--output-encoding"}, "utf-8"),
 B("files", "escape-high-chars", {"--escape-high-chars"}, {}, FALSE),
 I("files", "split-level", {"--split-level"}, "2"),
 B("files", "log", {"--log"}, {}, FALSE),
 S("files", "filename", {"--filename"}, "index [$id, sect$num(4)]"),
 S("files", "bad-chars", {"--bad-filename-chars"}, ": #$%%^&*!~`\"'=?/{}[]()|<>;\\,."),
 S("files", "bad-chars-sub", {"--bad-filename-chars-sub"}, "-"),
 S("files", "directory", {"--dir", "-d"}, "$jobname"),
 D("images", "scales", {"--scales"}, "f"),
 S("images", "base-url", {"--image-base-url"}, ""),
 B("images", "enabled", {"--enable-images"}, {"--disable-images"}, TRUE),
 S("images", "imager", {"--imager"}, "gspdfpng pdftoppm dvipng dvi2bitmap gsdvipng OSXCoreGraphics"),
 S("images", "vector-imager", {"--vector-imager"}, "pdf2svg dvisvgm"),
 S("images", "filenames", {"--image-filenames"}, "images/img-$num(4)"),
 I("images", "baseline-padding", {"--image-baseline-padding"}, "0"),
 [S("images", "scale-factor", {"--image-scale-factor"}, <<"1", 0>>) EXCEPT !.t = "f"],
 S("images", "vector-compiler", {"--vector-image-compiler"}, ""),
 S("images", "compiler", {"--image-compiler"}, ""),
 B("images", "cache", {"--enable-image-cache"}, {"--disable-image-cache"}, FALSE),
 B("images", "save-file", {"--save-image-file"}, {"--delete-image-file"}, FALSE),
 B("images", "transparent", {"--transparent-images"}, {"--opaque-images"}, FALSE),
 I("images", "resolution", {"--image-resolution"}, "0"),
 S("document", "base-url", {"--base-url"}, ""),
 S("document", "title", {"--title"}, ""),
 I("document", "toc-depth", {"--toc-depth"}, "3"),
 B("document", "toc-non-files", {"--toc-non-files"}, {}, FALSE),
 I("document", "sec-num-depth", {"--sec-num-depth"}, "2"),
 I("document", "index-columns", {"--index-columns"}, "2"),
 L("document", "lang-terms", {"--lang-terms"}),
 L("document", "disable-charsub", {"--disable-charsub"}),
 D("logging", "logging", {"--logging"}, "s"),
 L("html5", "extra-css", {"--extra-css"}),
 L("html5", "extra-js", {"--extra-js"}),
 S("html5", "theme-css", {"--theme-css"}, "white"),
 B("html5", "use-theme-css", {"--use-theme-css"}, {"--no-theme-css"}, TRUE),
 B("html5", "use-theme-js", {"--use-theme-js"}, {"--no-theme-js"}, TRUE),
 B("html5", "display-toc", {"--display-toc"}, {"--no-display-toc"}, TRUE),
 I("html5", "localtoc-level", {"--localtoc-level"}, "-9223372036854775808"),
 I("html5", "breadcrumbs-level", {"--breadcrumbs-level"}, "10"),
 B("html5", "use-mathjax", {"--use-mathjax"}, {"--no-mathjax"}, TRUE),
 S("html5", "mathjax-url", {"--mathjax-url"}, "https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js"),
 B("html5", "mathjax-dollars", {"--dollars"}, {"--no-dollars"}, FALSE),
 L("html5", "filters", {"--filters"}),
 D("mathjax-macros", "macros", {"--mj-macros"}, "s") >>
N == Len(Table)
Default == [i \in 1..N |-> Table[i].d]
Option(s, k) == CHOOSE i \in 1..N : Table[i].s = s /\ Table[i].k = k
Has(s, k) == \E i \in 1..N : Table[i].s = s /\ Table[i].k = k
HasSection(s) == \E i \in 1..N : Table[i].s = s
Dict(s) == {i \in 1..N : Table[i].s = s /\ Table[i].t = "d"}

\* a value written in a configuration file
FromFile(i, old, str) ==
  CASE Table[i].t = "s" -> str
    [] Table[i].t = "i" -> IntOf(str)
    [] Table[i].t = "f" -> FloatOf(str)
    [] Table[i].t = "b" -> BoolOf(str)
    [] Table[i].t = "l" -> old \o ShellWords(str)
    [] Table[i].t = "d" -> DStr(old, Table[i].et, str)
\* one "key = value" line of section s; option names are case-insensitive,
\* other keys are entries of the section's dictionary (if it has one)
Line(cfg, s, k, str) ==
  IF ~HasSection(s) THEN cfg
  ELSE IF Has(s, ToLower(k)) THEN LET i == Option(s, ToLower(k)) IN [cfg EXCEPT ![i] = FromFile(i, @, str)]
  ELSE IF Dict(s) = {} THEN cfg
  ELSE LET i == CHOOSE i \in Dict(s) : \A j \in Dict(s) : i <= j
       IN [cfg EXCEPT ![i] = DPut(@, k, Entry(Table[i].et, str))]
RECURSIVE File(_, _)
File(cfg, lines) == IF lines = <<>> THEN cfg ELSE File(Line(cfg, lines[1][1], lines[1][2], lines[1][3]), Tail(lines))

\* one option of the command line with its arguments
Flag(cfg, flag, args) ==
  LET i == CHOOSE i \in 1..N : flag \in Table[i].on \cup Table[i].off
      o == Table[i]
  IN [cfg EXCEPT ![i] =
       CASE o.t = "s" -> args[1] [] o.t = "i" -> IntOf(args[1]) [] o.t = "f" -> FloatOf(args[1])
         [] o.t = "b" -> flag \in o.on
         [] o.t = "l" -> @ \o args
         [] o.t = "d" /\ o.k # "links" -> DPut(@, args[1], Entry(o.et, args[2]))
         [] o.t = "d" /\ o.k = "links" ->
              IF Len(args) = 2 THEN DPut(@, args[1] \o "-title", Entry("s", args[2]))
              ELSE DPut(DPut(@, args[1] \o "-url", Entry("s", args[2])), args[1] \o "-title", Entry("s", args[3]))]
RECURSIVE CmdLine(_, _)
CmdLine(cfg, items) == IF items = <<>> THEN cfg ELSE CmdLine(Flag(cfg, items[1][1], items[1][2]), Tail(items))

(* ---- reading back ---- *)
ERR == "\n<unresolved>"
RECURSIVE Interp(_, _, _), StrOf(_, _, _)
\* s with %(name)s, %(name)d and %% replaced; n bounds the nesting
Interp(cfg, s, n) ==
  LET p == Pos(s, "%", 1) IN
  IF p = 0 THEN s
  ELSE LET before == SubSeq(s, 1, p - 1)
           after == SubSeq(s, p + 1, Len(s))
       IN IF Ch(after, 1) = "%" THEN before \o "%" \o Interp(cfg, Tail(after), n)
          ELSE LET c == Pos(after, ")", 1)
                   name == SubSeq(after, 2, c - 1)
               IN before \o StrOf(cfg, name, n) \o Interp(cfg, SubSeq(after, c + 2, Len(after)), n)
\* the option a reference means: the first section that has it
StrOf(cfg, name, n) ==
  IF n = 0 \/ ~\E i \in 1..N : Table[i].k = name THEN ERR
  ELSE LET i == CHOOSE i \in 1..N : Table[i].k = name /\ \A j \in 1..N : Table[j].k = name => i <= j
       IN CASE Table[i].t = "s" -> Interp(cfg, cfg[i], n - 1)
            [] Table[i].t = "i" -> cfg[i]
            [] Table[i].t = "f" -> FloatStr(cfg[i])
            [] Table[i].t = "b" -> IF cfg[i] THEN "True" ELSE "False"
            [] OTHER -> ERR
Depth == 12
RECURSIVE Contains(_, _)
Contains(s, x) == Len(s) >= Len(x) /\ (SubSeq(s, 1, Len(x)) = x \/ Contains(Tail(s), x))
Bad(s) == Contains(s, ERR)
Read(cfg, i) ==
  LET o == Table[i] IN
  IF o.t = "s" THEN LET s == Interp(cfg, cfg[i], Depth) IN IF Bad(s) THEN [t |-> "err"] ELSE [t |-> "s", v |-> s]
  ELSE IF o.t = "l" THEN
    LET r == [j \in DOMAIN cfg[i] |-> Interp(cfg, cfg[i][j], Depth)]
    IN IF \E j \in DOMAIN r : Bad(r[j]) THEN [t |-> "err"] ELSE [t |-> "l", v |-> r]
  ELSE [t |-> o.t, v |-> cfg[i]]
=============================================================================
