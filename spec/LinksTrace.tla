----------------------------- MODULE LinksTrace ------------------------------
(* A rendered document: its events, the configuration, and for every file the *)
(* identifiers (with the marks in front of and behind each), the links in     *)
(* order (kind, file, fragment, text) and the notes.                          *)
EXTENDS Links, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done
vars == <<tid, done>>

Page(t, name) == t.files[CHOOSE i \in DOMAIN t.files : t.files[i].name = name]
Names(t) == {t.files[i].name : i \in DOMAIN t.files}
\* the file a link names (an empty one is the page itself)
Dest(f, l) == IF l.file = "" THEN f.name ELSE l.file
Ids(f) == {f.ids[i][1] : i \in DOMAIN f.ids}
Id(f, x) == f.ids[CHOOSE i \in DOMAIN f.ids : f.ids[i][1] = x]
Found(t, f, l) == Dest(f, l) \in Names(t) /\ (l.frag = "" \/ l.frag \in Ids(Page(t, Dest(f, l))))
\* link l of page f is what is wanted
Lands(t, f, l, want) ==
  /\ Dest(f, l) = want.file
  /\ IF want.frag THEN l.frag # "" /\ (want.next = {} \/ Id(Page(t, want.file), l.frag)[3] \in want.next) ELSE l.frag = ""
Kind(f, k) == SelectSeq(f.links, LAMBDA l : l.k = k)
Nth(f, k, n) == SelectSeq(f.links, LAMBDA l : l.k = k /\ l.n = n)

Result(t) == IF t.exc # "" THEN "exc" ELSE "ok"
\* ------------------------------------------------ the conditions, one by one
Dangling(t) == {<<f.name, l.k, l.file, l.frag>> : <<f, l>> \in {x \in {<<t.files[i], t.files[i].links[j]>> : <<i, j>> \in UNION {{i} \X DOMAIN t.files[i].links : i \in DOMAIN t.files}} : ~Found(t, x[1], x[2])}}
Twice(t) == {<<t.files[i].name, x>> : <<i, x>> \in {y \in UNION {{i} \X Ids(t.files[i]) : i \in DOMAIN t.files} : Cardinality({k \in DOMAIN t.files[y[1]].ids : t.files[y[1]].ids[k][1] = y[2]}) > 1}}
Home(t, d, i) == Page(t, d.names[d.at[i]])

RefBad(t, d, i) ==
  LET e == d.es[i]
      f == Home(t, d, i)
      ls == Nth(f, "ref", e.n)
      o == Referred(d, e)
      num == N!RefNumber(d.num, e.l)
      shown(l) == CASE e.cmd = "pageref" -> l.text = "*"
                    [] e.cmd = "autoref" -> l.tail = num
                    [] e.cmd \in {"hyperref", "hyperlink"} -> l.text = e.text
                    [] OTHER -> l.text = num
  IN IF o = 0 THEN ls # <<>>
     ELSE ~(Len(ls) = 1 /\ Lands(t, f, ls[1], ToObject(d, StartOf(d, o))) /\ shown(ls[1]))
\* different objects have different addresses
RefClash(t, d) ==
  LET rs == {i \in DOMAIN d.es : d.es[i].k = "ref" /\ Referred(d, d.es[i]) # 0 /\ Nth(Home(t, d, i), "ref", d.es[i].n) # <<>>}
      obj(i) == Referred(d, d.es[i])
      adr(i) == LET f == Home(t, d, i) l == Nth(f, "ref", d.es[i].n)[1] IN <<Dest(f, l), l.frag>>
  IN {<<i, j>> \in rs \X rs : obj(i) # obj(j) /\ adr(i) = adr(j)}
CiteBad(t, d, i) ==
  LET e == d.es[i]
      f == Home(t, d, i)
      ls == Nth(f, "cite", e.n)
  IN ~(Len(ls) = Len(e.ls) /\ \A j \in DOMAIN ls : LET c == d.num.cites[e.ls[j]] IN ls[j].text = c.num /\ Lands(t, f, ls[j], ToObject(d, StartOf(d, c.o))))
NotesBad(t, d, k) ==
  LET f == Page(t, d.names[k])
      want == SelectSeq([i \in DOMAIN d.es |-> [e |-> d.es[i], a |-> d.at[i]]], LAMBDA x : x.a = k /\ x.e.k = "fn")
      got == Kind(f, "fn")
  IN ~(/\ Len(got) = Len(want) /\ Len(f.notes) = Len(want)
       /\ \A i \in DOMAIN want : /\ got[i].text = ToString(i) /\ Dest(f, got[i]) = f.name
                                 /\ IF want[i].e.list THEN got[i].frag = "footnotes"   \* the mark of a \footnotetext shows where the notes are
                                    ELSE \E m \in DOMAIN f.notes : f.notes[m].id = got[i].frag /\ f.notes[m].words = want[i].e.ws
                                 /\ f.notes[i].words = want[i].e.ws)
IndexBad(t, d, u) ==                      \* u: the unit of the index
  LET f == Home(t, d, u)
      es == {i \in DOMAIN d.es : d.es[i].k = "idx"}
      paths == {d.es[i].p : i \in es}
      got(p) == SelectSeq(f.links, LAMBDA l : l.k = "page" /\ l.at = p)
  IN {p \in paths : LET want == InOrder({i \in es : d.es[i].p = p}) g == TLCEval(got(p)) IN
        ~(Len(g) = Len(want) /\ \A j \in DOMAIN g : /\ Dest(f, g[j]) = d.names[d.at[want[j]]] /\ g[j].frag # ""
                                                    /\ LET x == Id(Page(t, Dest(f, g[j])), g[j].frag) IN x[2] = Before(d, want[j]) /\ x[3] = After(d, want[j], want[j]))}
     \cup {f.links[j].at : j \in {j \in DOMAIN f.links : f.links[j].k = "page" /\ f.links[j].at \notin paths}}
SameLinks(t, d, f, ls, units) == Len(ls) = Len(units) /\ \A j \in DOMAIN ls : Lands(t, f, ls[j], ToUnit(d, units[j])) /\ (ls[j].title => ls[j].words = (IF ls[j].k = "crumb" THEN d.es[units[j]].head ELSE d.es[units[j]].toc))
ContentsBad(t, d, k) ==
  LET f == Page(t, d.names[k])
      u == FileUnit(d, k) IN
  IF t.toc = "all" THEN ~SameLinks(t, d, f, Kind(f, "toc"), Contents(d, t, 1))
  ELSE IF t.toc = "local" THEN ~SameLinks(t, d, f, Kind(f, "local"), Contents(d, t, u)) ELSE FALSE
Opt(b, x) == IF b THEN <<x>> ELSE <<>>
NavBad(t, d, k) ==
  LET f == Page(t, d.names[k])
      u == FileUnit(d, k)
      prev == Opt(k > 1, FileUnit(d, k - 1))
      next == IF k < Len(d.names) THEN <<FileUnit(d, k + 1)>> ELSE <<>>
      up == IF u = 1 THEN <<>> ELSE <<S!Around(d.es, u)>>
      nav == Kind(f, "nav")
      ends == prev \o up \o next
      index == InOrder({j \in Units(d) : d.es[j].index})
      may(ls, us) == (t.crumbs /\ ls = <<>>) \/ SameLinks(t, d, f, ls, us)  \* XHTML leaves out links to empty sections
  IN t.nav /\ ~(/\ may(Kind(f, "rel:prev"), prev)
                /\ may(Kind(f, "rel:next"), next)
                /\ may(Kind(f, "rel:up"), up)
                /\ IF t.crumbs
                   THEN /\ \A i \in DOMAIN nav : \E j \in {1} \cup {ends[m] : m \in DOMAIN ends} \cup {index[m] : m \in DOMAIN index} : Lands(t, f, nav[i], ToUnit(d, j))
                        /\ SameLinks(t, d, f, Kind(f, "crumb"), Crumbs(d, u))
                   ELSE SameLinks(t, d, f, nav, ends \o index))
RECURSIVE Reach(_, _)
Reach(t, s) == LET n == s \cup UNION {{Dest(Page(t, x), l) : l \in {Page(t, x).links[j] : j \in DOMAIN Page(t, x).links}} : x \in s} IN IF n = s THEN s ELSE Reach(t, TLCEval(n))

Verdict(t) ==
  IF t.exc # "" THEN <<"reject", t.exc>>
  ELSE LET d == TLCEval(Document(t))
           evs(k) == {i \in DOMAIN d.es : d.es[i].k = k}
           fs == DOMAIN d.names IN
       IF \E i \in fs : d.names[i] = "?" THEN <<"skip", "no name left">>
       ELSE IF {d.names[i] : i \in fs} # Names(t) THEN <<"reject", <<"files", {d.names[i] : i \in fs}, Names(t)>> >>
       ELSE IF Dangling(t) # {} THEN <<"reject", <<"dangling", Dangling(t)>> >>
       ELSE IF Twice(t) # {} THEN <<"reject", <<"identifier twice", Twice(t)>> >>
       ELSE LET r == {i \in evs("ref") : RefBad(t, d, i)}
                c == {i \in evs("cite") : CiteBad(t, d, i)}
                n == {k \in fs : NotesBad(t, d, k)}
                u == {i \in evs("unit") : d.es[i].index}
                x == UNION {IndexBad(t, d, i) : i \in u}
                o == {k \in fs : ContentsBad(t, d, k)}
                v == {k \in fs : NavBad(t, d, k)} IN
            IF r # {} THEN <<"reject", <<"ref", {<<d.es[i].n, d.es[i].l, N!RefNumber(d.num, d.es[i].l)>> : i \in r}>> >>
            ELSE IF RefClash(t, d) # {} THEN <<"reject", <<"one address for two objects", {d.es[y[1]].l : y \in RefClash(t, d)}>> >>
            ELSE IF c # {} THEN <<"reject", <<"cite", {<<d.es[i].n, d.es[i].ls>> : i \in c}>> >>
            ELSE IF n # {} THEN <<"reject", <<"notes", {d.names[k] : k \in n}>> >>
            ELSE IF x # {} THEN <<"reject", <<"index", x>> >>
            ELSE IF o # {} THEN <<"reject", <<"contents", {d.names[k] : k \in o}>> >>
            ELSE IF v # {} THEN <<"reject", <<"navigation", {d.names[k] : k \in v}>> >>
            ELSE IF t.nav /\ t.tocdepth > 0 /\ Reach(t, {d.names[1]}) # Names(t) THEN <<"reject", <<"unreachable", Names(t) \ Reach(t, {d.names[1]})>> >>
            ELSE <<"ok", "">>
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ LET v == TLCEval(Verdict(Traces[tid])) IN PrintT(<<"V", tid, v[1], v[2]>>) /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
