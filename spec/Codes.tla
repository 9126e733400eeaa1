------------------------------- MODULE Codes -------------------------------
(* Names and texts of Escaping.tla as code points. *)
EXTENDS Integers, Sequences
AmpRef == <<38, 97, 109, 112, 59>>
LtRef == <<38, 108, 116, 59>>
GtRef == <<38, 103, 116, 59>>
QuotRef == <<38, 35, 51, 52, 59>>
TitleName == <<116, 105, 116, 108, 101>>
RawNames == {TitleName, <<115, 99, 114, 105, 112, 116>>, <<115, 116, 121, 108, 101>>, <<116, 101, 120, 116, 97, 114, 101, 97>>}
(* character references by name; old: also without the semicolon *)
Entities == <<
  [n |-> <<97, 109, 112>>, c |-> 38, old |-> TRUE],
  [n |-> <<108, 116>>, c |-> 60, old |-> TRUE],
  [n |-> <<103, 116>>, c |-> 62, old |-> TRUE],
  [n |-> <<113, 117, 111, 116>>, c |-> 34, old |-> TRUE],
  [n |-> <<97, 112, 111, 115>>, c |-> 39, old |-> FALSE],
  [n |-> <<110, 98, 115, 112>>, c |-> 160, old |-> TRUE],
  [n |-> <<99, 111, 112, 121>>, c |-> 169, old |-> TRUE],
  [n |-> <<115, 101, 99, 116>>, c |-> 167, old |-> TRUE],
  [n |-> <<110, 111, 116>>, c |-> 172, old |-> TRUE],
  [n |-> <<110, 111, 116, 105, 110>>, c |-> 8713, old |-> FALSE],
  [n |-> <<101, 97, 99, 117, 116, 101>>, c |-> 233, old |-> TRUE],
  [n |-> <<109, 100, 97, 115, 104>>, c |-> 8212, old |-> FALSE],
  [n |-> <<110, 100, 97, 115, 104>>, c |-> 8211, old |-> FALSE],
  [n |-> <<104, 101, 108, 108, 105, 112>>, c |-> 8230, old |-> FALSE],
  [n |-> <<65, 77, 80>>, c |-> 38, old |-> TRUE],
  [n |-> <<76, 84>>, c |-> 60, old |-> TRUE],
  [n |-> <<71, 84>>, c |-> 62, old |-> TRUE],
  [n |-> <<84, 97, 98>>, c |-> 9, old |-> FALSE],
  [n |-> <<99, 111, 108, 111, 110>>, c |-> 58, old |-> FALSE],
  [n |-> <<101, 117, 114, 111>>, c |-> 8364, old |-> FALSE] >>
(* ligatures of text, longest first *)
Ligatures == <<
  << <<45, 45, 45>>, 8212 >>,
  << <<96, 96>>, 8220 >>,
  << <<39, 39>>, 8221 >>,
  << <<45, 45>>, 8211 >>,
  << <<34, 96>>, 8222 >>,
  << <<34, 39>>, 8220 >>,
  << <<96>>, 8216 >>,
  << <<39>>, 8217 >> >>
ScriptTag == <<60, 115, 99, 114, 105, 112, 116, 62>>
=============================================================================
