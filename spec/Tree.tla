-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Element trees, the abstract input of the converter.                     *)
(*                                                                         *)
(*   [t |-> tag, a |-> <<<<name, value>>, ...>>, x |-> text, k |-> kids]    *)
(*                                                                         *)
(* Attribute values and text are sequences of characters; the text is      *)
(* already stripped of white space at its ends.                            *)
(***************************************************************************)
EXTENDS Chars

Node(t, a, x, k) == [t |-> t, a |-> a, x |-> x, k |-> k]
Leaf(t, x)       == Node(t, <<>>, x, <<>>)
El(t, k)         == Node(t, <<>>, <<>>, k)

HasAttr(n, name) == \E i \in DOMAIN n.a : n.a[i][1] = name
\* A missing attribute reads as empty, and so does one that repeats its name.
Attr(n, name) ==
  IF HasAttr(n, name)
  THEN LET v == n.a[CHOOSE i \in DOMAIN n.a : n.a[i][1] = name][2]
       IN IF Str(v) = name THEN <<>> ELSE v
  ELSE <<>>
AttrStr(n, name) == Str(Attr(n, name))

RECURSIVE Size(_), Depth(_), HasBelow(_, _)
Size(n)  == 1 + FoldLeft(LAMBDA acc, c : acc + Size(c), 0, n.k)
Depth(n) == 1 + FoldLeft(LAMBDA acc, c : IF Depth(c) > acc THEN Depth(c) ELSE acc, 0, n.k)
HasBelow(n, tag) == \E i \in DOMAIN n.k : n.k[i].t = tag \/ HasBelow(n.k[i], tag)
=============================================================================
