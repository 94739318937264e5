------------------------------ MODULE Unpickler ------------------------------
(* The machine that a pickle is a program of, and the rules under which the   *)
(* metadata of a file may be such a program: names may be looked up in a      *)
(* short list only, whichever instruction asks for them; anything else ends   *)
(* the program, before anything has been imported or called.                  *)
(*                                                                            *)
(* Values: [k, s, m, n, q] - k: "none" "int" "str" "tup" "list" "dict"        *)
(* "mark", "glob" (something looked up), "made" (what calling it gave);       *)
(* s: the text of a string; m, n: the name; q: can be a key of a dictionary.  *)
EXTENDS VF

Val(k)   == [k |-> k, s |-> "", m |-> "", n |-> "", q |-> k \in {"none", "int", "str"}]
Str(t)   == [Val("str") EXCEPT !.s = t]
Mark     == Val("mark")

Allowed(m, n) ==
  \/ m \in {"numpy._core.multiarray", "numpy.core.multiarray"} /\ n \in {"_reconstruct", "scalar"}
  \/ m = "numpy" /\ n \in {"ndarray", "dtype"}
  \/ m = "_codecs" /\ n = "encode"
IsType(v) == v.k = "glob" /\ v.n \in {"ndarray", "dtype"}

\* fate: "run", "stop" (has given a value), "refused", "error";
\* maybe: something may have failed already that depends on the arguments of a call
Start == [stack |-> <<>>, memo |-> <<>>, fate |-> "run", maybe |-> FALSE, called |-> {}, looked |-> {}, val |-> ""]

Fail(c)    == [c EXCEPT !.fate = "error"]
Top(c)     == c.stack[Len(c.stack)]
Marks(c)   == Idx(c.stack, LAMBDA v: v.k = "mark")
LastMark(c) == Max(Marks(c))
\* what is above the last mark can be taken off
Free(c)    == Len(c.stack) - (IF Marks(c) = {} THEN 0 ELSE LastMark(c))
Drop(c, n) == [c EXCEPT !.stack = Sub(@, 1, Len(@) - n)]
Push(c, v) == [c EXCEPT !.stack = Append(@, v)]
Above(c)   == Sub(c.stack, LastMark(c) + 1, Len(c.stack))
ToMark(c)  == Drop(c, Free(c) + 1)

Lookup(c, m, n) ==
  IF Allowed(m, n) THEN [Push(c, [Val("glob") EXCEPT !.m = m, !.n = n, !.q = TRUE]) EXCEPT !.looked = @ \cup {<<m, n>>}]
  ELSE [c EXCEPT !.fate = "refused"]

\* f is called: what comes of it depends on the arguments
Call(c, f) ==
  IF f.k # "glob" THEN Fail(c)
  ELSE [Push(c, [Val("made") EXCEPT !.m = f.m, !.n = f.n]) EXCEPT !.called = @ \cup {<<f.m, f.n>>}, !.maybe = TRUE]

Tup(vs) == [Val("tup") EXCEPT !.q = \A i \in 1..Len(vs) : vs[i].q]
Keys(vs) == \A i \in 1..Len(vs) : i % 2 = 1 => vs[i].q
\* of "made" things some are hashable
KeysMaybe(vs) == \A i \in 1..Len(vs) : i % 2 = 1 => (vs[i].q \/ vs[i].k \in {"made", "tup"})

Exec(c, o) ==
  LET i == o.o
      f == Free(c)
      t == IF f > 0 THEN Top(c) ELSE Mark
      u == IF f > 1 THEN c.stack[Len(c.stack) - 1] ELSE Mark
      w == IF f > 2 THEN c.stack[Len(c.stack) - 2] ELSE Mark
      need(n) == f >= n
  IN CASE i = "none"   -> Push(c, Val("none"))
       [] i = "int"    -> Push(c, Val("int"))
       [] i = "str"    -> Push(c, Str(o.s))
       [] i = "mark"   -> Push(c, Mark)
       [] i = "elist"  -> Push(c, Val("list"))
       [] i = "edict"  -> Push(c, Val("dict"))
       [] i = "etup"   -> Push(c, Tup(<<>>))
       [] i = "tup1"   -> IF need(1) THEN Push(Drop(c, 1), Tup(<<t>>)) ELSE Fail(c)
       [] i = "tup2"   -> IF need(2) THEN Push(Drop(c, 2), Tup(<<u, t>>)) ELSE Fail(c)
       [] i = "tup"    -> IF Marks(c) = {} THEN Fail(c) ELSE Push(ToMark(c), Tup(Above(c)))
       [] i = "list"   -> IF Marks(c) = {} THEN Fail(c) ELSE Push(ToMark(c), Val("list"))
       [] i = "dict"   -> IF Marks(c) = {} \/ f % 2 = 1 \/ ~KeysMaybe(Above(c)) THEN Fail(c)
                          ELSE [Push(ToMark(c), Val("dict")) EXCEPT !.maybe = @ \/ ~Keys(Above(c))]
       [] i = "append" -> IF ~need(2) \/ u.k # "list" THEN Fail(c) ELSE Drop(c, 1)
       [] i = "appends" -> IF Marks(c) = {} THEN Fail(c)
                          ELSE LET d == ToMark(c) IN
                               IF Free(d) < 1 THEN Fail(c) ELSE IF f = 0 THEN d ELSE IF Top(d).k = "list" THEN d ELSE Fail(c)
       [] i = "setitem" -> IF ~need(3) THEN Fail(c)
                          ELSE IF w.k = "dict" /\ u.q THEN Drop(c, 2)
                          ELSE IF w.k \in {"dict", "list", "made"} THEN [Drop(c, 2) EXCEPT !.maybe = TRUE]
                          ELSE Fail(c)
       [] i = "setitems" -> IF Marks(c) = {} THEN Fail(c)
                          ELSE LET d == ToMark(c) IN
                               IF Free(d) < 1 THEN Fail(c) ELSE IF f = 0 THEN d ELSE IF f % 2 = 1 THEN Fail(c)
                               ELSE IF Top(d).k = "dict" /\ Keys(Above(c)) THEN d
                               ELSE IF Top(d).k \in {"dict", "list", "made"} THEN [d EXCEPT !.maybe = TRUE] ELSE Fail(c)
       [] i = "put"    -> IF need(1) THEN [c EXCEPT !.memo = Append(@, t)] ELSE Fail(c)
       [] i = "get"    -> IF o.i \in DOMAIN c.memo THEN Push(c, c.memo[o.i]) ELSE Fail(c)
       [] i = "dup"    -> IF need(1) THEN Push(c, t) ELSE Fail(c)
       [] i = "pop"    -> IF c.stack = <<>> THEN Fail(c) ELSE Drop(c, 1)
       [] i = "popmark" -> IF Marks(c) = {} THEN Fail(c) ELSE ToMark(c)
       \* names
       [] i = "global" -> Lookup(c, o.m, o.n)
       [] i = "sglobal" -> IF ~need(2) \/ t.k # "str" \/ u.k # "str" THEN Fail(c) ELSE Lookup(Drop(c, 2), u.s, t.s)
       [] i = "ext"    -> IF o.m = "" THEN Fail(c) ELSE Lookup(c, o.m, o.n)
       [] i = "inst"   -> IF Marks(c) = {} THEN Fail(c)
                          ELSE LET d == Lookup(ToMark(c), o.m, o.n) IN IF d.fate = "run" THEN Call(Drop(d, 1), Top(d)) ELSE d
       \* calls
       [] i = "reduce" -> IF ~need(2) \/ t.k # "tup" THEN Fail(c) ELSE Call(Drop(c, 2), u)
       [] i = "newobj" -> IF ~need(2) \/ t.k # "tup" \/ ~IsType(u) THEN Fail(c) ELSE Call(Drop(c, 2), u)
       [] i = "newobjex" -> IF ~need(3) \/ t.k # "dict" \/ u.k # "tup" \/ ~IsType(w) THEN Fail(c) ELSE Call(Drop(c, 3), w)
       [] i = "obj"    -> IF Marks(c) = {} \/ f = 0 THEN Fail(c) ELSE Call(ToMark(c), Above(c)[1])
       [] i = "build"  -> IF ~need(2) THEN Fail(c) ELSE [Drop(c, 1) EXCEPT !.maybe = TRUE]
       \* nothing answers to these
       [] i = "persid" -> Fail(c)
       [] i = "binpersid" -> Fail(c)
       [] i = "stop"   -> IF need(1) THEN [c EXCEPT !.fate = "stop", !.val = t.k] ELSE Fail(c)
       [] OTHER -> Fail(c)

Run(prog) == FoldLeft(LAMBDA c, o: IF c.fate = "run" THEN Exec(c, o) ELSE c, Start, prog)
\* a program that ends without a value is damaged
Fate(c) == IF c.fate = "run" THEN "error" ELSE c.fate

\* what may come of a program
Allows(c, got) == got = Fate(c) \/ (c.maybe /\ got = "error")
=============================================================================
