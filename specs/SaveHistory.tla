---------------------------- MODULE SaveHistory ----------------------------
(* A .hspy/.zspy file over a history of saves.  The file maps titles to      *)
(* signals; every operation is one of                                        *)
(*   w   save a signal, overwriting the file                                  *)
(*   a   save a signal into the existing file (hspy, mode "a")                *)
(*   u   save everything but the data (write_dataset=False)                   *)
(*   s   load lazily for writing, transform the data lazily, save in place    *)
(*   r   the same with a file opened read only                                *)
(*   c   load lazily, bring the data in memory, overwrite the file            *)
(*   l   load lazily and leave the file open                                  *)
EXTENDS Tree
RECURSIVE Merge(_, _)
Pos(keys, k) == CHOOSE i \in 1..Len(keys) : keys[i] = k
Merge(old, new) ==
  IF old.k = "dict" /\ new.k = "dict"
    THEN TLCEval(LET kept == SelectSeq([i \in 1..Len(old.keys) |-> i],
                       LAMBDA i: old.keys[i] \notin {new.keys[j] : j \in 1..Len(new.keys)})
         IN [k |-> "dict",
             keys |-> new.keys \o [i \in 1..Len(kept) |-> old.keys[kept[i]]],
             x |-> [i \in 1..Len(new.keys) |->
                      IF \E j \in 1..Len(old.keys) : old.keys[j] = new.keys[i]
                        THEN Merge(old.x[Pos(old.keys, new.keys[i])], new.x[i])
                        ELSE new.x[i]]
                    \o [i \in 1..Len(kept) |-> old.x[kept[i]]]])
  ELSE IF old.k \in {"list", "tuple"} /\ old.k = new.k /\ Len(old.x) = Len(new.x)
    THEN TLCEval([k |-> new.k, x |-> [i \in 1..Len(new.x) |-> Merge(old.x[i], new.x[i])]])
  ELSE new
\* dicts compare by their keys, in any order
RECURSIVE SameTree(_, _)
SameTree(t, o) ==
  IF t.k = "dict"
    THEN /\ o.k = "dict" /\ Len(t.keys) = Len(o.keys)
         /\ \A i \in 1..Len(t.keys) :
              \E j \in 1..Len(o.keys) : t.keys[i] = o.keys[j] /\ SameTree(t.x[i], o.x[j])
  ELSE IF t.k \in {"list", "tuple"} /\ ~MixedNumeric(t.x) /\ ~MixedText(t.x)
    THEN /\ t.k = o.k /\ Len(t.x) = Len(o.x)
         /\ \A i \in 1..Len(t.x) : SameTree(t.x[i], o.x[i])
  ELSE Same(t, o)

\* A hspy file read lazily stays open (read only) until it is overwritten;
\* until then it can't be opened for updating.
Refused(s, e) == \/ e.op = "r"
                 \/ e.op = "s" /\ e.fmt = "zspy"
                 \/ e.op \in {"a", "u", "s"} /\ s.open
Opens(e) == e.fmt = "hspy" /\ e.op \in {"l", "r"}
Closes(e) == e.op \in {"w", "c"}
Sig(e) == [data |-> e.d, dt |-> e.dt, tree |-> e.val, ax |-> e.ax]
NoFile == [file |-> <<>>, open |-> FALSE]
Content(s, e) ==
  LET file == s.file IN
  CASE e.op = "w" -> (e.title :> Sig(e))
    [] e.op = "a" -> (e.title :> IF e.title \in DOMAIN file
                        THEN [Sig(e) EXCEPT !.tree = Merge(file[e.title].tree, @)]
                        ELSE Sig(e)) @@ file
    [] e.op = "u" -> (e.title :> [file[e.title] EXCEPT !.ax = e.ax,
                                    !.tree = Merge(@, e.val)]) @@ file
    [] e.op = "s" ->
         (e.title :> [data |-> file[e.title].data + e.d, dt |-> e.dt, ax |-> e.ax,
                      tree |-> Merge(file[e.title].tree, e.val)]) @@ file
    [] e.op = "c" -> (e.title :> [file[e.title] EXCEPT !.tree =
                         IF e.keep THEN @ ELSE e.val])
    [] OTHER -> file
Apply(s, e) == TLCEval([file |-> IF Refused(s, e) THEN s.file ELSE Content(s, e),
                open |-> IF Closes(e) THEN FALSE ELSE (s.open \/ Opens(e))])
=============================================================================
