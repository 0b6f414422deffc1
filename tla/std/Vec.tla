-------------------------------- MODULE Vec --------------------------------
(* std::vec: a vector is a finite sequence.  The object holds NSlots        *)
(* independent vectors; live is the set of those that exist.                *)
EXTENDS Integers, Sequences, FiniteSets

NSlots == 3
Start(cfg) == [live |-> {}, q |-> [k \in 1..NSlots |-> <<>>]]

Ret(s, v) == { [s |-> s, r |-> <<v>>] }
Upd(s, k, q) == Ret([s EXCEPT !.q[k] = q, !.live = @ \cup {k}], 0)
InsertAt(q, i, v) == SubSeq(q, 1, i) \o <<v>> \o SubSeq(q, i + 1, Len(q))
EraseAt(q, i, n) == SubSeq(q, 1, i) \o SubSeq(q, i + n + 1, Len(q))
RECURSIVE Sum(_, _)
Sum(q, i) == IF i = 0 THEN 0 ELSE Sum(q, i - 1) + i * (q[i] % 1000)

Post(e, s) ==
  LET k == e.a[1] + 1  q == s.q[k] IN
  CASE e.op \in {"new", "newsized"} -> Upd(s, k, <<>>)
    [] e.op \in {"push", "add"} -> Upd(s, k, Append(q, e.a[2]))
    [] e.op = "pushn" -> Upd(s, k, q \o [i \in 1..e.a[2] |-> e.a[3] + i - 1])
    [] e.op = "pop"  -> IF q = <<>> THEN Ret(s, 0) ELSE Ret([s EXCEPT !.q[k] = SubSeq(q, 1, Len(q) - 1)], q[Len(q)])
    [] e.op = "drop" -> Upd(s, k, SubSeq(q, 1, Len(q) - 1))
    [] e.op = "last" -> Ret(s, q[Len(q)])
    [] e.op = "lastn" -> Ret(s, q[Len(q) - e.a[2]])
    [] e.op = "get"  -> Ret(s, q[e.a[2] + 1])
    [] e.op = "set"  -> Upd(s, k, [q EXCEPT ![e.a[2] + 1] = e.a[3]])
    [] e.op = "insert" -> Upd(s, k, InsertAt(q, e.a[2], e.a[3]))
    [] e.op = "erase"  -> Upd(s, k, EraseAt(q, e.a[2], e.a[3]))
    [] e.op = "remove" -> Upd(s, k, EraseAt(q, e.a[2], 1))
    [] e.op = "size" -> Ret(s, Len(q))
    [] e.op = "sum"  -> Ret(s, Sum(q, Len(q)))
    [] e.op = "copy" -> Upd(s, e.a[2] + 1, q)
    [] e.op = "free" -> Ret([s EXCEPT !.live = @ \ {k}, !.q[k] = <<>>], 0)
    [] e.op = "all"  -> Ret(s, q)

(* Which operations the interface allows in which state *)
Enabled(e, s) ==
  LET k == e.a[1] + 1  n == Len(s.q[k]) IN
  CASE e.op \in {"new", "newsized"} -> k \notin s.live
    [] k \notin s.live -> FALSE
    [] e.op \in {"drop", "last"} -> n > 0
    [] e.op \in {"get", "set", "remove", "lastn"} -> e.a[2] < n
    [] e.op = "insert" -> e.a[2] <= n
    [] e.op = "erase" -> e.a[2] + e.a[3] <= n
    [] e.op = "copy" -> e.a[2] + 1 \notin s.live
    [] OTHER -> TRUE

Inv(s) == \A k \in 1..NSlots : k \notin s.live => s.q[k] = <<>>
(* a small universe for the exhaustive exploration of short histories *)
Op(o, a) == [op |-> o, a |-> a, r |-> <<>>]
SmallOps == { Op("new", <<0>>), Op("newsized", <<0, 1>>), Op("push", <<0, 1>>), Op("push", <<0, 2>>), Op("insert", <<0, 0, 3>>), Op("insert", <<0, 1, 4>>),
              Op("pop", <<0>>), Op("erase", <<0, 0, 1>>), Op("erase", <<0, 1, 1>>), Op("set", <<0, 0, 5>>), Op("copy", <<0, 1>>), Op("push", <<1, 6>>), Op("free", <<0>>), Op("all", <<0>>), Op("all", <<1>>) }
=============================================================================
