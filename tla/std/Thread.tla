------------------------------ MODULE Thread ------------------------------
(* Threads: every thread runs its function once, with the data it was given, *)
(* at the same time as the others; joining waits for its end and may be      *)
(* repeated; a detached thread goes on by itself; equal() tells whether two   *)
(* objects mean one thread; what a thread does under a mutex, a lock or      *)
(* before signalling a condition is neither lost nor seen half-done.          *)
EXTENDS Text

Slots == 0..3
(* st: none / run / end (told to end, by itself it will) / over; det: nobody may wait for it; gone: it has been seen to end *)
NoThread == [st |-> "none", det |-> FALSE, seen |-> FALSE, data |-> 0, acc |-> 0]
Start(cfg) == [t |-> [k \in Slots |-> NoThread]]
Ret(s, r) == { [s |-> s, r |-> r] }
INVAL == 22
NILPTR == 134
No == << -1 >>

(* has the thread finished, as seen from outside? *)
Done(t) == CASE t.st = "run" -> {0}
             [] t.st = "end" -> IF t.seen THEN {1} ELSE {0, 1}
             [] t.st = "over" -> {1}
             [] OTHER -> {}
Seen(s, k, d) == IF d = 1 THEN [s EXCEPT !.t[k].seen = TRUE] ELSE s

(* joining: a thread nobody may wait for is not waited for *)
Join(s, k) == LET t == s.t[k] IN
  IF t.det THEN { [s |-> Seen(s, k, d), d |-> d] : d \in Done(t) }
  ELSE { [s |-> [s EXCEPT !.t[k].st = "over"], d |-> 1] }

Post(e, s) ==
  LET a == e.a  op == e.op IN
  CASE op = "create" -> Ret([s EXCEPT !.t[a[1]] = [NoThread EXCEPT !.st = "run", !.data = a[2]]], << 1, a[2], 1, 1 + 2 + 0 + 8 >>)
    [] op = "ask"    -> LET n == s.t[a[1]].acc + a[2] IN Ret([s EXCEPT !.t[a[1]].acc = n], << n, n >>)
    [] op = "data"   -> Ret(s, << s.t[a[1]].data >>)
    [] op \in {"is", "same"} -> Ret(s, << IF a[1] = a[2] THEN 1 ELSE 0 >>)
    [] op = "end"    -> Ret([s EXCEPT !.t[a[1]].st = "end"], <<>>)
    [] op = "join"   -> { [s |-> q.s, r |-> << 0, q.d, 0, 0, No >>] : q \in Join(s, a[1]) }
    [] op = "joinby" -> { [s |-> q.s, r |-> << 0, q.d >>] : q \in Join(s, a[1]) }
    [] op = "detach" -> IF s.t[a[1]].det THEN Ret(s, << INVAL, 0 >>) ELSE Ret([s EXCEPT !.t[a[1]].det = TRUE], << 0, 0 >>)
    [] op = "gone"   -> Ret([s EXCEPT !.t[a[1]] = NoThread], << 99, 1, 0 >>)
    [] op = "peek"   -> { [s |-> Seen(s, a[1], d), r |-> <<d>>] : d \in Done(s.t[a[1]]) }
    [] op = "async"  -> Ret(s, << 1, 0, No, No >>)
    [] op = "stale"  -> Ret(s, << 1, 0, No >>)
    [] op = "scope"  -> Ret(s, << 1, 1 >>)
    [] op = "race"   -> Ret(s, << a[1] * a[2], a[1] >>)
    [] op = "lock"   -> Ret(s, << 0, 0, 0, 0, 35, 1 >>)
    [] op = "leave"  -> Ret(s, << 1, 1, IF a[1] = 2 THEN 2 ELSE a[2] % 256 >>)
    [] op = "many"   -> Ret(s, << a[1] >>)
    [] op = "nil"    -> Ret(s, << NILPTR, B("join(): `t` is nil"), 1, 1, 1, 1 >>)
(* what may be asked: nobody waits for a thread that will not end *)
Enabled(e, s) ==
  LET t == s.t[e.a[1]] IN
  CASE e.op = "create" -> t.st = "none"
    [] e.op \in {"ask", "data", "end", "detach"} -> t.st = "run"
    [] e.op \in {"is", "same"} -> t.st = "run" /\ s.t[e.a[2]].st = "run"
    [] e.op = "join" -> t.st # "none" /\ (t.st # "run" \/ t.det)
    [] e.op = "joinby" -> t.st # "none" /\ (t.st # "run" \/ t.det) /\ e.a[1] # e.a[2] /\ s.t[e.a[2]].st = "run"
    [] e.op = "gone" -> t.st = "over" \/ (t.st = "end" /\ t.det)
    [] e.op = "peek" -> t.st # "none"
    [] OTHER -> TRUE
Inv(s) == \A k \in Slots : /\ s.t[k].st = "none" => s.t[k] = NoThread
                           /\ s.t[k].st = "over" => ~s.t[k].det
Op(o, a) == [op |-> o, a |-> a, r |-> <<>>]
SmallOps == { Op("create", <<0, 5>>), Op("create", <<1, -6>>), Op("end", <<0, 1>>), Op("end", <<1, 3>>), Op("end", <<0, 2>>), Op("join", <<0>>), Op("join", <<1>>), Op("joinby", <<0, 1>>),
              Op("detach", <<0>>), Op("gone", <<0>>), Op("peek", <<1>>), Op("ask", <<0, 2>>), Op("ask", <<0, 3>>), Op("is", <<0, 1>>), Op("same", <<0, 1>>), Op("scope", <<7>>) }
=============================================================================
