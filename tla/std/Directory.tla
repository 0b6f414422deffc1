----------------------------- MODULE Directory -----------------------------
(* std::directory: a directory is a set of names; reading it gives every     *)
(* name once, in some order, then nothing; positions told can be returned to.*)
EXTENDS Text

Slots == 0..1
Nobody == 65534
Dots == { <<46>>, <<46, 46>> }
Closed == [on |-> FALSE, left |-> {}, seen |-> <<>>]
(* kinds: 4 directory, 8 regular file; kind 0 is "not there" *)
Start(cfg) == [names |-> {}, h |-> [k \in Slots |-> Closed]]
Ret(s, r) == { [s |-> s, r |-> r] }
All(s) == { n.t : n \in s.names } \cup Dots
Kind(s, t) == IF t \in Dots THEN 4 ELSE (CHOOSE n \in s.names : n.t = t).k
Post(e, s) ==
  LET a == e.a IN
  CASE e.op = "make"   -> Ret([s EXCEPT !.names = @ \cup {[t |-> a[1], k |-> a[2]]}], <<0>>)
    [] e.op = "remove" -> Ret([s EXCEPT !.names = { n \in @ : n.t # a[1] }], <<0>>)
    [] e.op = "open"   -> Ret([s EXCEPT !.h[a[1]] = [on |-> TRUE, left |-> All(s), seen |-> <<>>]], <<1, 0>>)
    [] e.op = "fopen"  -> Ret([s EXCEPT !.h[a[1]] = [on |-> TRUE, left |-> All(s), seen |-> <<>>]], <<1, 0>>)
    [] e.op = "bad"    -> Ret(s, <<0, 1>>)              \* a missing one, a file, a closed descriptor
    [] e.op = "lost"   -> Ret(s, <<1, 1, 0>>)           \* a directory that is removed while open
    [] e.op = "none"   -> Ret(s, <<-1, 1, 1, 1, -1>>)
    [] e.op = "read"   -> LET h == s.h[a[1]] IN         \* -> name, kind, record length is a multiple of 8 that holds the name
         IF h.left = {} THEN Ret(s, << NilStr, 0, 1 >>)
         ELSE IF e.r # <<>> /\ e.r[1] \in h.left
              THEN Ret([s EXCEPT !.h[a[1]].left = @ \ {e.r[1]}, !.h[a[1]].seen = Append(@, e.r[1])], << e.r[1], Kind(s, e.r[1]), 1 >>)
              ELSE Ret(s, << <<63>>, 0, 0 >>)
    [] e.op = "rewind" -> Ret([s EXCEPT !.h[a[1]].left = All(s), !.h[a[1]].seen = <<>>], <<0, 0>>)
    [] e.op = "seek"   -> (* to where a[2] entries had been read *)
         LET h == s.h[a[1]]  p == SubSeq(h.seen, 1, a[2]) IN
         Ret([s EXCEPT !.h[a[1]].left = All(s) \ Rng(p), !.h[a[1]].seen = p], <<0>>)
    [] e.op = "stat"   -> (* kind, permissions, owner, and everything else as the system says *)
         IF a[1] \in All(s) THEN LET k == Kind(s, a[1]) IN Ret(s, << k, IF k = 4 THEN 448 ELSE 384, Nobody, Nobody, 1, 1 >>) ELSE Ret(s, << -1, 0, 0, 0, 0, 0 >>)
    [] e.op = "close"  -> Ret([s EXCEPT !.h[a[1]] = Closed], <<0>>)
Enabled(e, s) == TRUE
Inv(s) == \A k \in Slots : s.h[k].on => s.h[k].left \cap Rng(s.h[k].seen) = {}
=============================================================================
