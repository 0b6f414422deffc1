------------------------------ MODULE Hashmap ------------------------------
(* std::hashmap: a map is a partial function from keys to values, kept as a  *)
(* set of pairs.  Keys and values are integers or strings; looking up an     *)
(* absent key gives the zero value (0, or nil for strings).                  *)
EXTENDS Integers, Sequences, FiniteSets

NM == 2
(* cfg.zero: what the value type's zero looks like *)
Start(cfg) == [live |-> {}, zero |-> cfg.zero, m |-> [k \in 1..NM |-> {}]]

Has(m, k) == \E p \in m : p[1] = k
Val(m, k) == (CHOOSE p \in m : p[1] = k)[2]
Set(m, k, v) == { p \in m : p[1] # k } \cup { <<k, v>> }
Ret(s, v) == { [s |-> s, r |-> <<v>>] }
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + SumOf(S \ {x})
(* a listing is right if it is some enumeration of the pairs without repetition *)
IsListing(ks, vs, m) == Len(ks) = Cardinality(m) /\ Len(vs) = Len(ks) /\ { <<ks[i], vs[i]>> : i \in 1..Len(ks) } = m

Post(e, s) ==
  LET a == e.a  j == a[1] + 1  m == s.m[j] IN
  CASE e.op = "new"  -> Ret([s EXCEPT !.live = @ \cup {j}, !.m[j] = {}], 0)
    [] e.op = "put"  -> Ret([s EXCEPT !.m[j] = Set(@, a[2], a[3])], 0)
    [] e.op = "putn" -> (* consecutive integer keys a[2] .. a[2]+a[3]-1, values key * a[4] *)
         LET new == { <<a[2] + i, (a[2] + i) * a[4]>> : i \in 0..(a[3] - 1) } IN
         Ret([s EXCEPT !.m[j] = { p \in m : \A q \in new : q[1] # p[1] } \cup new], 0)
    [] e.op = "get"  -> Ret(s, IF Has(m, a[2]) THEN Val(m, a[2]) ELSE s.zero)
    [] e.op = "getn" -> Ret(s, [i \in 1..a[3] |-> IF Has(m, a[2] + i - 1) THEN Val(m, a[2] + i - 1) ELSE 0])
    [] e.op = "has"  -> Ret(s, IF Has(m, a[2]) THEN 1 ELSE 0)
    [] e.op = "size" -> Ret(s, Cardinality(m))
    [] e.op = "list" -> IF Len(e.r) = 2 /\ IsListing(e.r[1], e.r[2], m) THEN { [s |-> s, r |-> e.r] } ELSE { [s |-> s, r |-> <<<<>>, <<>>, <<>>>>] }
    [] e.op = "free" -> Ret([s EXCEPT !.live = @ \ {j}, !.m[j] = {}], 0)

Enabled(e, s) == LET j == e.a[1] + 1 IN IF e.op = "new" THEN j \notin s.live ELSE j \in s.live
Inv(s) == \A j \in 1..NM : \A p, q \in s.m[j] : p[1] = q[1] => p = q
(* a small universe for the exhaustive exploration of short histories *)
Op(o, a) == [op |-> o, a |-> a, r |-> <<>>]
SmallOps == { Op("new", <<0>>), Op("put", <<0, 0, 1>>), Op("put", <<0, 0, 2>>), Op("put", <<0, 32, 3>>), Op("put", <<0, 7, 0>>), Op("get", <<0, 0>>), Op("free", <<0>>), Op("list", <<0>>), Op("size", <<0>>), Op("putn", <<0, 1, 31, 1>>) }
=============================================================================
