-------------------------------- MODULE File --------------------------------
(* std::file: a disk of named byte sequences and handles on them.  A handle  *)
(* has a position; reading and writing happen there and move it, seeking     *)
(* moves it, and a handle never sees or touches anything but its file.       *)
EXTENDS Text

Names == 0..3
Slots == 0..2
NameText(f) == <<102, 48 + f>>                        \* "f0" ...
Absent == [ex |-> FALSE, b |-> <<>>]
Closed == [on |-> FALSE, f |-> 0, mode |-> 0, pos |-> 0]
Start(cfg) == [disk |-> [f \in Names |-> Absent], h |-> [k \in Slots |-> Closed]]
Reads(h) == h.mode % 2 = 1
Writes(h) == (h.mode \div 2) % 2 = 1
Creates(m) == (m \div 4) % 2 = 1
Body(s, k) == s.disk[s.h[k].f].b
(* b with w written at pos; a hole reads as zeros *)
Put(b, pos, w) == IF w = <<>> THEN b ELSE
  LET n == Max2(Len(b), pos + Len(w)) IN
  [i \in 1..n |-> IF i > pos /\ i <= pos + Len(w) THEN w[i - pos] ELSE IF i <= Len(b) THEN b[i] ELSE 0]
Got(b, pos, n) == IF pos >= Len(b) THEN <<>> ELSE Sub(b, pos, Min2(Len(b), pos + n))
Fill(n) == [i \in 1..n |-> 90]
UpToNul(b) == LET i == FindByte(b, 0) IN IF i = -1 THEN b ELSE Sub(b, 0, i)

Ret(s, r) == { [s |-> s, r |-> r] }
Write(s, k, w) == (* the count and whether there is an error *)
  LET h == s.h[k] IN
  IF ~Writes(h) THEN Ret(s, <<-1, 1>>)
  ELSE Ret([s EXCEPT !.disk[h.f].b = Put(@, h.pos, w), !.h[k].pos = @ + Len(w)], <<Len(w), 0>>)
Post(e, s) ==
  LET a == e.a IN
  IF e.op = "open" THEN (* slot, name, mode -> opened, error, mode, path, position *)
    LET k == a[1]  f == a[2]  m == a[3] IN
    IF (m % 4 = 0) \/ (~s.disk[f].ex /\ ~Creates(m)) THEN Ret(s, <<0, 1, 0, <<>>, 0>>)
    ELSE Ret([s EXCEPT !.disk[f] = [ex |-> TRUE, b |-> @.b], !.h[k] = [on |-> TRUE, f |-> f, mode |-> m, pos |-> 0]], <<1, 0, m, NameText(f), 0>>)
  ELSE IF e.op = "fopen" THEN (* slot, name: a descriptor somebody else opened *)
    LET k == a[1]  f == a[2] IN
    Ret([s EXCEPT !.disk[f] = [ex |-> TRUE, b |-> @.b], !.h[k] = [on |-> TRUE, f |-> f, mode |-> 7, pos |-> 0]], <<1, 0, 0, <<>>, 0>>)
  ELSE IF e.op = "none" THEN Ret(s, <<-1, 1, 1, -1, 1, 1, -1, 1, 1>>)
  ELSE IF e.op = "broken" THEN Ret(s, <<-1, 1, -1, 1, 113, 1, 1, -1, 1, 1, 5, 1>>)
  ELSE IF e.op = "peek" THEN (* what another program finds in the file *)
    IF s.disk[a[1]].ex THEN Ret(s, <<1, s.disk[a[1]].b>>) ELSE Ret(s, <<0, <<>>>>)
  ELSE IF e.op = "unlink" THEN Ret([s EXCEPT !.disk[a[1]] = Absent], <<0>>)
  ELSE
  LET k == a[1]  h == s.h[k] IN
  CASE e.op = "write"  -> Write(s, k, a[2])
    [] e.op = "writes" -> LET w == Write(s, k, UpToNul(a[2])) IN { [s |-> x.s, r |-> <<x.r[2]>>] : x \in w }
    [] e.op = "writef" -> Write(s, k, <<40>> \o INumeral(a[2]) \o <<44>> \o UpToNul(a[3]) \o <<41>>)
    [] e.op = "writep" -> Write(s, k, UpToNul(a[2]))
    [] e.op = "read"   -> (* the buffer was full of Z *)
       IF ~Reads(h) THEN Ret(s, << Fill(a[2]), 1 >>)
       ELSE LET g == Got(Body(s, k), h.pos, a[2]) IN Ret([s EXCEPT !.h[k].pos = @ + Len(g)], << g \o Fill(a[2] - Len(g)), 0 >>)
    [] e.op = "readc"  ->
       IF ~Reads(h) THEN Ret(s, <<0, 1>>)
       ELSE LET g == Got(Body(s, k), h.pos, 1) IN Ret([s EXCEPT !.h[k].pos = @ + Len(g)], << IF g = <<>> THEN 0 ELSE g[1], 0 >>)
    [] e.op = "all"    -> (* the rest of the file, and the same with something appended *)
       IF ~Reads(h) THEN Ret(s, <<<<>>, 1, <<33>>>>)
       ELSE LET b == Body(s, k)  g == Got(b, h.pos, Len(b)) IN Ret([s EXCEPT !.h[k].pos = @ + Len(g)], <<UpToNul(g), 0, UpToNul(g \o <<33>>)>>)
    [] e.op = "size"   -> Ret(s, << Len(Body(s, k)) >>)
    [] e.op = "tell"   -> Ret(s, << h.pos >>)
    [] e.op = "rewind" -> Ret([s EXCEPT !.h[k].pos = 0], << 0 >>)
    [] e.op = "seek"   -> (* offset, whence *)
       LET p == IF a[3] = 0 THEN a[2] ELSE IF a[3] = 1 THEN h.pos + a[2] ELSE Len(Body(s, k)) - a[2] IN
       IF a[3] \notin 0..2 \/ p < 0 THEN Ret(s, <<1>>) ELSE Ret([s EXCEPT !.h[k].pos = p], <<0>>)
    [] e.op = "close"  -> Ret([s EXCEPT !.h[k] = Closed], <<0>>)
    [] e.op = "with"   -> (* with f = open(read): the rest; the handle is gone afterwards *)
       IF s.disk[a[2]].ex THEN Ret(s, <<UpToNul(s.disk[a[2]].b), 0>>) ELSE Ret(s, <<<<>>, 1>>)
Enabled(e, s) ==
  CASE e.op \in {"open", "fopen"} -> ~s.h[e.a[1]].on
    [] e.op = "unlink" -> s.disk[e.a[1]].ex /\ \A k \in Slots : ~(s.h[k].on /\ s.h[k].f = e.a[1])
    [] e.op \in {"peek", "with", "none", "broken"} -> TRUE
    [] OTHER -> s.h[e.a[1]].on
Inv(s) == \A k \in Slots : s.h[k].on => s.disk[s.h[k].f].ex /\ s.h[k].pos >= 0

Op(o, a) == [op |-> o, a |-> a, r |-> <<>>]
SmallOps == { Op("open", <<0, 0, m>>) : m \in {1, 2, 3, 6} } \cup { Op("open", <<1, 0, m>>) : m \in {1, 7} }
  \cup { Op("fopen", <<0, 0>>), Op("write", <<0, <<97, 98>>>>), Op("write", <<1, <<99>>>>), Op("read", <<0, 2>>), Op("read", <<1, 1>>), Op("readc", <<1>>), Op("seek", <<0, 1, 0>>),
         Op("seek", <<1, -1, 1>>), Op("seek", <<1, 1, 2>>), Op("rewind", <<0>>), Op("all", <<1>>), Op("close", <<0>>) }
=============================================================================
