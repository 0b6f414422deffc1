-------------------------------- MODULE Mem --------------------------------
(* std::memory and std::arena: a store of disjoint blocks.  A block is a     *)
(* sequence of bytes; -1 is a byte whose content the interface leaves open.  *)
(* Heap blocks live until they are freed; arena blocks until their arena is  *)
(* reset or freed.                                                           *)
EXTENDS Integers, Sequences, FiniteSets

NB == 8          \* heap slots
NA == 2          \* arenas
None == <<-2>>
Start(cfg) == [heap |-> [k \in 1..NB |-> None], arena |-> [a \in 1..NA |-> <<>>]]

Open(n) == [i \in 1..n |-> -1]
Zeros(n) == [i \in 1..n |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
Ret(s, v) == { [s |-> s, r |-> <<v>>] }
SetHeap(s, k, b) == [s EXCEPT !.heap[k] = b]
(* overwrite b from offset o (0-based) with the bytes c *)
Over(b, o, c) == [i \in 1..Len(b) |-> IF i > o /\ i <= o + Len(c) THEN c[i - o] ELSE b[i]]
Part(b, o, n) == SubSeq(b, o + 1, o + n)
Fill(n, v) == [i \in 1..n |-> v]
Agree(seen, b) == Len(seen) = Len(b) /\ \A i \in 1..Len(b) : b[i] # -1 => b[i] = seen[i]
(* a read may show anything where the block is open, and then it is settled *)
Read(e, s, b, Put(_)) == IF Len(e.r) = 1 /\ Agree(e.r[1], b) THEN { [s |-> Put(e.r[1]), r |-> e.r] } ELSE { [s |-> s, r |-> <<b>>] }
Eq(x, y) == IF \E i \in 1..Len(x) : x[i] = -1 \/ y[i] = -1 THEN {0, 1} ELSE {IF x = y THEN 1 ELSE 0}

Post(e, s) ==
  LET a == e.a  k == a[1] + 1 IN
  CASE e.op = "alloc"   -> Ret(SetHeap(s, k, Open(a[2])), 1)
    [] e.op = "calloc"  -> Ret(SetHeap(s, k, Zeros(a[2] * a[3])), 1)
    [] e.op = "toobig"  -> Ret(s, 0)
    [] e.op = "realloc" -> LET b == s.heap[k] m == Min(Len(b), a[2]) IN Ret(SetHeap(s, k, SubSeq(b, 1, m) \o Open(a[2] - m)), 1)
    [] e.op = "free"    -> Ret(SetHeap(s, k, None), 1)
    [] e.op = "set"     -> Ret(SetHeap(s, k, Over(s.heap[k], a[2], Fill(a[4], ((a[3] % 256) + 256) % 256))), 1)
    [] e.op = "zero"    -> Ret(SetHeap(s, k, Over(s.heap[k], a[2], Zeros(a[3]))), 1)
    [] e.op = "put"     -> Ret(SetHeap(s, k, Over(s.heap[k], a[2], a[3])), 1)
    [] e.op = "copy"    -> (* dst slot, dst offset, src slot, src offset, n *)
         LET j == a[3] + 1  over == k = j /\ a[2] < a[4] + a[5] /\ a[4] < a[2] + a[5] IN
         IF over /\ a[5] > 0 THEN Ret(s, -1)
         ELSE IF a[5] = 0 THEN Ret(s, 0)
         ELSE Ret(SetHeap(s, k, Over(s.heap[k], a[2], Part(s.heap[j], a[4], a[5]))), 0)
    [] e.op = "move"    -> Ret(SetHeap(s, k, Over(s.heap[k], a[2], Part(s.heap[a[3] + 1], a[4], a[5]))), 1)
    [] e.op = "eq"      -> { [s |-> s, r |-> <<v>>] : v \in Eq(Part(s.heap[k], a[2], a[5]), Part(s.heap[a[3] + 1], a[4], a[5])) }
    [] e.op = "iszero"  -> { [s |-> s, r |-> <<v>>] : v \in Eq(Part(s.heap[k], a[2], a[3]), Zeros(a[3])) }
    [] e.op = "overlap" -> LET j == a[3] + 1 IN Ret(s, IF k = j /\ a[2] < a[4] + a[5] /\ a[4] < a[2] + a[5] THEN 1 ELSE 0)
    [] e.op = "read"    -> Read(e, s, s.heap[k], LAMBDA b : SetHeap(s, k, b))
    (* arenas: a[1] is the arena, blocks are numbered in order of allocation *)
    [] e.op = "aalloc"  -> Ret([s EXCEPT !.arena[k] = Append(@, Open(a[2]))], 1)
    [] e.op = "aput"    -> Ret([s EXCEPT !.arena[k][a[2] + 1] = Over(@, a[3], a[4])], 1)
    [] e.op = "afill"   -> Ret([s EXCEPT !.arena[k][a[2] + 1] = Fill(Len(@), a[3])], 1)
    [] e.op = "aread"   -> Read(e, s, s.arena[k][a[2] + 1], LAMBDA b : [s EXCEPT !.arena[k][a[2] + 1] = b])
    [] e.op = "asum"    -> (* every block of the arena still holds one single byte value: the list of them *)
                           Ret(s, [i \in 1..Len(s.arena[k]) |-> IF Len(s.arena[k][i]) = 0 THEN -1 ELSE s.arena[k][i][1]])
    [] e.op \in {"areset", "afree"} -> Ret([s EXCEPT !.arena[k] = <<>>], 1)

Enabled(e, s) == LET k == e.a[1] + 1 IN
  CASE e.op \in {"alloc", "calloc"} -> s.heap[k] = None
    [] e.op \in {"realloc", "free", "read"} -> s.heap[k] # None
    [] e.op = "put" -> s.heap[k] # None /\ e.a[2] + Len(e.a[3]) <= Len(s.heap[k])
    [] e.op = "set" -> s.heap[k] # None /\ e.a[2] + e.a[4] <= Len(s.heap[k])
    [] e.op \in {"zero", "iszero"} -> s.heap[k] # None /\ e.a[2] + e.a[3] <= Len(s.heap[k])
    [] e.op \in {"copy", "move", "eq", "overlap"} -> s.heap[k] # None /\ s.heap[e.a[3] + 1] # None
                    /\ e.a[2] + e.a[5] <= Len(s.heap[k]) /\ e.a[4] + e.a[5] <= Len(s.heap[e.a[3] + 1])
    [] OTHER -> TRUE
Inv(s) == \A k \in 1..NB : s.heap[k] = None \/ \A i \in 1..Len(s.heap[k]) : s.heap[k][i] \in -1..255
(* a small universe for the exhaustive exploration of short histories *)
Op(o, a) == [op |-> o, a |-> a, r |-> <<>>]
SmallOps == { Op("alloc", <<0, 3>>), Op("calloc", <<1, 2, 2>>), Op("put", <<0, 0, <<7, 8, 9>>>>), Op("realloc", <<0, 5>>), Op("realloc", <<0, 1>>),
              Op("copy", <<1, 0, 0, 0, 2>>), Op("move", <<0, 1, 0, 0, 2>>), Op("free", <<0>>), Op("read", <<0>>), Op("read", <<1>>), Op("eq", <<0, 0, 1, 1, 2>>), Op("set", <<1, 1, 255, 2>>) }
=============================================================================
