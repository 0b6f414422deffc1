------------------------------ MODULE Machine ------------------------------
(* An abstract machine for CSpydr programs.                                 *)
(*                                                                          *)
(* A program is a table of syntax nodes.  The state of a run is             *)
(*   ctl  control stack: what is still to be executed                       *)
(*   vs   stack of intermediate values                                      *)
(*   fr   stack of activation records [f, b]: function, base address        *)
(*   mem  byte-addressed memory: the globals, then the live activation      *)
(*        records                                                           *)
(*   pos  how many bytes of output the program has produced                 *)
(*   st   "run", then the verdict                                           *)
(*                                                                          *)
(* The machine does not print: its output must agree, byte by byte, with    *)
(* the output recorded from the real program (Prog.out), and when it halts  *)
(* the whole recording must be used up and the exit statuses must agree.    *)
(* One behaviour per recorded program; a real program that deviates from    *)
(* what the language promises makes its behaviour end in a "bad" state.     *)
EXTENDS Words, Floats, TLC, TLCExt, Json, IOUtils, SequencesExt

Progs == JsonDeserialize(IOEnv.CSP_PROGS)
NP == Len(Progs)

VARIABLES pid, ctl, vs, fr, mem, pos, st
vars == <<pid, ctl, vs, fr, mem, pos, st>>

-----------------------------------------------------------------------------
(* Types and storage.  Storage is laid out without padding: a correct       *)
(* program cannot observe the difference.                                   *)

Aggregate == {"st", "un", "carr", "arr"}

RECURSIVE SumSz(_, _, _)
SumSz(szs, fs, n) == IF n = 0 THEN 0 ELSE szs[fs[n].t] + SumSz(szs, fs, n-1)
RECURSIVE MaxSz(_, _, _)
MaxSz(szs, fs, n) == IF n = 0 THEN 0
                     ELSE LET r == MaxSz(szs, fs, n-1) IN IF szs[fs[n].t] > r THEN szs[fs[n].t] ELSE r

OneSize(szs, t) ==
  CASE t.k = "void" -> 0
    [] t.k = "vla"  -> 8
    [] t.k = "f80"  -> 16
    [] t.k = "dyn"  -> 16
    [] t.k = "carr" -> t.n * szs[t.of]
    [] t.k = "arr"  -> 8 + t.n * szs[t.of]
    [] t.k = "st"   -> SumSz(szs, t.f, Len(t.f))
    [] t.k = "un"   -> MaxSz(szs, t.f, Len(t.f))
    [] OTHER        -> ScalarSize(t.k)

\* sizes of all types of program p (components come before composites)
Sizes == [p \in 1..NP |-> FoldLeft(LAMBDA acc, t : Append(acc, OneSize(acc, t)), <<>>, Progs[p].types)]

SizeT(p, t) == Sizes[p][t]
Kind(p, t) == Progs[p].types[t].k
FieldOff(p, t, m) == IF Kind(p, t) = "un" THEN 0 ELSE SumSz(Sizes[p], Progs[p].types[t].f, m-1)

\* offsets of a list of variables in their area
Offsets(p, vl) == FoldLeft(LAMBDA acc, v : [o |-> Append(acc.o, acc.n), n |-> acc.n + SizeT(p, Progs[p].vars[v].t)],
                           [o |-> <<>>, n |-> 0], vl)
GlobArea == [p \in 1..NP |-> Offsets(p, Progs[p].globs)]
FunArea == [p \in 1..NP |-> [f \in 1..Len(Progs[p].funs) |-> Offsets(p, Progs[p].funs[f].vars)]]

Base0 == 4096            \* address of the first byte of memory
FnBase == 16777216       \* "address" of function 0

N(p, i) == Progs[p].nodes[i]

RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN <<>> ELSE [i \in 1..n |-> 0]

VarAddr(p, b, v) == LET x == Progs[p].vars[v]
                    IN IF x.f = 0 THEN Base0 + GlobArea[p].o[x.i] ELSE b + FunArea[p][x.f].o[x.i]

Bytes(m, a, n) == SubSeq(m, a - Base0 + 1, a - Base0 + n)
Poke(m, a, bs) == LET i == a - Base0 IN SubSeq(m, 1, i) \o bs \o SubSeq(m, i + Len(bs) + 1, Len(m))
InMem(m, a, n) == a >= Base0 /\ a + n <= Base0 + Len(m)

\* a value of type t is a word if t is a scalar type and else a byte string
LoadV(p, m, a, t) ==
  LET k == Kind(p, t)  bs == Bytes(m, a, SizeT(p, t))
  IN IF k \in Aggregate \cup {"dyn"} THEN bs
     ELSE IF k = "vla" THEN bs
     ELSE Norm(k, bs \o << 0,0,0,0,0,0,0,0 >>)
StoreB(p, t, v) == SubSeq(v, 1, SizeT(p, t))
HeaderInit(p, t, bs) == IF Kind(p, t) = "arr" THEN Nat2W(Progs[p].types[t].n) \o SubSeq(bs, 9, Len(bs)) ELSE bs

-----------------------------------------------------------------------------
(* Conversions and operators *)

FloatK == {"f32", "f64"}
IntK == {"i8","i16","i32","i64","u8","u16","u32","u64","bool","char","enum"}

Conv(fk, tk, w) ==
  IF fk = tk THEN w
  ELSE IF fk \in FloatK /\ tk \in FloatK THEN FConv(fk, tk, w)
  ELSE IF tk \in FloatK THEN I2F(tk, fk \in SignedT, Norm(fk, w))
  ELSE IF fk \in FloatK THEN (IF tk = "bool" THEN (IF FIsZero(fk, w) THEN W0 ELSE W1) ELSE Norm(tk, F2I(fk, w)))
  ELSE IF tk = "bool" THEN (IF w = W0 THEN W0 ELSE W1)
  ELSE IF tk = "vla" \/ fk = "vla" THEN w
  ELSE Norm(tk, IF ScalarSize(tk) > ScalarSize(fk) THEN Norm(fk, w) ELSE w)

Bool(b) == IF b THEN W1 ELSE W0

\* both operands already have the operation's type
Arith(op, k, a, b) ==
  IF k \in FloatK THEN
     CASE op = "+" -> FAdd(k, a, b) [] op = "-" -> FSub(k, a, b) [] op = "*" -> FMul(k, a, b) [] op = "/" -> FDiv(k, a, b)
  ELSE Reg(k,
     CASE op = "+" -> WAdd(a, b)
       [] op = "-" -> WSub(a, b)
       [] op = "*" -> WMul(a, b)
       [] op = "/" -> IF k \in SignedT \/ ScalarSize(k) < 4 THEN WDivS(a, b) ELSE WDivU(a, b)
       [] op = "%" -> IF k \in SignedT \/ ScalarSize(k) < 4 THEN WModS(a, b) ELSE WModU(a, b)
       [] op = "&" -> WAnd(a, b)
       [] op = "|" -> WOr(a, b)
       [] op = "^" -> WXor(a, b))

\* the shift count is a small number; the type is that of the left operand
Shift(op, k, a, n) ==
  IF op = "<<" THEN Reg(k, WShl(a, n))
  ELSE Reg(k, IF k \in SignedT \/ ScalarSize(k) < 4 THEN WShrS(a, n) ELSE WShrU(a, n))

Rel(op, k, a, b) ==
  IF k \in FloatK THEN Bool(FRel(op, k, a, b))
  ELSE LET lt(x, y) == IF k \in SignedT THEN WLtS(x, y) ELSE WLtU(x, y)
       IN Bool(CASE op = "==" -> a = b [] op = "!=" -> a # b
                 [] op = "<" -> lt(a, b) [] op = ">" -> lt(b, a)
                 [] op = "<=" -> ~lt(b, a) [] op = ">=" -> ~lt(a, b))

ArithOps == {"+", "-", "*", "/"}
BitOps == {"%", "&", "|", "^"}
ShiftOps == {"<<", ">>"}
RelOps == {"==", "!=", "<", ">", "<=", ">="}

IsPtrK(k) == k = "ptr"
\* n * size for pointer arithmetic
Scaled(w, n) == WMul(w, Nat2W(n))

BinV(p, n, a, b) ==
  LET lt == N(p, n.l).t  rt == N(p, n.r).t
      lk == Kind(p, lt)  rk == Kind(p, rt)  tk == Kind(p, n.t)
  IN IF n.op \in ShiftOps THEN Shift(n.op, tk, Conv(lk, tk, a), W2Nat(b))
     ELSE IF n.op \in RelOps THEN
        (LET ck == IF lk \in FloatK \/ rk \in FloatK THEN (IF lk = "f64" \/ rk = "f64" THEN "f64" ELSE "f32") ELSE lk
         IN IF ck \in FloatK THEN Rel(n.op, ck, Conv(lk, ck, a), Conv(rk, ck, b)) ELSE Rel(n.op, ck, a, b))
     ELSE IF IsPtrK(lk) /\ rk # "ptr" THEN
        (LET es == SizeT(p, Progs[p].types[lt].of)  d == Scaled(Norm(rk, b), es)
         IN IF n.op = "+" THEN WAdd(a, d) ELSE WSub(a, d))
     ELSE Arith(n.op, tk, Conv(lk, tk, a), Conv(rk, tk, b))

UnV(p, n, a) ==
  LET k == Kind(p, N(p, n.l).t)
  IN CASE n.k = "neg"  -> IF k \in FloatK THEN FNeg(k, a) ELSE Reg(k, WNeg(a))
       [] n.k = "bnot" -> Reg(k, WNot(a))
       [] n.k = "not"  -> Bool(IF k \in FloatK THEN FIsZero(k, a) ELSE a = W0)

Truth(p, t, w) == LET k == Kind(p, t) IN IF k \in FloatK THEN ~FIsZero(k, w) ELSE w # W0

PtrW(a) == Nat2W(a)
Addr(w) == IF SmallW(w) THEN W2Nat(w) ELSE -1

RECURSIVE CStrLen(_, _)
CStrLen(m, a) == IF Bytes(m, a, 1)[1] = 0 THEN 0 ELSE 1 + CStrLen(m, a+1)

-----------------------------------------------------------------------------
(* Effect-free expressions are evaluated in one step. *)

RECURSIVE Ev(_, _, _, _)
RECURSIVE Lv(_, _, _, _)

\* element address for an indexing node given the container's address/value and the index
IdxAddr(p, m, lt, ca, iw, back) ==
  LET ty == Progs[p].types[lt]  es == SizeT(p, ty.of)
      hdr == IF ty.k \in {"arr", "vla"} THEN 8 ELSE 0
      len == IF ty.k = "carr" THEN ty.n ELSE W2Nat(Bytes(m, ca, 8))
      i == IF back THEN len - W2Nat(iw) ELSE W2Nat(iw)
  IN IF back \/ SmallW(iw) THEN ca + hdr + i * es
     ELSE ca - hdr - W2Nat(WNeg(iw)) * es

ByValue(p, t) == Kind(p, t) \in {"ptr", "vla"}

Lv(p, b, m, id) ==
  LET n == N(p, id) IN
  CASE n.k = "var"   -> VarAddr(p, b, n.v)
    [] n.k = "deref" -> Addr(Ev(p, b, m, n.l))
    [] n.k = "idx"   -> LET lt == N(p, n.l).t
                            ca == IF ByValue(p, lt) THEN Addr(Ev(p, b, m, n.l)) ELSE Lv(p, b, m, n.l)
                        IN IdxAddr(p, m, lt, ca, Norm(Kind(p, N(p, n.r).t), Ev(p, b, m, n.r)), n.bk)
    [] n.k = "mem"   -> Lv(p, b, m, n.l) + FieldOff(p, N(p, n.l).t, n.m)

Cat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

\* bytes of an aggregate literal from the values of its parts
LitBytes(p, t, parts) ==
  LET ty == Progs[p].types[t]
      et(i) == IF ty.k \in {"arr", "carr"} THEN ty.of ELSE ty.f[i].t
      body == Cat([i \in 1..Len(parts) |-> StoreB(p, et(i), parts[i])])
      all == body \o Zeros(SizeT(p, t) - Len(body) - (IF ty.k = "arr" THEN 8 ELSE 0))
  IN IF ty.k = "arr" THEN Nat2W(ty.n) \o all ELSE all
LitElemT(p, t, i) == LET ty == Progs[p].types[t] IN IF ty.k \in {"arr", "carr"} THEN ty.of ELSE ty.f[i].t

ConvT(p, ft, tt, v) ==
  LET fk == Kind(p, ft) tk == Kind(p, tt)
  IN IF ft = tt /\ fk \notin (IntK \cup FloatK) THEN v
     ELSE IF fk \in Aggregate \/ tk \in Aggregate THEN v
     ELSE IF fk = "dyn" \/ tk = "dyn" THEN v
     ELSE Conv(fk, tk, v)

\* a value with an interface is a pointer and the list of functions of its type
DynV(p, n, v) == CASE n.k = "dyn"   -> v \o Nat2W(n.vt)
                   [] n.k = "undyn" -> SubSeq(v, 1, 8)
                   [] n.k = "meth"  -> Nat2W(FnBase + Progs[p].impls[W2Nat(SubSeq(v, 9, 16))][n.i])

Ev(p, b, m, id) ==
  LET n == N(p, id) IN
  CASE n.k = "lit"  -> n.b
    [] n.k = "flit" -> FDec(Kind(p, n.t), n.m, n.d)
    [] n.k = "var"  -> LoadV(p, m, VarAddr(p, b, n.v), n.t)
    [] n.k \in {"deref", "idx"} -> LoadV(p, m, Lv(p, b, m, id), n.t)
    [] n.k = "mem"  -> IF n.lv THEN LoadV(p, m, Lv(p, b, m, id), n.t)
                       ELSE LET v == Ev(p, b, m, n.l)
                                o == FieldOff(p, N(p, n.l).t, n.m)
                            IN LoadV(p, v, Base0 + o, n.t)
    [] n.k = "bin"  -> BinV(p, n, Ev(p, b, m, n.l), Ev(p, b, m, n.r))
    [] n.k = "and"  -> IF Truth(p, N(p, n.l).t, Ev(p, b, m, n.l)) THEN Bool(Truth(p, N(p, n.r).t, Ev(p, b, m, n.r))) ELSE W0
    [] n.k = "or"   -> IF Truth(p, N(p, n.l).t, Ev(p, b, m, n.l)) THEN W1 ELSE Bool(Truth(p, N(p, n.r).t, Ev(p, b, m, n.r)))
    [] n.k \in {"neg", "bnot", "not"} -> UnV(p, n, Ev(p, b, m, n.l))
    [] n.k = "cast" -> ConvT(p, N(p, n.l).t, n.t, Ev(p, b, m, n.l))
    [] n.k = "tern" -> ConvT(p, N(p, IF Truth(p, N(p, n.c).t, Ev(p, b, m, n.c)) THEN n.l ELSE n.r).t, n.t,
                         Ev(p, b, m, IF Truth(p, N(p, n.c).t, Ev(p, b, m, n.c)) THEN n.l ELSE n.r))
    [] n.k = "els"  -> LET v == Ev(p, b, m, n.l) IN IF Truth(p, N(p, n.l).t, v) THEN v ELSE Ev(p, b, m, n.r)
    [] n.k = "ref"  -> PtrW(Lv(p, b, m, n.l))
    [] n.k = "fn"   -> Nat2W(FnBase + n.f)
    [] n.k \in {"dyn", "undyn", "meth"} -> DynV(p, n, Ev(p, b, m, n.l))
    [] n.k = "lits" -> LitBytes(p, n.t, [i \in 1..Len(n.as) |->
                          ConvT(p, N(p, n.as[i]).t, LitElemT(p, n.t, i), Ev(p, b, m, n.as[i]))])
    [] n.k = "clos" -> Ev(p, b, m, n.as[Len(n.as)])
    [] n.k = "len"  -> LET lt == N(p, n.l).t  k == Kind(p, lt) IN
                      (CASE k = "carr" -> Nat2W(Progs[p].types[lt].n)
                         [] k = "arr"  -> Bytes(m, Lv(p, b, m, n.l), 8)
                         [] k = "vla"  -> Bytes(m, Addr(Ev(p, b, m, n.l)), 8)
                         [] k = "ptr"  -> Nat2W(CStrLen(m, Addr(Ev(p, b, m, n.l)))))
    [] n.k = "szof" -> Nat2W(SizeT(p, n.ty))
    [] OTHER -> Assert(FALSE, <<"Ev: unknown node", p, id, n>>)

-----------------------------------------------------------------------------
(* The step relation *)

Top == Head(ctl)
Rest == Tail(ctl)
Cur == fr[Len(fr)]
It(k, i) == <<k, i, 0>>
Push(v) == Append(vs, v)
V(i) == vs[Len(vs) - i]         \* V(0) is the most recent value
Drop(n) == SubSeq(vs, 1, Len(vs) - n)

EvC(id) == Ev(pid, Cur.b, mem, id)
NodeT(id) == N(pid, id).t

Do(c, v) == /\ ctl' = c /\ vs' = v /\ UNCHANGED <<pid, fr, mem, pos, st>>
DoM(c, v, m) == /\ ctl' = c /\ vs' = v /\ mem' = m /\ UNCHANGED <<pid, fr, pos, st>>
Bad(why) == /\ st' = why /\ UNCHANGED <<pid, ctl, vs, fr, mem, pos>>

Eff(id) == N(pid, id).eff
E(id) == It("E", id)

\* the items that evaluate a list of expressions; left-to-right or right-to-left
Items(as) == [i \in 1..Len(as) |-> E(as[i])]
RevItems(as) == [i \in 1..Len(as) |-> E(as[Len(as)+1-i])]
\* The order in which operands are evaluated is not promised: where it can
\* matter (an operand with effects next to one that is not a constant) both
\* orders are behaviours.
Constant == {"lit", "flit", "fn", "szof"}
Seen(id) == Eff(id) /\ ~N(pid, id).pu     \* its evaluation has effects that others can see
Orders(as) == IF \E i, j \in 1..Len(as) : i # j /\ Seen(as[i]) /\ N(pid, as[j]).k \notin Constant THEN {0, 1} ELSE {0}
\* ... for an assignment, whose target is not read
LvOrders(r, l) == IF (Seen(r) /\ N(pid, l).k # "var") \/ Seen(l) THEN {0, 1} ELSE {0}
Args(as, o) == IF o = 0 THEN Items(as) ELSE RevItems(as)
\* argument i of n values on the stack evaluated in order o
ArgV(n, i, o) == IF o = 0 THEN V(n - i) ELSE V(i - 1)

\* --- expressions ---------------------------------------------------------
EvalPure == /\ Top[1] = "E" /\ ~Eff(Top[2])
            /\ Do(Rest, Push(EvC(Top[2])))

\* lvalues with effects inside: push the address
EvalLv == /\ Top[1] = "L"
          /\ LET id == Top[2]  n == N(pid, id) IN
             IF ~n.eff THEN Do(Rest, Push(PtrW(Lv(pid, Cur.b, mem, id))))
             ELSE CASE n.k = "deref" -> Do(<<E(n.l)>> \o Rest, vs)
                    [] n.k = "mem"   -> Do(<<It("L", n.l), It("KM", id)>> \o Rest, vs)
                    [] n.k = "idx"   -> Do(<<It(IF ByValue(pid, NodeT(n.l)) THEN "E" ELSE "L", n.l), E(n.r), It("KX", id)>> \o Rest, vs)
                    [] OTHER -> Do(<<E(id), It("KT", id)>> \o Rest, vs)

KontLv == \/ /\ Top[1] = "KM"
             /\ LET n == N(pid, Top[2]) IN
                Do(Rest, Append(Drop(1), PtrW(Addr(V(0)) + FieldOff(pid, NodeT(n.l), n.m))))
          \/ /\ Top[1] = "KX"
             /\ LET n == N(pid, Top[2]) IN
                Do(Rest, Append(Drop(2), PtrW(IdxAddr(pid, mem, NodeT(n.l), Addr(V(1)), Norm(Kind(pid, NodeT(n.r)), V(0)), n.bk))))
          \/ /\ Top[1] = "KV"      \* push what is stored at the address on the stack
             /\ Do(Rest, Push(LoadV(pid, mem, Addr(V(0)), NodeT(Top[2]))))
          \/ /\ Top[1] = "KL"      \* load through the address on the stack
             /\ Do(Rest, Append(Drop(1), LoadV(pid, mem, Addr(V(0)), NodeT(Top[2]))))

EvalEff ==
  /\ Top[1] = "E" /\ Eff(Top[2])
  /\ LET id == Top[2]  n == N(pid, id) IN
     CASE n.k = "bin" -> \E o \in Orders(<<n.l, n.r>>) : Do(Args(<<n.l, n.r>>, o) \o <<<<"K", id, o>>>> \o Rest, vs)
       [] n.k \in {"and", "or", "els"} -> Do(<<E(n.l), It("K", id)>> \o Rest, vs)
       [] n.k = "tern" -> Do(<<E(n.c), It("K", id)>> \o Rest, vs)
       [] n.k \in {"neg", "bnot", "not", "cast", "dyn", "undyn", "meth"} -> Do(<<E(n.l), It("K", id)>> \o Rest, vs)
       [] n.k = "asg"  -> \E o \in LvOrders(n.r, n.l) :
             Do((IF o = 0 THEN <<E(n.r), It("L", n.l)>> ELSE <<It("L", n.l), E(n.r)>>) \o <<<<"K", id, o>>>> \o Rest, vs)
       [] n.k = "opasg" -> \E o \in (IF Orders(<<n.r, n.l>>) = {0} THEN {0} ELSE {0, 1, 2}) :
             Do((CASE o = 0 -> <<E(n.r), It("L", n.l)>>
                   [] o = 1 -> <<It("L", n.l), It("KV", n.l), E(n.r)>>
                   [] o = 2 -> <<It("L", n.l), E(n.r)>>) \o <<<<"K", id, o>>>> \o Rest, vs)
       [] n.k \in {"inc", "dec"} -> Do(<<It("L", n.l), It("K", id)>> \o Rest, vs)
       [] n.k \in {"call", "mcall"} -> \E o \in Orders(n.as) : Do(Args(n.as, o) \o <<<<"K", id, o>>>> \o Rest, vs)
       [] n.k = "callp" -> \E o \in Orders(n.as) : Do(<<E(n.l)>> \o Args(n.as, o) \o <<<<"K", id, o>>>> \o Rest, vs)
       [] n.k = "lits" -> \E o \in Orders(n.as) : Do(Args(n.as, o) \o <<<<"K", id, o>>>> \o Rest, vs)
       [] n.k = "clos" -> Do(Cat([i \in 1..Len(n.as) |-> IF i < Len(n.as) THEN <<E(n.as[i]), It("POP", 0)>> ELSE <<E(n.as[i])>>]) \o Rest, vs)
       [] n.k \in {"deref", "idx"} -> Do(<<It("L", id), It("KL", id)>> \o Rest, vs)
       [] n.k = "mem" -> IF n.lv THEN Do(<<It("L", id), It("KL", id)>> \o Rest, vs)
                         ELSE Do(<<E(n.l), It("K", id)>> \o Rest, vs)
       [] n.k = "ref" -> Do(<<It("L", n.l)>> \o Rest, vs)
       [] n.k = "pipe" -> Do(<<E(n.l), It("K", id)>> \o Rest, vs)

\* entering a function: a fresh zeroed activation record holding the arguments
Enter(f, argv, rest, base) ==
  LET F == Progs[pid].funs[f]
      nb == Base0 + Len(mem)
      ar == FunArea[pid][f]
      fresh == FoldLeft(LAMBDA acc, i : Poke(acc, Base0 + ar.o[i], StoreB(pid, Progs[pid].vars[F.vars[i]].t, argv[i])),
                        Zeros(ar.n), [i \in 1..F.np |-> i])
  IN /\ ctl' = <<It("S", F.body), <<"R", f, Len(base)>>>> \o rest
     /\ vs' = base
     /\ fr' = Append(fr, [f |-> f, b |-> nb])
     /\ mem' = mem \o fresh
     /\ UNCHANGED <<pid, pos, st>>

ParamT(f, i) == Progs[pid].vars[Progs[pid].funs[f].vars[i]].t
CallArgs(n, f, o) == [i \in 1..Len(n.as) |-> ConvT(pid, NodeT(n.as[i]), ParamT(f, i), ArgV(Len(n.as), i, o))]

Kont ==
  /\ Top[1] = "K"
  /\ LET id == Top[2]  o == Top[3]  n == N(pid, id) IN
     CASE n.k = "bin" -> Do(Rest, Append(Drop(2), BinV(pid, n, ArgV(2, 1, o), ArgV(2, 2, o))))
       [] n.k = "and" -> IF Truth(pid, NodeT(n.l), V(0)) THEN Do(<<E(n.r), It("KB", n.r)>> \o Rest, Drop(1))
                         ELSE Do(Rest, Append(Drop(1), W0))
       [] n.k = "or"  -> IF Truth(pid, NodeT(n.l), V(0)) THEN Do(Rest, Append(Drop(1), W1))
                         ELSE Do(<<E(n.r), It("KB", n.r)>> \o Rest, Drop(1))
       [] n.k = "els" -> IF Truth(pid, NodeT(n.l), V(0)) THEN Do(Rest, vs) ELSE Do(<<E(n.r)>> \o Rest, Drop(1))
       [] n.k = "tern" -> LET c == IF Truth(pid, NodeT(n.c), V(0)) THEN n.l ELSE n.r
                          IN Do(<<E(c), <<"KC", c, n.t>>>> \o Rest, Drop(1))
       [] n.k \in {"neg", "bnot", "not"} -> Do(Rest, Append(Drop(1), UnV(pid, n, V(0))))
       [] n.k \in {"dyn", "undyn", "meth"} -> Do(Rest, Append(Drop(1), DynV(pid, n, V(0))))
       [] n.k = "cast" -> Do(Rest, Append(Drop(1), ConvT(pid, NodeT(n.l), n.t, V(0))))
       [] n.k = "asg" -> LET v == ConvT(pid, NodeT(n.r), NodeT(n.l), ArgV(2, 1, o))
                         IN DoM(Rest, Append(Drop(2), v), Poke(mem, Addr(ArgV(2, 2, o)), StoreB(pid, NodeT(n.l), v)))
       [] n.k = "opasg" -> LET adr == CASE o = 0 -> Addr(V(0)) [] o = 1 -> Addr(V(2)) [] o = 2 -> Addr(V(1))
                               w == CASE o = 0 -> BinV(pid, n, LoadV(pid, mem, adr, NodeT(n.l)), V(1))
                                      [] o = 1 -> BinV(pid, n, V(1), V(0))
                                      [] o = 2 -> BinV(pid, n, LoadV(pid, mem, adr, NodeT(n.l)), V(0))
                               v == ConvT(pid, n.t, NodeT(n.l), w)
                           IN DoM(Rest, Append(Drop(IF o = 1 THEN 3 ELSE 2), v), Poke(mem, adr, StoreB(pid, NodeT(n.l), v)))
       [] n.k \in {"inc", "dec"} ->
            LET a == Addr(V(0))  t == NodeT(n.l)  k == Kind(pid, t)
                w == LoadV(pid, mem, a, t)
                d == IF k = "ptr" THEN Nat2W(SizeT(pid, Progs[pid].types[t].of)) ELSE W1
                x == IF k \in FloatK THEN Arith(IF n.k = "inc" THEN "+" ELSE "-", k, w, I2F(k, TRUE, W1))
                     ELSE Norm(k, IF n.k = "inc" THEN WAdd(w, d) ELSE WSub(w, d))
            IN DoM(Rest, Append(Drop(1), w), Poke(mem, a, StoreB(pid, t, x)))
       [] n.k = "call" -> Enter(n.f, CallArgs(n, n.f, o), Rest, Drop(Len(n.as)))
       [] n.k = "callp" -> LET f == W2Nat(V(Len(n.as))) - FnBase
                           IN Enter(f, CallArgs(n, f, o), Rest, Drop(Len(n.as) + 1))
       [] n.k = "mcall" -> LET d == ArgV(Len(n.as), 1, o)     \* the value decides the function
                               f == Progs[pid].impls[W2Nat(SubSeq(d, 9, 16))][n.i]
                           IN Enter(f, [CallArgs(n, f, o) EXCEPT ![1] = SubSeq(d, 1, 8)], Rest, Drop(Len(n.as)))
       [] n.k = "lits" -> Do(Rest, Append(Drop(Len(n.as)), LitBytes(pid, n.t, [i \in 1..Len(n.as) |->
                             ConvT(pid, NodeT(n.as[i]), LitElemT(pid, n.t, i), ArgV(Len(n.as), i, o))])))
       [] n.k = "mem" -> Do(Rest, Append(Drop(1), LoadV(pid, V(0), Base0 + FieldOff(pid, NodeT(n.l), n.m), n.t)))
       [] n.k = "pipe" -> DoM(<<E(n.r)>> \o Rest, Drop(1),
                              Poke(mem, VarAddr(pid, Cur.b, n.v), StoreB(pid, NodeT(n.l), V(0))))

KontMisc ==
  \/ /\ Top[1] = "KB" /\ Do(Rest, Append(Drop(1), Bool(Truth(pid, NodeT(Top[2]), V(0)))))
  \/ /\ Top[1] = "KC" /\ Do(Rest, Append(Drop(1), ConvT(pid, NodeT(Top[2]), Top[3], V(0))))
  \/ /\ Top[1] = "POP" /\ Do(Rest, Drop(1))

\* --- statements ----------------------------------------------------------
ZeroVars(vl) == FoldLeft(LAMBDA acc, v : LET t == Progs[pid].vars[v].t
                                         IN Poke(acc, VarAddr(pid, Cur.b, v), HeaderInit(pid, t, Zeros(SizeT(pid, t)))),
                         mem, vl)
S(id) == It("S", id)
SItems(ss) == [i \in 1..Len(ss) |-> S(ss[i])]
\* loop marker: where break and continue go, and the value-stack depth there
Mark(k, id) == <<k, id, Len(vs)>>

Stmt ==
  /\ Top[1] = "S"
  /\ LET id == Top[2]  n == N(pid, id) IN
     CASE n.k = "expr"  -> Do(<<E(n.e), It("POP", 0)>> \o Rest, vs)
       [] n.k = "let"   -> Do(<<E(n.e), It("ST", id)>> \o Rest, vs)
       [] n.k = "block" -> DoM(SItems(n.ss) \o Rest, vs, ZeroVars(n.ls))
       [] n.k = "noop"  -> Do(Rest, vs)
       [] n.k = "if"    -> Do(<<E(n.c), It("IF", id)>> \o Rest, vs)
       [] n.k \in {"while", "for", "loop"} ->
            Do((IF n.k = "for" /\ n.i > 0 THEN <<S(n.i)>> ELSE <<>>) \o <<It("TEST", id), Mark("BRK", id)>> \o Rest, vs)
       [] n.k = "dowhile" -> Do(<<S(n.b), Mark("CNT", id), It("TEST", id), Mark("BRK", id)>> \o Rest, vs)
       [] n.k = "dounless" -> Do(<<E(n.c), It("UNL", id)>> \o Rest, vs)
       [] n.k = "forr"  -> Do(<<E(n.l), E(n.r), It("FR", id)>> \o Rest, vs)
       [] n.k = "match" -> Do(<<E(n.c), <<"MT", id, 1>>>> \o Rest, vs)
       [] n.k = "ret"   -> IF n.e = 0 THEN Do(<<It("RET", 0)>> \o Rest, Push(W0))
                           ELSE Do(<<E(n.e), It("RET", n.e)>> \o Rest, vs)
       [] n.k \in {"break", "continue"} -> Do(<<It(n.k, 0)>> \o Rest, vs)
       [] n.k = "defer" -> Do(Rest, vs)         \* run when the function is left
       [] n.k = "with"  -> Do(<<E(n.e), It("ST", id), E(n.x), It("WI", id)>> \o Rest, vs)
       [] n.k = "emit"  -> Do(<<It("L", n.e), It("OUT", id)>> \o Rest, vs)
       [] n.k = "emitp" -> Do(<<E(n.e), It("OUT", id)>> \o Rest, vs)
       [] n.k = "exit"  -> Do(<<E(n.e), It("EXIT", id)>> \o Rest, vs)

StmtKont ==
  \/ /\ Top[1] = "ST"    \* initialise variable n.v
     /\ LET n == N(pid, Top[2])  t == Progs[pid].vars[n.v].t
        IN DoM(Rest, Drop(1), Poke(mem, VarAddr(pid, Cur.b, n.v), StoreB(pid, t, ConvT(pid, NodeT(n.e), t, V(0)))))
  \/ /\ Top[1] = "IF"
     /\ LET n == N(pid, Top[2]) IN
        IF Truth(pid, NodeT(n.c), V(0)) THEN Do(<<S(n.a)>> \o Rest, Drop(1))
        ELSE Do((IF n.b > 0 THEN <<S(n.b)>> ELSE <<>>) \o Rest, Drop(1))
  \/ /\ Top[1] = "UNL"
     /\ LET n == N(pid, Top[2]) IN
        Do((IF Truth(pid, NodeT(n.c), V(0)) THEN <<>> ELSE <<S(n.b)>>) \o Rest, Drop(1))
  \/ /\ Top[1] = "WI"
     /\ LET n == N(pid, Top[2]) IN
        IF Truth(pid, NodeT(n.x), V(0)) THEN Do(<<S(n.b), S(n.d)>> \o Rest, Drop(1))
        ELSE Do((IF n.el > 0 THEN <<S(n.el)>> ELSE <<>>) \o Rest, Drop(1))
  \/ /\ Top[1] = "TEST"
     /\ LET n == N(pid, Top[2]) IN
        IF n.k = "loop" \/ (n.k = "for" /\ n.c = 0)
        THEN Do(<<S(n.b), Mark("CNT", Top[2])>> \o (IF n.k = "for" /\ n.s > 0 THEN <<E(n.s), It("POP", 0)>> ELSE <<>>) \o ctl, vs)
        ELSE Do(<<E(n.c), It("AGAIN", Top[2])>> \o ctl, vs)
  \/ /\ Top[1] = "AGAIN"   \* next on ctl: TEST, BRK
     /\ LET n == N(pid, Top[2]) IN
        IF Truth(pid, NodeT(n.c), V(0))
        THEN Do(<<S(n.b), <<"CNT", Top[2], Len(vs)-1>>>> \o (IF n.k = "for" /\ n.s > 0 THEN <<E(n.s), It("POP", 0)>> ELSE <<>>) \o Rest, Drop(1))
        ELSE Do(Tail(Tail(Rest)), Drop(1))
  \/ /\ Top[1] \in {"CNT", "BRK"} /\ Do(Rest, vs)
  \/ /\ Top[1] = "FR"      \* V(1)..V(0): run the body once per number in [V(1), V(0))
     /\ LET n == N(pid, Top[2]) IN
        IF WLtS(V(1), V(0))
        THEN Do(<<S(n.b), <<"CNT", Top[2], Len(vs)>>, It("FN", 0)>> \o ctl, vs)
        ELSE Do(Rest, Drop(2))
  \/ /\ Top[1] = "FN" /\ Do(Rest, SubSeq(vs, 1, Len(vs)-2) \o <<WAdd(V(1), W1), V(0)>>)
  \/ /\ Top[1] = "MT"      \* try case Top[3]
     /\ LET n == N(pid, Top[2])  i == Top[3] IN
        IF i > Len(n.cs)
        THEN Do((IF n.d > 0 THEN <<S(n.d), <<"BRK", Top[2], Len(vs)-1>>>> ELSE <<>>) \o Rest, Drop(1))
        ELSE LET c == n.cs[i]  ck == Kind(pid, NodeT(n.c))
             IN IF Rel(c.op, ck, V(0), EvC(c.v)) = W1
                THEN Do(<<S(c.b), <<"BRK", Top[2], Len(vs)-1>>>> \o Rest, Drop(1))
                ELSE Do(<<<<"MT", Top[2], i+1>>>> \o Rest, vs)

\* position in ctl of the nearest marker of one of the kinds ks
RECURSIVE FindMark(_, _)
FindMark(ks, i) == IF ctl[i][1] \in ks THEN i ELSE FindMark(ks, i+1)

Jump ==
  \/ /\ Top[1] = "break"
     /\ LET i == FindMark({"BRK", "FR"}, 1)  m == ctl[i]
        IN IF m[1] = "FR" THEN Do(SubSeq(ctl, i+1, Len(ctl)), SubSeq(vs, 1, ctl[FindMark({"CNT"}, 1)][3] - 2))
           ELSE Do(SubSeq(ctl, i+1, Len(ctl)), SubSeq(vs, 1, m[3]))
  \/ /\ Top[1] = "continue"
     /\ LET i == FindMark({"CNT"}, 1) IN Do(SubSeq(ctl, i, Len(ctl)), SubSeq(vs, 1, ctl[i][3]))
  \/ /\ Top[1] = "RET"
     /\ LET i == FindMark({"R"}, 1)  F == Progs[pid].funs[ctl[i][2]]
            rt == F.rt
            cv == ConvT(pid, NodeT(Top[2]), rt, V(0))
            v == IF Top[2] = 0 THEN W0 ELSE IF Kind(pid, rt) \in IntK THEN Norm(Kind(pid, rt), cv) ELSE cv
        IN Do(SItems(F.defers) \o <<<<"R2", ctl[i][2], ctl[i][3]>>>> \o SubSeq(ctl, i+1, Len(ctl)),
              Append(SubSeq(vs, 1, ctl[i][3]), v))
  \/ /\ Top[1] = "R"       \* fell off the end of a function
     /\ Do(SItems(Progs[pid].funs[Top[2]].defers) \o <<<<"R2", Top[2], Top[3]>>>> \o Rest, Push(W0))
  \/ /\ Top[1] = "R2"
     /\ ctl' = Rest /\ vs' = vs
     /\ fr' = SubSeq(fr, 1, Len(fr)-1)
     /\ mem' = SubSeq(mem, 1, Cur.b - Base0)
     /\ UNCHANGED <<pid, pos, st>>

\* --- output and termination ----------------------------------------------
\* which of the encodings of "not a number" an operation yields is not promised
SameNaN(k, x, y) == k \in FloatK /\ FIsNaN(k, x \o Zeros(8)) /\ FIsNaN(k, y \o Zeros(8))
Out == /\ Top[1] = "OUT"
       /\ LET n == N(pid, Top[2])
              a == Addr(V(0))
              t == n.ty
              w == IF n.k = "emit" THEN SizeT(pid, t) ELSE n.n
              bs == Bytes(mem, a, w)
              got == SubSeq(Progs[pid].out, pos+1, pos+w)
          IN IF pos + w <= Len(Progs[pid].out) /\ (got = bs \/ (n.k = "emit" /\ SameNaN(Kind(pid, t), bs, got)))
             THEN /\ ctl' = Rest /\ vs' = Drop(1) /\ pos' = pos + w /\ UNCHANGED <<pid, fr, mem, st>>
             ELSE /\ PrintT(<<"MISMATCH", Progs[pid].id, pos, n.tag, bs>>) /\ Bad("output")

Halt(code) ==
  IF pos # Len(Progs[pid].out) THEN PrintT(<<"EXTRA", Progs[pid].id, pos>>) /\ Bad("extra output")
  ELSE IF Progs[pid].exit # code THEN PrintT(<<"EXITCODE", Progs[pid].id, code>>) /\ Bad("exit status")
  ELSE /\ PrintT(<<"OK", Progs[pid].id>>) /\ st' = "ok" /\ UNCHANGED <<pid, ctl, vs, fr, mem, pos>>

Stop == \/ /\ Top[1] = "EXIT" /\ Halt(V(0)[1])
        \/ /\ Top[1] = "END" /\ Halt(V(0)[1])

Init == /\ pid \in 1..NP
        /\ ctl = SItems(Progs[pid].ginit) \o SItems(Progs[pid].pre) \o <<E(Progs[pid].main)>>
                 \o <<<<"END", 0, 0>>>>
        /\ vs = <<>>
        /\ fr = <<[f |-> 0, b |-> 0]>>
        /\ mem = Cat([i \in 1..Len(Progs[pid].globs) |->
                   LET t == Progs[pid].vars[Progs[pid].globs[i]].t IN HeaderInit(pid, t, Zeros(SizeT(pid, t)))])
        /\ pos = 0
        /\ st = "run"

Next == /\ st = "run"
        /\ \/ EvalPure \/ EvalLv \/ KontLv \/ EvalEff \/ Kont \/ KontMisc
           \/ Stmt \/ StmtKont \/ Jump \/ Out \/ Stop

Spec == Init /\ [][Next]_vars

Conforms == st \in {"run", "ok"}

(* Invariants of the machine itself *)
StackDiscipline == /\ Len(fr) >= 1
                   /\ st = "ok" => Len(fr) = 1 /\ Len(mem) = GlobArea[pid].n
NoStuck == st = "run" => ENABLED Next
=============================================================================
