-------------------------------- MODULE Str --------------------------------
(* std::string: growable strings.  A string object is a sequence of bytes    *)
(* (none of them 0); the object below holds NS of them.                      *)
EXTENDS Text

NS == 3
Start(cfg) == [s |-> [k \in 1..NS |-> NilStr]]
Ret(s, v) == { [s |-> s, r |-> <<v>>] }
(* operations that change a string show its new content *)
Upd(s, k, t) == { [s |-> [s EXCEPT !.s[k] = t], r |-> <<t, Len(t)>>] }
Bit(b) == IF b THEN 1 ELSE 0

Post(e, s) ==
  LET a == e.a  k == a[1] + 1  t == s.s[k] IN
  CASE e.op = "new"    -> Upd(s, k, <<>>)
    [] e.op = "init"   -> Upd(s, k, a[2])
    [] e.op = "filled" -> Upd(s, k, [i \in 1..a[2] |-> a[3]])
    [] e.op = "copy"   -> Upd(s, k, s.s[a[2] + 1])
    [] e.op = "concat" -> Upd(s, k, t \o a[2])
    [] e.op = "concats" -> Upd(s, k, t \o s.s[a[2] + 1])
    [] e.op = "append" -> Upd(s, k, Append(t, a[2]))
    [] e.op = "appendn" -> Upd(s, k, t \o [i \in 1..a[3] |-> a[2]])
    [] e.op = "get"    -> Upd(s, k, t)
    [] e.op = "trim"   -> Upd(s, k, Trim(t))
    [] e.op = "free"   -> Ret([s EXCEPT !.s[k] = NilStr], 0)
    [] e.op = "contains" -> Ret(s, Bit(Find(t, a[2]) # -1))
    [] e.op = "equal"  -> Ret(s, Bit(t = a[2]))
    [] e.op = "equals" -> Ret(s, Bit(t = s.s[a[2] + 1]))
    [] e.op = "hasc"   -> Ret(s, Bit(FindByte(t, a[2]) # -1))
    [] e.op = "findc"  -> Ret(s, FindByte(t, a[2]))
    [] e.op = "substr" -> Ret(s, IF a[2] < 0 \/ a[3] < a[2] \/ a[3] > Len(t) THEN NilStr ELSE Sub(t, a[2], a[3]))
    [] e.op = "split"  -> Ret(s, Split(a[2], Rng(a[3])))
    [] e.op = "fromint"  -> Ret(s, SNumeral(a[2]))
    [] e.op = "fromuint" -> Ret(s, UNumeral(a[2], 10))
    [] e.op = "fromchar" -> Ret(s, <<a[2]>>)
    [] e.op = "tostr"  -> (* to_str! of an i8, u16, i32, u64 and bool made from the word *)
         LET w == a[2]  e8 == IF w[1] >= 128 THEN 255 ELSE 0 IN
         { [s |-> s, r |-> << SNumeral(<<w[1], e8, e8, e8, e8, e8, e8, e8>>), UNumeral(<<w[1], w[2], 0, 0, 0, 0, 0, 0>>, 10),
                              SNumeral(Low32(w)), UNumeral(w, 10),
                              IF w[1] % 2 = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>> >>] }

Enabled(e, s) == LET k == e.a[1] + 1 IN
  CASE e.op \in {"new", "init", "filled"} -> s.s[k] = NilStr
    [] e.op = "copy" -> s.s[k] = NilStr /\ s.s[e.a[2] + 1] # NilStr
    [] e.op \in {"concats", "equals"} -> s.s[k] # NilStr /\ s.s[e.a[2] + 1] # NilStr
    [] e.op \in {"split", "fromint", "fromuint", "fromchar", "tostr"} -> TRUE
    [] OTHER -> s.s[k] # NilStr
Inv(s) == \A k \in 1..NS : s.s[k] = NilStr \/ \A i \in 1..Len(s.s[k]) : s.s[k][i] \in 1..255
(* a small universe for the exhaustive exploration of short histories *)
Op(o, a) == [op |-> o, a |-> a, r |-> <<>>]
SmallOps == { Op("new", <<0>>), Op("init", <<0, <<32, 97>>>>), Op("filled", <<0, 2, 98>>), Op("append", <<0, 99>>), Op("concat", <<0, <<32>>>>), Op("concat", <<0, <<>>>>),
              Op("concats", <<0, 0>>), Op("trim", <<0>>), Op("copy", <<1, 0>>), Op("append", <<1, 100>>), Op("free", <<0>>) }
=============================================================================
