---- MODULE WordsTest ----
EXTENDS Words, TLC
A == {0,1,2,127,128,254,255}
S == {<<a,b,0,0,0,0,0,c>> : a \in A, b \in {0,1,255}, c \in {0,127,128,255}}
ASSUME \A x, y \in S : WAdd(WSub(x,y),y) = x
ASSUME \A x, y \in S : y # W0 => LET d == WDivModU(x,y) IN WAdd(WMul(d[1],y),d[2]) = x /\ WLtU(d[2],y)
ASSUME \A x, y \in S : y # W0 => WAdd(WMul(WDivS(x,y),y),WModS(x,y)) = x
ASSUME \A x \in S, n \in 0..63 : WShl(WShrU(x,n),n) = WAnd(x, WShl(WM,n))
ASSUME PrintT("done")
VARIABLE v
Init == v = 0
Next == UNCHANGED v
====
