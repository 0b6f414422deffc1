---- MODULE FloatsTest ----
EXTENDS Floats, TLC, Json, IOUtils
C == JsonDeserialize(IOEnv.CSP_PROGS)
R(c) == CASE c.op = "add" -> FAdd(c.k, c.a, c.b) [] c.op = "sub" -> FSub(c.k, c.a, c.b)
  [] c.op = "mul" -> FMul(c.k, c.a, c.b) [] c.op = "div" -> FDiv(c.k, c.a, c.b)
  [] c.op = "conv" -> FConv(c.k, c.tk, c.a) [] c.op = "i2f" -> I2F(c.k, TRUE, c.a) [] c.op = "f2i" -> F2I(c.k, c.a)
  [] c.op = "dec" -> FDec(c.k, c.a, c.d)
Ok(c) == IF R(c) = c.r THEN TRUE ELSE PrintT(<<"FAIL", c, R(c)>>)
ASSUME \A i \in 1..Len(C) : Ok(C[i])
ASSUME PrintT("done")
VARIABLE v
Init == v = 0
Next == UNCHANGED v
====
