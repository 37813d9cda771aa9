-------------------------------- MODULE ZkWide --------------------------------
(***************************************************************************)
(* Statements about numbers as large as the groups in use have them.  An   *)
(* event names a statement by its numbers and lists the verdicts that the  *)
(* real code reached for it, by honest provers (outs) and by malicious     *)
(* ones (cheats).  Whether the statement is true is decided here.          *)
(*                                                                         *)
(* Numbers are two's complement, W bytes, least significant first.  A      *)
(* difference is reduced modulo q with a quotient and a remainder that are *)
(* part of the event, and checked here.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == JsonDeserialize(IOEnv.ZK_TRACE)
W == 48
Zero == [i \in 1..W |-> 0]
Small(k) == [i \in 1..W |-> IF i = 1 THEN k ELSE 0]
One == Small(1)
RECURSIVE Carry(_, _, _, _)
Carry(v, i, cy, acc) == IF i > W THEN acc ELSE LET t == v[i] + cy IN Carry(v, i + 1, t \div 256, Append(acc, t % 256))
Norm(v) == Carry(v, 1, 0, <<>>)
Add(a, b) == Norm([i \in 1..W |-> a[i] + b[i]])
Sub(a, b) == Norm([i \in 1..W |-> a[i] - b[i]])
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Col(a, b, k, i + 1)
Mul(a, b) == Norm([k \in 1..W |-> Col(a, b, k, 1)])
Neg(a) == a[W] >= 128
Lt(a, b) == Neg(Sub(a, b))
Le(a, b) == ~Lt(b, a)
\* the number of bits of a natural number, and powers of two
RECURSIVE Top(_, _)
Top(a, i) == IF i = 0 THEN 0 ELSE IF a[i] # 0 THEN i ELSE Top(a, i - 1)
RECURSIVE Bits8(_)
Bits8(n) == IF n = 0 THEN 0 ELSE 1 + Bits8(n \div 2)
NumBits(a) == LET t == Top(a, W) IN IF t = 0 THEN 0 ELSE 8 * (t - 1) + Bits8(a[t])
RECURSIVE Exp2(_)
Exp2(n) == IF n = 0 THEN 1 ELSE 2 * Exp2(n - 1)
Two(n) == [i \in 1..W |-> IF i = (n \div 8) + 1 THEN Exp2(n % 8) ELSE 0]
Reduced(d, m) == d = Add(Mul(m.k, m.q), m.r) /\ ~Neg(m.r) /\ Lt(m.r, m.q)

(* --------------------------- what is true ------------------------------ *)
InRange(e) == Le(e.a, e.x) /\ Lt(e.x, e.b)
InPow(x, n) == ~Neg(x) /\ Lt(x, Two(n))
\* the two halves of a range proof amount to the range
RangeBits(e) == LET n == NumBits(Sub(Sub(e.b, e.a), One)) IN IF n = 0 THEN 1 ELSE n
Halves(e) == LET n == RangeBits(e)
                 y == Sub(e.x, e.a)
                 z == Add(y, Sub(Two(n), Sub(e.b, e.a)))
             IN  InPow(y, n) /\ InPow(z, n)
Same(e) == e.m.r = Zero
Truth(e) ==
  CASE e.kind = "range" -> InRange(e)
    [] e.kind = "pow" -> InPow(e.x, e.n)
    [] e.kind \in {"dl", "same"} -> Same(e)
    [] e.kind = "neq" -> ~Same(e)
    [] e.kind = "flip" -> Same(e)     \* an accepted proof with one number changed by x
\* the event is well formed, and the design of the statement is right about it
Sound(e) ==
  CASE e.kind = "range" -> InRange(e) <=> Halves(e)
    [] e.kind \in {"dl", "same", "neq"} -> Reduced(Sub(e.y, e.x), e.m)
    [] e.kind = "flip" -> Reduced(e.x, e.m)
    [] OTHER -> TRUE

VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = {}
Judge(e) ==
  LET t == Truth(e)
      f == {<<"wide.refused", o.how>> : o \in {o \in ToSet(e.outs) : t /\ o.out # "T"}}
      a == {<<"wide.accepted", o.how>> : o \in {o \in ToSet(e.outs) \cup ToSet(e.cheats) : ~t /\ o.out = "T"}}
  IN  bad' = bad \cup {<<x[1], l, e.kind \o " " \o x[2]>> : x \in f \cup a}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} : Assert(Sound(e), <<"the event is not sound", e>>) /\ Judge(e)
Spec == Init /\ [][Next]_vars
Publish == TLCSet(1, [bad |-> SetToSeq(bad), last |-> l, len |-> Len(Trace), degen |-> 0]) /\ TRUE
Result == PrintT(<<"ZKRESULT", ToJson(TLCGet(1))>>)
==============================================================================
