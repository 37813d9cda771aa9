------------------------------- MODULE Range -------------------------------
(***************************************************************************)
(* Range proofs: a value is shown to lie in [a, b) by showing that both    *)
(* x - a and x - a + 2^n - (b - a) lie in [0, 2^n).  Commitments are in a  *)
(* group of order Q.  TLC visits every a, b, x of the chosen bounds and    *)
(* checks that the two halves amount to the range, over the integers and   *)
(* over residues, and that decompositions exist exactly in the range; the  *)
(* cases, with the outcome required, are replayed on the real code.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Q == atoi(IOEnv.ZK_Q)
W == atoi(IOEnv.ZK_W)          \* the largest range size
Margin == 3
Starts == {-5, -1, 0, 1, 4, 1000}
OutFile == IOEnv.ZK_OUT
VARIABLES a, b, x
vars == <<a, b, x>>
Init == /\ a \in Starts /\ \E n \in 1..W : b = a + n
        /\ \E d \in (-Margin)..(W + Margin) : x = a + d /\ d <= b - a + Margin
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Truth == a <= x /\ x < b
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
Max(u, v) == IF u > v THEN u ELSE v
N == Max(1, Bits(b - a - 1))
Offset == Two(N) - (b - a)
InPow(v) == 0 <= v /\ v < Two(N)
\* a sequence of bits recombines to v, modulo Q: the check of the verifier
RECURSIVE Recombine(_, _)
Recombine(bits, i) == IF i > Len(bits) THEN 0 ELSE bits[i] + 2 * Recombine(bits, i + 1)
Decomposable(v) == \E bits \in [1..N -> {0, 1}] : (Recombine(bits, 1) - v) % Q = 0

Halves == InPow(x - a) /\ InPow(x - a + Offset) <=> Truth
Enough == Two(N) >= b - a /\ (N > 1 => Two(N - 1) < b - a) /\ Offset >= 0
\* what can be proved about the residue of x (the group order must be large enough for two more bits)
Residues == 4 * Two(N) <= Q =>
   ((Decomposable(x - a) /\ Decomposable(x - a + Offset)) <=> \E v \in a..(b - 1) : (v - x) % Q = 0)

ASSUME TLCSet(1, <<>>)
Collect == TLCSet(1, Append(TLCGet(1), [a |-> a, b |-> b, x |-> x, n |-> N, truth |-> Truth]))
Written == JsonSerialize(OutFile, TLCGet(1))
==============================================================================
