-------------------------------- MODULE Neq --------------------------------
(***************************************************************************)
(* Inequality of discrete logarithms, over Z_q: every group element is its *)
(* logarithm.  For every statement: whether it is true; whether there are  *)
(* a precommitment and witnesses for the inner statement that the verifier *)
(* accepts; and whether the honest prover produces them.  TLC visits every *)
(* case and checks that the three agree; the cases, with the outcome       *)
(* required, are replayed on the real code (zkv/cases.py).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Q == atoi(IOEnv.ZK_Q)
OutFile == IOEnv.ZK_OUT
Z == 0..(Q - 1)
VARIABLES h0, H0, h1, H1, x, bind
vars == <<h0, H0, h1, H1, x, bind>>

Init == h0 \in Z \ {0} /\ H0 \in Z /\ h1 \in Z /\ H1 \in Z /\ x \in Z /\ bind \in BOOLEAN
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Truth(v) == H0 = (v * h0) % Q /\ H1 # (v * h1) % Q
\* the inner statement, with its secrets a, b (and v when binding), for the precommitment C
Inner(C, a, b, v) == /\ (a * h0 + b * H0) % Q = 0
                     /\ C = (a * h1 + b * H1) % Q
                     /\ bind => H0 = (v * h0) % Q
Accepted(C) == C # 0
Provable == \E a, b \in Z : \E v \in IF bind THEN Z ELSE {0} :
              LET C == (a * h1 + b * H1) % Q IN Accepted(C) /\ Inner(C, a, b, v)
\* the honest prover, with value v and blinding value k
HonestC(v, k) == (k * (v * h1 - H1)) % Q
Honest(v, k) == Inner(HonestC(v, k), (k * v) % Q, (Q - k) % Q, v) /\ Accepted(HonestC(v, k))

\* there is a witness exactly for true statements
Sound == Provable <=> \E v \in Z : Truth(v)
\* the honest prover succeeds exactly with the right value, whatever the blinding (but for 0)
Exact == \A k \in Z \ {0} : Honest(x, k) <=> Truth(x)
NeverZero == ~Honest(x, 0)
\* with binding, the value proved is the logarithm
Bound == bind => \A a, b, v \in Z : Inner((a * h1 + b * H1) % Q, a, b, v) => H0 = (v * h0) % Q
\* the precommitment tells nothing: for a true statement every nonzero one is equally likely
Hiding == Truth(x) => \A C \in Z \ {0} : \E k \in Z \ {0} : HonestC(x, k) = C /\ \A k2 \in Z : HonestC(x, k2) = C => k2 = k

ASSUME TLCSet(1, <<>>)
Collect == TLCSet(1, Append(TLCGet(1), [h0 |-> h0, H0 |-> H0, h1 |-> h1, H1 |-> H1, x |-> x, bind |-> bind, truth |-> Truth(x)]))
Written == JsonSerialize(OutFile, TLCGet(1))
==============================================================================
