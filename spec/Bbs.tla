-------------------------------- MODULE Bbs --------------------------------
(***************************************************************************)
(* BBS+ signatures and their proofs of possession, over vectors: G1 is     *)
(* Z_q^3 with independent generators g0, g1 (blinding), g2 (message), the  *)
(* second group is Z_q with generator 1, the pairing is scaling.  TLC      *)
(* visits all keys, signatures, messages and prover choices.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils

Q == atoi(IOEnv.ZK_Q)
Z == 0..(Q - 1)
Add(a, b) == [i \in 1..3 |-> (a[i] + b[i]) % Q]
Mul(k, a) == [i \in 1..3 |-> (k * a[i]) % Q]
Sub(a, b) == Add(a, Mul(Q - 1, b))
g0 == <<1, 0, 0>>  g1 == <<0, 1, 0>>  g2 == <<0, 0, 1>>
O == <<0, 0, 0>>

VARIABLES w,                  \* the public key, whose logarithm is the secret key
          e, s, m,            \* values the prover uses for the signature's e, s and the message
          r1, r2, d1, d2,     \* ... and for the internal secrets
          A2                  \* second part of the precommitment
vars == <<w, e, s, m, r1, r2, d1, d2, A2>>
Init == /\ w \in Z /\ e \in Z /\ s \in Z /\ m \in Z /\ r1 \in Z /\ r2 \in Z /\ d1 \in Z /\ d2 \in Z
        /\ A2 \in {<<a, b, c>> : a, b, c \in Z}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* pairing equation of a signature (A, e, s) on message m
SigOK(A, ee, ss, mm) == Mul(w + ee, A) = Add(g0, Add(Mul(ss, g1), Mul(mm, g2)))
A1 == Add(Mul(r1, g1), Mul(r2, g2))
\* the three parts of the inner statement
Eq2 == O = Add(Add(Mul(d1, g1), Mul(d2, g2)), Mul(Q - e, A1))
Eq3(ee, rr, dd) == Sub(Mul(w, A2), g0) =
         Add(Add(Mul(Q - ee, A2), Mul(rr * w + dd, g2)), Add(Mul(s, g1), Mul(m, g2)))
Proves == Eq2 /\ Eq3(e, r1, d1)

\* whoever proves the statement knows a signature on the message
Extracts == Proves => SigOK(Sub(A2, Mul(r1, g2)), e, s, m)
\* whoever has a signature can prove it, with any blinding
Complete == LET A == Sub(A2, Mul(r1, g2)) IN
  SigOK(A, e, s, m) /\ d1 = (r1 * e) % Q /\ d2 = (r2 * e) % Q => Proves
\* issuance: the signature on a blinded request, with the blinding added, is a signature on the message
\* (d1 is the requester's part of s, d2 the issuer's, r1 the issuer's e)
Issued == LET com == Add(Mul(d1, g1), Mul(m, g2)) IN
  Mul(w + r1, A2) = Add(g0, Add(Mul(d2, g1), com)) => SigOK(A2, r1, (d1 + d2) % Q, m)
\* a signature is for one message and one s only
Unique == SigOK(A2, e, s, m) => \A s2, m2 \in Z : SigOK(A2, e, s2, m2) => s2 = s /\ m2 = m
==============================================================================
