-------------------------------- MODULE Fiat --------------------------------
(***************************************************************************)
(* Design of the non-interactive proofs.  The statement is that two        *)
(* elements of Z_q have one logarithm for two bases, a precommitment names *)
(* one of two second bases (as primitives that send part of their internal *)
(* statement do), and the challenge is what a random oracle answers to     *)
(* statement, precommitment, commitment and message.  An adversary without *)
(* bounds asks and publishes.                                              *)
(*                                                                         *)
(* For a false statement there is, for each commitment, one challenge that *)
(* can be answered.  Sound: a proof of a false statement was luck - the    *)
(* answer of the oracle to a question fixed beforehand was that challenge. *)
(* Bound: a proof that verifies for a message was made for that message,   *)
(* statement and precommitment.                                            *)
(*                                                                         *)
(* Hashed says what is hashed; leaving out anything breaks an invariant.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Q == 3
Parts == {"statement", "precommitment", "commitment", "message"}
Without == IOEnv.ZK_WITHOUT
Hashed == Parts \ {Without}
MaxQueries == 2

Zq == 0..(Q - 1)
G1 == 1
Second == {1, 2}          \* the second base, chosen in the precommitment
Messages == {"a", "b"}
Statements == Zq \X Zq
Commitments == Zq \X Zq

Tuples == [statement : Statements, precommitment : Second, commitment : Commitments, message : Messages]
Question(t) == [k \in Hashed |-> t[k]]

True(st, pre) == \E w \in Zq : st = <<(w * G1) % Q, (w * pre) % Q>>
Answers(t, c, r) ==
  /\ (r * G1) % Q = (t.commitment[1] + c * t.statement[1]) % Q
  /\ (r * t.precommitment) % Q = (t.commitment[2] + c * t.statement[2]) % Q
Answerable(t) == {c \in Zq : \E r \in Zq : Answers(t, c, r)}

VARIABLES oracle, asked, published
vars == <<oracle, asked, published>>
(* oracle    : answers given so far, by question
   asked     : for each answer, the tuple the adversary had in mind when the question was answered
   published : proofs that verify, with what they verify for *)

Init == oracle = <<>> /\ asked = {} /\ published = {}

\* a question is answered when it is asked first
Ask(t, c) ==
  /\ Question(t) \notin DOMAIN oracle
  /\ Cardinality(DOMAIN oracle) < MaxQueries
  /\ oracle' = (Question(t) :> c) @@ oracle
  /\ asked' = asked \cup {t}
  /\ UNCHANGED published
\* the verifier accepts: the challenge is the answer to the question, and the equations hold
Publish(t, r) ==
  /\ published = {}
  /\ Question(t) \in DOMAIN oracle
  /\ Answers(t, oracle[Question(t)], r)
  /\ published' = {t}
  /\ UNCHANGED <<oracle, asked>>

\* (statements up to multiples, questions about two statements: enough for every violation)
Use == {t \in Tuples : t.statement \in {<<0, 1>>, <<1, 1>>, <<1, 2>>} /\ t.commitment[1] \in {0, 1}}
Next == (\E t \in Use : \E c \in Zq : Ask(t, c)) \/ (\E t \in Use : \E r \in Zq : Publish(t, r))
Spec == Init /\ [][Next]_vars

\* for a false statement the right challenge is one, so that chance is 1/q for each question
OneChallenge == \A t \in Tuples : ~True(t.statement, t.precommitment) => Cardinality(Answerable(t)) <= 1
Complete == \A t \in {u \in Tuples : True(u.statement, u.precommitment)} :
              (\E r \in Zq, c \in Zq : Answers(t, c, r)) => (\A c \in Zq : \E r \in Zq : Answers(t, c, r))
Sound == \A t \in published : ~True(t.statement, t.precommitment) => t \in asked
Bound == \A t \in published : \E u \in asked : u.message = t.message /\ u.statement = t.statement /\ u.precommitment = t.precommitment
ASSUME OneChallenge /\ Complete

\* that each part is needed: without it some invariant fails somewhere
Count == (~Sound \/ ~Bound => TLCSet(1, TRUE)) /\ TRUE
ASSUME TLCSet(1, FALSE)
Needed == TLCGet(1)
==============================================================================
