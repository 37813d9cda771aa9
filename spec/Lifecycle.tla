------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Histories of statement objects.  p is a statement, r a second one; O is *)
(* the disjunction and A the conjunction of p and r, built at some point   *)
(* of the history; v is the verifier's statement.  Every public operation, *)
(* successful or not, is an action.  The outcome of an operation is        *)
(* required to be a function of the secrets, the marks and the arguments   *)
(* alone (invariant Outcomes): nothing else is remembered.                 *)
(*                                                                         *)
(* TLC enumerates every history up to length L; each is replayed on the    *)
(* real code, for several kinds of statement p (zkv/history.py).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

L == atoi(IOEnv.ZK_L)
OutFile == IOEnv.ZK_OUT

MarkP == IOEnv.ZK_MARKP = "yes"   \* whether p itself may be marked as simulated
\* statements of primitives keep their precommitment while a session is open
Reentrant == IOEnv.ZK_REENTRANT = "yes"
Objs == {"p", "r", "O", "A"}
Full == {"p", "O"}                \* objects on which every operation is tried
VARIABLES h,        \* the history
          exists,   \* statement objects that exist
          marked,   \* whether p is marked as simulated: subset of {"p"}
          branch,   \* branches of O marked: subset of {1, 2}
          open,     \* objects with an open session
          last      \* last operation on an object that has an outcome, and the outcome
vars == <<h, exists, marked, branch, open, last>>

Init == /\ h = <<>> /\ exists = {"p", "r"} /\ marked = {} /\ branch = {} /\ open = {} /\ last = <<"none", "p", TRUE>>

\* p is true and its secrets are known; r is false, and its secret is known
Provable(o) == CASE o = "O" -> branch # {1, 2}
                 [] OTHER -> o \notin marked
Log(op, o) == h' = Append(h, <<op, o>>)
Closed(o) == o \in exists /\ o \notin open
Idle(o) == o \in exists /\ (o \notin open \/ Reentrant)
Result(op, o, res) == last' = <<op, o, res>>
Same == UNCHANGED <<exists, marked, branch, open>>

Prove(o) == Idle(o) /\ Log("prove", o) /\ Result("prove", o, Provable(o)) /\ Same
Simulate(o) == Idle(o) /\ Log("sim", o) /\ Result("sim", o, TRUE) /\ Same
\* a session up to the challenge; if there is no prover nothing is opened
Open(o) == /\ Closed(o) /\ Log("open", o) /\ Result("open", o, Provable(o))
           /\ open' = IF Provable(o) THEN open \cup {o} ELSE open
           /\ UNCHANGED <<exists, marked, branch>>
Finish(o) == /\ o \in open /\ Log("finish", o) /\ Result("finish", o, TRUE)
             /\ open' = open \ {o} /\ UNCHANGED <<exists, marked, branch>>
Abort(o) == /\ o \in open /\ Log("abort", o) /\ Result("abort", o, TRUE)
            /\ open' = open \ {o} /\ UNCHANGED <<exists, marked, branch>>
Compose(o) == /\ o \in {"O", "A"} /\ Log("compose", o) /\ o \notin open
              /\ o = "A" => marked = {}
              /\ exists' = exists \cup {o}
              /\ branch' = IF o = "O" THEN {i \in {1, 2} : (IF i = 1 THEN "p" ELSE "r") \in marked} ELSE branch
              /\ Result("compose", o, TRUE) /\ UNCHANGED <<open, marked>>
Mark(o) == /\ Closed(o) /\ o = "p" /\ MarkP /\ o \notin marked /\ Log("mark", o) /\ marked' = marked \cup {o}
           /\ Result("mark", o, TRUE) /\ UNCHANGED <<exists, branch, open>>
Unmark(o) == /\ o \in marked /\ Closed(o) /\ Log("unmark", o) /\ marked' = marked \ {o}
             /\ Result("mark", o, TRUE) /\ UNCHANGED <<exists, branch, open>>
MarkBranch(i) == /\ Closed("O") /\ Log(IF i \in branch THEN "unmark" ELSE "mark", "O" \o "." \o ToString(i))
                 /\ branch' = IF i \in branch THEN branch \ {i} ELSE branch \cup {i}
                 /\ Result("mark", "O", TRUE) /\ UNCHANGED <<exists, marked, open>>
\* failing operations, on the statement itself and on its verifier's counterpart
BadVerify(o) == Idle(o) /\ Log("badverify", o) /\ Result("badverify", o, FALSE) /\ Same
Malformed(o) == Idle(o) /\ Log("malformed", o) /\ Result("malformed", o, FALSE) /\ Same
Missing(o) == Idle(o) /\ Log("missing", o) /\ Result("missing", o, FALSE) /\ Same
WrongHash(o) == Idle(o) /\ Log("wronghash", o) /\ Result("wronghash", o, FALSE) /\ Same

Next == /\ Len(h) < L
        /\ \/ \E o \in Objs : Prove(o) \/ Simulate(o)
           \/ \E o \in Objs \ {"r"} : Open(o) \/ Finish(o) \/ Abort(o) \/ BadVerify(o)
           \/ \E o \in Full : Malformed(o) \/ Missing(o) \/ WrongHash(o)
           \/ \E o \in {"O", "A"} : Compose(o)
           \/ \E i \in {1, 2} : MarkBranch(i)
           \/ Mark("p") \/ Unmark("p")
Spec == Init /\ [][Next]_vars

\* A composition has copies of its operands: marks made afterwards do not reach it.
TypeOK == /\ exists \subseteq Objs /\ marked \subseteq Objs /\ branch \subseteq {1, 2} /\ open \subseteq exists
\* the outcome is that of the same operation on fresh objects with the same marks
Outcomes == last[1] \in {"prove"} => last[3] = Provable(last[2])
NoSessionUnlessProvable == [][\A o \in open' \ open : Provable(o)]_vars
Collect == (Len(h) = L => TLCSet(1, Append(TLCGet(1), h))) /\ TRUE
ASSUME TLCSet(1, <<>>)
Written == JsonSerialize(OutFile, TLCGet(1)) /\ PrintT(<<"ZKGEN", ToJson(Len(TLCGet(1)))>>)
==============================================================================
