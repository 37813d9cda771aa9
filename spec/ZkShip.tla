-------------------------------- MODULE ZkShip --------------------------------
(***************************************************************************)
(* Proofs that travel between processes.  A statement is known by its      *)
(* structure, its parameters and which of its secrets are the same; a      *)
(* proof by the statement and message it was made for.  Serialization      *)
(* returns the proof; a verdict depends on nothing but the proof, the      *)
(* statement and the message, whatever process reaches it.                 *)
(* The trace is recorded by zkv/ship.py, on transparent and real groups.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == JsonDeserialize(IOEnv.ZK_TRACE)

VARIABLES l, stmts, proofs, verdicts, bad
vars == <<l, stmts, proofs, verdicts, bad>>
Emp == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f

(* A node: k kind, f parameters, x secrets, s operands *)
RECURSIVE Names(_)
Names(t) == t.x \o FlattenSeq([i \in DOMAIN t.s |-> Names(t.s[i])])
FirstIdx(ns) == [x \in {ns[i] : i \in DOMAIN ns} |-> CHOOSE i \in DOMAIN ns : ns[i] = x /\ \A j \in 1..(i - 1) : ns[j] # x]
RECURSIVE IdOf(_, _)
IdOf(t, fi) == <<t.k, t.f, [i \in DOMAIN t.x |-> fi[t.x[i]]], [i \in DOMAIN t.s |-> IdOf(t.s[i], fi)]>>
Id(t) == ToString(IdOf(t, FirstIdx(Names(t))))
RECURSIVE Hooked(_)   \* a user-defined hook may refuse it
Hooked(t) == t.hook \/ \E i \in DOMAIN t.s : Hooked(t.s[i])

Report(cl) == bad' = bad \cup {<<c[1], l, Trace[l].tag>> : c \in {x \in cl : ~x[2]}}

New(e) == stmts' = Emp /\ proofs' = Emp /\ verdicts' = Emp /\ Report({})
Stmt(e) ==
  /\ stmts' = Put(stmts, e.o, [id |-> Id(e.st), hook |-> Hooked(e.st)])
  /\ UNCHANGED <<proofs, verdicts>> /\ Report({<<"mk.refused", e.out = "ok">>})
\* process e.proc proves a true statement
Prove(e) ==
  /\ proofs' = IF e.out = "ok" THEN Put(proofs, e.n, [id |-> stmts[e.o].id, msg |-> e.msg, honest |-> TRUE, hook |-> stmts[e.o].hook]) ELSE proofs
  /\ UNCHANGED <<stmts, verdicts>> /\ Report({<<"prove.refused", e.out = "ok">>})
\* proof n with a part of it changed
Forge(e) ==
  /\ proofs' = Put(proofs, e.n, [proofs[e.from] EXCEPT !.honest = FALSE])
  /\ UNCHANGED <<stmts, verdicts>> /\ Report({})
\* serialized and deserialized in process e.proc: compared by ==, part by part with the kinds of all values,
\* and by serializing it again
Ship(e) ==
  /\ UNCHANGED <<stmts, proofs, verdicts>>
  /\ Report({<<"ship.refused", e.out = "ok">>} \cup
            (IF e.out # "ok" THEN {} ELSE
              {<<"ship.equal", e.eq>>, <<"ship.changed", e.was = e.is>>, <<"ship.again", e.again>>}))
\* process e.proc verifies proof n (as it was or after transport) for statement o with a message
Verify(e) ==
  LET p == proofs[e.n]  s == stmts[e.o]
      key == <<e.n, s.id, e.msg>>
      acc == e.out = "T"
  IN  /\ UNCHANGED <<stmts, proofs>>
      /\ verdicts' = IF key \in DOMAIN verdicts THEN verdicts ELSE Put(verdicts, key, acc)
      /\ Report({<<"ship.verdict", key \in DOMAIN verdicts => verdicts[key] = acc>>,
                 <<"verify.rejected", p.honest /\ ~p.hook /\ p.id = s.id /\ p.msg = e.msg => acc>>,
                 <<"verify.accepted", acc => p.id = s.id /\ p.msg = e.msg>>})

Init == l = 1 /\ stmts = Emp /\ proofs = Emp /\ verdicts = Emp /\ bad = {}
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \E e \in {Trace[l]} :
       CASE e.ev = "new" -> New(e)
         [] e.ev = "stmt" -> Stmt(e)
         [] e.ev = "prove" -> Prove(e)
         [] e.ev = "forge" -> Forge(e)
         [] e.ev = "ship" -> Ship(e)
         [] e.ev = "verify" -> Verify(e)
Spec == Init /\ [][Next]_vars
Publish == TLCSet(1, [bad |-> SetToSeq(bad), last |-> l, len |-> Len(Trace), degen |-> 0]) /\ TRUE
Result == PrintT(<<"ZKRESULT", ToJson(TLCGet(1))>>)
==============================================================================
