------------------------------ MODULE ZkParams ------------------------------
(***************************************************************************)
(* Bases that parties derive without talking to each other.  A family of   *)
(* generators is a random oracle: the point at one position of the family  *)
(* of one seed, in one group, is the same in every process and for every   *)
(* length of the family; all of them are different elements of the group   *)
(* asked for, and nothing is known that relates them (on transparent       *)
(* groups: they are linearly independent, also of the standard generator). *)
(* Points asked for without a seed are new every time.                     *)
(* The trace is recorded by zkv/params.py.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == JsonDeserialize(IOEnv.ZK_TRACE)

VARIABLES l, oracle, fresh, used, bad
vars == <<l, oracle, fresh, used, bad>>

(* oracle : <<group, seed, position>> -> point
   fresh  : the points that were drawn
   used   : all points seen, each with its group *)

(* rank of vectors over Z_q *)
Inv(a, q) == CHOOSE b \in 1..(q - 1) : (a * b) % q = 1
RECURSIVE Rank(_, _, _)
Rank(vs, q, d) ==
  IF vs = <<>> \/ d = 0 THEN 0
  ELSE LET piv == {i \in DOMAIN vs : vs[i][d] % q # 0}
       IN  IF piv = {} THEN Rank(vs, q, d - 1)
           ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
                    inv == TLCEval(Inv(vs[p][d] % q, q))
                    pv == TLCEval([k \in DOMAIN vs[p] |-> (vs[p][k] * inv) % q])
                    rest == [i \in 1..(Len(vs) - 1) |-> vs[IF i < p THEN i ELSE i + 1]]
                    red == TLCEval([i \in DOMAIN rest |-> [k \in DOMAIN pv |-> (rest[i][k] + (q - (rest[i][d] % q)) * pv[k]) % q]])
                IN  1 + Rank(red, q, d - 1)
Independent(vs, q) == vs = <<>> \/ Rank(vs, q, Len(vs[1])) = Len(vs)

Report(cl) == bad' = bad \cup {<<c[1], l, Trace[l].tag>> : c \in {x \in cl : ~x[2]}}
Range1(s) == {s[i] : i \in DOMAIN s}

\* a family of e.n generators of group e.g for seed e.seed
Family(e) ==
  LET key(i) == <<e.g, e.seed, i>>
      ks == {key(i) : i \in DOMAIN e.pts}
      known == {i \in DOMAIN e.pts : key(i) \in DOMAIN oracle}
  IN  /\ oracle' = [k \in DOMAIN oracle \cup ks |-> IF k \in DOMAIN oracle THEN oracle[k] ELSE e.pts[k[3]]]
      /\ used' = used \cup {<<e.g, e.pts[i]>> : i \in DOMAIN e.pts}
      /\ UNCHANGED fresh
      /\ Report({<<"par.refused", e.out = "ok">>,
                 <<"par.count", e.out = "ok" => Len(e.pts) = e.n>>,
                 <<"par.determined", \A i \in known : oracle[key(i)] = e.pts[i]>>,
                 <<"par.distinct", Cardinality(Range1(e.pts)) = Len(e.pts)>>,
                 <<"par.group", e.ingroup>>,
                 <<"par.identity", ~e.identity>>,
                 <<"par.fresh", \A i \in DOMAIN e.pts : <<e.g, e.pts[i]>> \notin fresh>>,
                 <<"par.related", Independent(e.vecs, e.q)>>})
\* points drawn without a seed, some of them at once
Drawn(e) ==
  /\ fresh' = fresh \cup {<<e.g, e.pts[i]>> : i \in DOMAIN e.pts}
  /\ used' = used \cup {<<e.g, e.pts[i]>> : i \in DOMAIN e.pts}
  /\ UNCHANGED oracle
  /\ Report({<<"par.refused", e.out = "ok">>,
             <<"par.count", e.out = "ok" => Len(e.pts) = e.n>>,
             <<"par.fresh", Cardinality(Range1(e.pts)) = Len(e.pts) /\ \A i \in DOMAIN e.pts : <<e.g, e.pts[i]>> \notin used>>,
             <<"par.group", e.ingroup>>,
             <<"par.identity", ~e.identity>>,
             <<"par.related", Independent(e.vecs, e.q)>>})

Init == l = 1 /\ oracle = <<>> /\ fresh = {} /\ used = {} /\ bad = {}
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \E e \in {Trace[l]} : CASE e.ev = "family" -> Family(e) [] e.ev = "drawn" -> Drawn(e)
Spec == Init /\ [][Next]_vars
Publish == TLCSet(1, [bad |-> SetToSeq(bad), last |-> l, len |-> Len(Trace), degen |-> 0]) /\ TRUE
Result == PrintT(<<"ZKRESULT", ToJson(TLCGet(1))>>)
==============================================================================
