------------------------------ MODULE ZkTrace -------------------------------
(***************************************************************************)
(* Validates a trace recorded from the real code against ZkCore.           *)
(*                                                                         *)
(* Every event is one public call with its arguments and its outcome.  The *)
(* trace specification takes one step per event: it computes what the      *)
(* specification allows, adds the name of every clause that the recorded   *)
(* outcome violates to `bad`, and updates the abstract state (objects,     *)
(* secret values, random oracle, hashes, sessions).  Verdicts are total:   *)
(* an event that fits nothing is itself a violated clause.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

TraceFile == IOEnv.ZK_TRACE
Log == JsonDeserialize(TraceFile)
Header == Log[1]

Z == INSTANCE ZkCore WITH Groups <- Header.groups, CLimbs <- Header.climbs

VARIABLES l,      \* next event
          objs,   \* object name -> [st, cap, env, mk]
          env,    \* environment name -> (secret name -> value)
          ro,     \* challenge key -> set of [id, pre, msg, com (pattern)]
          hid,    \* statement hash -> statement id
          idh,    \* statement id -> statement hash
          sess,   \* session name -> record
          degen,  \* honest proofs that are invalid for a probabilistic reason
          exprs,  \* expression name -> sequence of terms [x, b]
          bbs,    \* keys and requests for signatures
          used,   \* object -> path of a disjunction -> sequence of branches seen in use
          bad     \* violated clauses: <<clause, event number, tag>>
vars == <<l, objs, env, ro, hid, idh, sess, degen, exprs, used, bbs, bad>>

E == Log[l]
Tag(e) == IF "tag" \in DOMAIN e THEN e.tag ELSE ""
Emp == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Is(e, name) == e.ev = name
Accepted(e) == e.out = "T"
Done(e) == e.out = "ok"

Init == /\ l = 2 /\ objs = Emp /\ env = Emp /\ ro = Emp /\ hid = Emp /\ idh = Emp
        /\ sess = Emp /\ degen = 0 /\ exprs = Emp /\ used = Emp /\ bbs = Emp /\ bad = {}

\* report the clauses whose condition is FALSE
Report(e, cl) == bad' = bad \cup {<<c[1], l, Tag(e)>> : c \in {x \in cl : ~x[2]}}
Step == l' = l + 1

(* -------------------------------- objects ------------------------------ *)
RECURSIVE Buildable(_)
Buildable(st) ==
  CASE st.k = "dl" -> Len(st.b) >= 1 /\ Z!DLOK(st)
    [] st.k \in {"and", "or"} -> Len(st.s) >= 2 /\ \A i \in DOMAIN st.s : Buildable(st.s[i])
    [] st.k = "xplain" -> Buildable(st.inner)
    [] OTHER -> TRUE

NewScenario(e) ==
  /\ objs' = Emp /\ env' = Emp /\ ro' = Emp /\ sess' = Emp
  /\ UNCHANGED <<hid, idh, degen>> /\ Report(e, {})

Make(e) ==
  /\ objs' = IF Done(e) THEN Put(objs, e.o, [st |-> Z!Desugar(e.st), cap |-> e.vals, env |-> e.env, mk |-> {}])
             ELSE objs
  /\ env' = Put(env, e.env, e.vals @@ Get(env, e.env, Emp))
  /\ UNCHANGED <<ro, hid, idh, sess, degen>>
  /\ Report(e, {<<"mk.refused", Buildable(e.st) => Done(e)>>})

StartsWith(m, pre) == Len(m) >= Len(pre) /\ SubSeq(m, 1, Len(pre)) = pre
\* an operand's marks, moved below a new root
Under(m, i) == {"r." \o ToString(i) \o SubSeq(p, 2, Len(p)) : p \in m}
\* the operands that & and | put side by side: those of operands of the same kind, themselves
Parts(e) ==
  LET part(x) == LET o == objs[x] IN
        IF e.via = "op" /\ o.st.k = e.k
        THEN [i \in DOMAIN o.st.s |->
               [st |-> o.st.s[i],
                mk |-> {"r" \o SubSeq(p, 3 + Len(ToString(i)), Len(p)) :
                          p \in {m \in o.mk : \/ m = "r." \o ToString(i)
                                            \/ StartsWith(m, "r." \o ToString(i) \o ".")}}]]
        ELSE <<[st |-> o.st, mk |-> o.mk]>>
  IN FlattenSeq([i \in DOMAIN e.ops |-> part(e.ops[i])])
Compose(e) ==
  LET ps == Parts(e)
      new == [st |-> [k |-> e.k, s |-> [i \in DOMAIN ps |-> ps[i].st]],
              cap |-> FoldLeft(LAMBDA acc, x : objs[x].cap @@ acc, Emp, e.ops),
              env |-> objs[e.ops[1]].env,
              mk |-> UNION {Under(ps[i].mk, i) : i \in DOMAIN ps}]
  IN  /\ objs' = IF Done(e) THEN Put(objs, e.o, new) ELSE objs
      /\ UNCHANGED <<env, ro, hid, idh, sess, degen>>
      /\ Report(e, {<<"mk.refused", Len(e.ops) >= 2 => Done(e)>>})

Mark(e) ==
  /\ objs' = [objs EXCEPT ![e.o].mk = IF e.val THEN @ \cup {e.p} ELSE @ \ {e.p}]
  /\ UNCHANGED <<env, ro, hid, idh, sess, degen>> /\ Report(e, {<<"mark", Done(e)>>})

(* -------------------------------- proving ------------------------------ *)
\* values used by object o in a call with the given dictionary
Values(o, dict) == dict @@ o.cap @@ Get(env, o.env, Emp)

RECURSIVE AllTrue(_, _, _, _)  \* whatever branches are chosen, what is proved is true
AllTrue(st, w, mk, p) ==
  CASE st.k = "and" -> \A i \in DOMAIN st.s : AllTrue(st.s[i], w, mk, p \o "." \o ToString(i))
    [] st.k = "or" -> \A i \in DOMAIN st.s :
          LET pi == p \o "." \o ToString(i) IN
          Z!CanProve(st.s[i], w, mk, pi) => AllTrue(st.s[i], w, mk, pi)
    [] st.k = "xplain" -> AllTrue(st.inner, w, mk, p \o ".i")
    [] OTHER -> Z!Truth(st, w)

RECURSIVE ChanceInvalid(_, _)
ChanceInvalid(st, T) ==
  CASE st.k \in {"and", "or"} -> \E i \in DOMAIN st.s : ChanceInvalid(st.s[i], T.s[i])
    [] st.k = "neq" -> ~T.valid
    [] st.k \in {"xpt", "xtup"} -> ~T.valid /\ st.val \notin {"never", "argneed"}
    [] OTHER -> FALSE
RECURSIVE OtherInvalid(_, _)   \* invalid although nothing random explains it
OtherInvalid(st, T) ==
  CASE st.k \in {"and", "or"} -> \E i \in DOMAIN st.s : OtherInvalid(st.s[i], T.s[i])
    [] st.k = "neq" -> FALSE
    [] st.k \in {"xplain", "xpt", "xtup", "xdat"} -> FALSE
    [] OTHER -> ~Z!Valid(T)

HashClauses(id, h) ==
  {<<"hash.function", id \in DOMAIN idh => idh[id] = h>>,
   <<"hash.injective", h \in DOMAIN hid => hid[h] = id>>}
LearnHash(id, h) ==
  /\ hid' = IF h \in DOMAIN hid THEN hid ELSE Put(hid, h, id)
  /\ idh' = IF id \in DOMAIN idh THEN idh ELSE Put(idh, id, h)

\* conditions on what an honest prover outputs; r, c, pre are what it sent
HonestOK(o, T, w, c, r) ==
  /\ Z!IsInt(c)
  /\ Z!Shaped(T, r) /\ Z!Consistent(T, r) /\ Z!SplitOK(T, c, r)
  /\ ~OtherInvalid(o.st, T)

ProvePossible(o, w) == Z!CanProve(o.st, w, o.mk, "r")
\* What can be proved at all: every condition that does not depend on random choices
RECURSIVE DummyPre(_)   \* some precommitment of the right form, to elaborate for shape only
DummyPre(st) ==
  CASE st.k \in {"and", "or"} -> Z!Lst([i \in DOMAIN st.s |-> DummyPre(st.s[i])])
    [] st.k = "neq" -> Z!Inf(st.h1.g)
    [] st.k = "pow" -> [t |-> "D", e |-> <<<<"Cs", Z!Lst([i \in 1..st.n |-> Z!Inf(st.g.g)])>>, <<"rand", Z!MkInt(0)>>>>]
    [] st.k = "bbs" -> [t |-> "D", e |-> <<<<"A1", Z!Inf(st.g[1].g)>>, <<"A2", Z!Inf(st.g[1].g)>>>>]
    [] st.k = "xplain" -> Z!Lst(<<>>)
    [] st.k = "xpt" -> Z!Inf(st.g.g)
    [] st.k = "xtup" -> Z!Lst(<<Z!Inf(st.g.g), Z!Lst(<<>>)>>)
    [] st.k = "xdat" -> CASE st.form = "int" -> Z!MkInt(0) [] st.form = "list" -> Z!Lst(<<>>) [] st.form = "dict" -> [t |-> "D", e |-> <<>>]
                          [] st.form = "str" -> [t |-> "S", s |-> "s"] [] st.form = "bytes" -> [t |-> "S", s |-> "b"]
                          [] st.form = "dict2" -> [t |-> "D", e |-> <<<<"z", Z!MkInt(0)>>, <<"a", Z!Lst(<<Z!MkInt(0), Z!MkInt(7)>>)>>>>]
                          [] st.form = "neg" -> Z!MkInt(0) [] st.form = "huge" -> [t |-> "I", n |-> 0, l |-> [i \in 1..21 |-> IF i = 21 THEN 1 ELSE 0]]
                          [] OTHER -> Z!Lst(<<Z!Lst(<<Z!MkInt(0)>>), [t |-> "D", e |-> <<<<"k", Z!Lst(<<Z!MkInt(0), [t |-> "S", s |-> "s78"]>>)>>>>]>>)
    [] OTHER -> Z!None
Dummy(st) == Z!Elab(st, DummyPre(st), "r")

Possible(o, w) == Buildable(o.st) /\ ProvePossible(o, w) /\ Z!WellComposed(Dummy(o.st))
AfterDict(e, o) == \* values passed in a call stay assigned
  /\ objs' = [objs EXCEPT ![e.o].cap = e.dict @@ @]
  /\ env' = IF o.st.k = "dl" THEN env ELSE Put(env, o.env, e.dict @@ Get(env, o.env, Emp))

SameInput(x, y) == x.id = y.id /\ x.pre = y.pre /\ x.msg = y.msg
                   /\ (Z!Definite(x.com) /\ Z!Definite(y.com) => x.com = y.com)
\* (existential quantification over singletons makes TLC evaluate a value once)
Prove(e) ==
  \E o \in {objs[e.o]} : \E w \in {Values(o, e.dict)} :
  \E possible \in {Possible(o, w)} :
  \E T \in {IF Done(e) THEN Z!Elab(o.st, e.n.p, "r") ELSE Z!Bad} :
  LET shaped == T.k # "bad" /\ Z!IsInt(e.n.c) /\ Z!Shaped(T, e.n.r)
      true == possible /\ AllTrue(o.st, w, o.mk, "r")
  IN  /\ AfterDict(e, o)
      /\ UNCHANGED sess
      /\ IF ~Done(e)
         THEN /\ Report(e, {<<"prove.refused", ~possible>>})
              /\ UNCHANGED <<ro, hid, idh, degen>>
         ELSE IF ~shaped
         THEN /\ Report(e, {<<"prove.malformed", FALSE>>, <<"prove.produced", possible>>})
              /\ UNCHANGED <<ro, hid, idh, degen>>
         ELSE \E id \in {Z!Id(T)} :
              \E entry \in {[id |-> id, pre |-> Z!Key(e.n.p), msg |-> e.msg,
                            com |-> IF possible THEN Z!Cands(o.st, T, e.n.c, e.n.r, w, o.mk, "r") ELSE Z!PAny]} :
              \E ck \in {Z!IntKey(e.n.c)} :
              LET old == Get(ro, ck, {})
              IN /\ ro' = Put(ro, ck, old \cup {entry})
                 /\ LearnHash(id, e.n.h)
                 /\ degen' = degen + (IF true /\ ChanceInvalid(o.st, T) /\ Z!Ord(Z!Occ(T)[1].g) > 1000 THEN 1 ELSE 0)
                 /\ Report(e, HashClauses(id, e.n.h) \cup
                      {<<"prove.produced", possible>>,
                       <<"prove.dishonest", true => HonestOK(o, T, w, e.n.c, e.n.r)>>,
                       \* equal challenges only for equal inputs, and conversely
                       <<"fs.injective", \A x \in old : SameInput(x, entry)>>,
                       <<"fs.function", Z!Definite(entry.com) =>
                            \A k \in DOMAIN ro \ {ck} : \A x \in ro[k] : x # entry>>})

\* a malicious prover obtained the challenge for a commitment of its choice
Forge(e) ==
  \E o \in {objs[e.o]} : \E T \in {Z!Elab(o.st, e.pre, "r")} :
      /\ UNCHANGED <<objs, env, sess, degen>>
      /\ IF T.k = "bad" \/ ~Z!IsInt(e.c) THEN UNCHANGED <<ro, hid, idh>> /\ Report(e, {})
         ELSE \E id \in {Z!Id(T)} : \E ck \in {Z!IntKey(e.c)} :
              \E entry \in {[id |-> id, pre |-> Z!Key(e.pre), msg |-> e.msg, com |-> Z!PFix(e.com)]} :
              LET old == Get(ro, ck, {}) IN
              /\ ro' = Put(ro, ck, old \cup {entry})
              /\ LearnHash(id, e.h)
              /\ Report(e, HashClauses(id, e.h) \cup
                   {<<"fs.injective", \A x \in old : SameInput(x, entry)>>})

\* somebody computed the statement hash, for a precommitment
Hash(e) ==
  \E T \in {Z!Elab(objs[e.o].st, e.pre, "r")} :
      /\ UNCHANGED <<objs, env, ro, sess, degen>>
      /\ IF T.k = "bad" \* for malformed data: known, but belongs to no statement
         THEN /\ hid' = IF e.h \in DOMAIN hid THEN hid ELSE Put(hid, e.h, "malformed")
              /\ UNCHANGED idh /\ Report(e, {})
         ELSE \E id \in {Z!Id(T)} : LearnHash(id, e.h) /\ Report(e, HashClauses(id, e.h))

(* ------------------------------- verifying ----------------------------- *)
\* what the random oracle allows for a proof: subset of {TRUE, FALSE}
NizkVerdicts(T, n, msg) ==
  IF ~(T.k # "bad" /\ n.h \in DOMAIN hid) THEN {FALSE}
  ELSE LET id == Z!Id(T) IN
  IF hid[n.h] # id THEN {FALSE}
  ELSE IF ~Z!Admissible(T, n.c, n.r) THEN {FALSE}
  ELSE LET pk == Z!Key(n.p)
           es == {x \in Get(ro, Z!IntKey(n.c), {}) : x.id = id /\ x.pre = pk /\ x.msg = msg}
           k  == Z!Com(T, n.c, n.r)
       IN (IF \E x \in es : Z!May(x.com, k) THEN {TRUE} ELSE {}) \cup
          (IF \E x \in es : Z!Definite(x.com) /\ Z!May(x.com, k) THEN {} ELSE {FALSE})

MustBeJudged(o, T, r, pre) == T.k # "bad" /\ Z!Shaped(T, r) /\ Z!Canonical(T, r) /\ Z!CanonicalPre(o.st, pre)
Strict(e) == "strict" \in DOMAIN e /\ e.strict   \* (an argument for the hooks)
Verify(e) ==
  \E T \in {Z!With(Z!Elab(objs[e.o].st, e.n.p, "r"), Strict(e))} :
  \E vs \in {NizkVerdicts(T, e.n, e.msg)} :
      /\ UNCHANGED <<objs, env, ro, hid, idh, sess, degen>>
      /\ Report(e, {<<"verify.accepted", Accepted(e) => TRUE \in vs>>,
                    <<"verify.rejected", ~Accepted(e) /\ MustBeJudged(objs[e.o], T, e.n.r, e.n.p) => FALSE \in vs>>})

(* ------------------------------- sessions ------------------------------ *)
PCommit(e) ==
  \E o \in {objs[e.o]} : \E w \in {Values(o, e.dict)} :
  \E possible \in {Possible(o, w)} :
  \E T \in {IF Done(e) THEN Z!Elab(o.st, e.pre, "r") ELSE Z!Bad} :
  \E ok \in {Done(e) /\ T.k # "bad"} :
  \E id \in {IF ok THEN Z!Id(T) ELSE ""} :
      /\ AfterDict(e, o)
      /\ UNCHANGED <<ro, degen>>
      /\ sess' = IF ok THEN Put(sess, e.s, [o |-> e.o, T |-> T, w |-> w, com |-> e.com, mk |-> o.mk]) ELSE sess
      /\ IF ok THEN LearnHash(id, e.h) ELSE UNCHANGED <<hid, idh>>
      /\ Report(e, {<<"prove.refused", ~Done(e) => ~possible>>,
                    <<"prove.produced", Done(e) => possible>>,
                    <<"prove.malformed", Done(e) => ok>>} \cup
                   (IF ok THEN HashClauses(id, e.h) ELSE {}))

VChallenge(e) ==
  \E T \in {Z!Elab(objs[e.o].st, e.pre, "r")} :
  LET match == T.k # "bad" /\ e.h \in DOMAIN hid /\ hid[e.h] = Z!Id(T)
      malformed == T.k = "bad" /\ e.h \in DOMAIN hid /\ hid[e.h] = "malformed"
  IN  /\ UNCHANGED <<objs, env, ro, hid, idh, degen>>
      /\ sess' = IF Done(e) THEN Put(sess, e.s, [o |-> e.o, T |-> T, pre |-> e.pre, com |-> e.com, c |-> e.c]) ELSE sess
      /\ Report(e, {<<"challenge.refused", match /\ Z!CanonicalPre(objs[e.o].st, e.pre) => Done(e)>>,
                    <<"challenge.issued", Done(e) => match \/ malformed>>,
                    <<"challenge.range", Done(e) => Z!InChallengeSpace(e.c)>>})

\* the other half of the session is missing (reported when it failed), or the object was not built
Orphan(e) == UNCHANGED <<objs, env, ro, hid, idh, sess, degen>> /\ Report(e, {})
PRespond(e) ==
  IF e.s \notin DOMAIN sess THEN Orphan(e) ELSE
  LET s == sess[e.s]
      o == objs[s.o]
      shaped == Done(e) /\ Z!Shaped(s.T, e.r)
      true == AllTrue(o.st, s.w, s.mk, "r")
  IN  /\ UNCHANGED <<objs, env, ro, hid, idh, sess>>
      /\ degen' = degen + (IF true /\ ChanceInvalid(o.st, s.T) /\ Z!Ord(Z!Occ(s.T)[1].g) > 1000 THEN 1 ELSE 0)
      /\ Report(e, {<<"respond.refused", Done(e)>>,
                    <<"respond.malformed", Done(e) => shaped>>,
                    <<"respond.dishonest", shaped /\ true =>
                         HonestOK(o, s.T, s.w, e.c, e.r) /\ Z!Key(Z!Com(s.T, e.c, e.r)) = Z!Key(s.com)>>,
                    <<"respond.commitment", shaped =>
                         Z!May(Z!Cands(o.st, s.T, e.c, e.r, s.w, s.mk, "r"), s.com)>>})

VVerify(e) ==
  IF e.s \notin DOMAIN sess   \* no commitment was received, no challenge was sent
  THEN UNCHANGED <<objs, env, ro, hid, idh, sess, degen>> /\ Report(e, {<<"verify.accepted", ~Accepted(e)>>})
  ELSE
  LET s == sess[e.s]
      acc == Z!Accepts(Z!With(s.T, Strict(e)), s.com, s.c, e.r)
  IN  /\ UNCHANGED <<objs, env, ro, hid, idh, sess, degen>>
      /\ Report(e, {<<"verify.accepted", Accepted(e) => acc>>,
                    <<"verify.rejected", acc /\ MustBeJudged(objs[s.o], s.T, e.r, s.pre) => Accepted(e)>>})

(* ------------------------------ simulation ----------------------------- *)
RECURSIVE CanSimulate(_)
CanSimulate(st) == CASE st.k \in {"and", "or"} -> \A i \in DOMAIN st.s : CanSimulate(st.s[i])
                     [] st.k \in {"xpt", "xtup", "xdat"} -> st.sim
                     [] st.k = "xplain" -> CanSimulate(st.inner)
                     [] OTHER -> TRUE
TrAccepts(T, t) ==
  /\ T.k # "bad" /\ t.h \in DOMAIN hid /\ hid[t.h] = Z!Id(T)
  /\ Z!Accepts(T, t.com, t.c, t.r)
Simulate(e) ==
  \E o \in {objs[e.o]} : \E T \in {IF Done(e) THEN Z!Elab(o.st, e.tr.p, "r") ELSE Z!Bad} :
  \E ok \in {T.k # "bad"} : \E id \in {IF ok THEN Z!Id(T) ELSE ""} :
      /\ UNCHANGED <<objs, env, ro, sess>>
      /\ IF ok THEN LearnHash(id, e.tr.h) ELSE UNCHANGED <<hid, idh>>
      /\ degen' = degen + (IF ok /\ ChanceInvalid(o.st, T) /\ Z!Ord(Z!Occ(T)[1].g) > 1000 THEN 1 ELSE 0)
      /\ Report(e, {<<"sim.refused", CanSimulate(o.st) => Done(e)>>,
                    <<"sim.inconsistent", Done(e) => ok /\ (\/ ~Z!Valid(T) /\ ~OtherInvalid(o.st, T)
                          \/ (/\ Z!Admissible(T, e.tr.c, e.tr.r)
                              /\ Z!Key(Z!Com(T, e.tr.c, e.tr.r)) = Z!Key(e.tr.com)))>>,
                    <<"sim.challenge", Done(e) =>
                         /\ Z!InChallengeSpace(e.tr.c)
                         /\ e.c.t = "I" => Z!IsInt(e.tr.c) /\ Z!SameInt(e.c, e.tr.c)>>} \cup
                   (IF ok THEN HashClauses(id, e.tr.h) ELSE {}))

SimCheck(e) ==
  \E T \in {Z!Elab(objs[e.o].st, e.tr.p, "r")} : \E acc \in {TrAccepts(T, e.tr)} :
      /\ UNCHANGED <<objs, env, ro, hid, idh, sess, degen>>
      /\ Report(e, {<<"simcheck.accepted", Accepted(e) => acc>>,
                    <<"simcheck.rejected", acc /\ MustBeJudged(objs[e.o], T, e.tr.r, e.tr.p) => Accepted(e)>>})

\* an observation that the driver must have found to be equal to what it expected (e.g. that an
\* operand was not changed): the two values are compared here
Observe(e) ==
  /\ UNCHANGED <<objs, env, ro, hid, idh, sess, degen>>
  /\ Report(e, {<<e.clause, e.got = e.want>>})

(* ----------------------------- expressions ----------------------------- *)
NextExprs(e) ==
  CASE Is(e, "new") -> Emp
    [] Is(e, "term") /\ Done(e) -> Put(exprs, e.x, <<[x |-> e.s, b |-> e.b]>>)
    [] Is(e, "sum") /\ Done(e) -> Put(exprs, e.x, exprs[e.a] \o exprs[e.b])
    [] Is(e, "wsum") /\ Done(e) -> Put(exprs, e.x, [i \in DOMAIN e.ss |-> [x |-> e.ss[i], b |-> e.bs[i]]])
    [] OTHER -> exprs
Express(e) == \* building an expression always succeeds
  /\ UNCHANGED <<objs, env, ro, hid, idh, sess, degen>>
  /\ Report(e, {<<"expr.build", (e.ev = "wsum" /\ Len(e.ss) # Len(e.bs)) \/ Done(e)>>,
                <<"expr.lengths", e.ev = "wsum" /\ Len(e.ss) # Len(e.bs) => ~Done(e)>>})
Eval(e) ==
  LET x == exprs[e.x]
      w == Get(env, e.env, Emp)
      g == x[1].b.g
      known == (\A i \in DOMAIN x : x[i].b.g = g /\ x[i].x \in DOMAIN w)
  IN  /\ UNCHANGED <<objs, env, ro, hid, idh, sess, degen>>
      /\ Report(e, {<<"expr.eval", known => Done(e)>>,
                    <<"expr.value", known /\ Done(e) =>
                        /\ Z!IsPt(e.v)
                        /\ Z!Key(e.v) = Z!Key(Z!WSum(g, [i \in DOMAIN x |-> Z!Val(w, x[i].x, Z!Ord(g))],
                                                        [i \in DOMAIN x |-> x[i].b]))>>})
\* a representation built from an expression
MakeDl(e) ==
  LET x == exprs[e.x]
      st == [k |-> "dl", lhs |-> e.lhs, b |-> [i \in DOMAIN x |-> x[i].b], x |-> [i \in DOMAIN x |-> x[i].x]]
  IN  /\ objs' = IF Done(e) THEN Put(objs, e.o, [st |-> st, cap |-> Get(env, e.env, Emp), env |-> e.env, mk |-> {}]) ELSE objs
      /\ UNCHANGED <<env, ro, hid, idh, sess, degen>>
      /\ Report(e, {<<"mk.refused", Buildable(st) => Done(e)>>})
SetValues(e) == \* values given to secrets
  /\ env' = Put(env, e.env, e.vals @@ Get(env, e.env, Emp))
  /\ UNCHANGED <<objs, ro, hid, idh, sess, degen>> /\ Report(e, {})

(* --------------------------- branches in use --------------------------- *)
\* In a session whose branches are all false, the branch that the prover really proved is the one
\* whose equations fail.  Only disjunctions reached through conjunctions and branches in use.
RECURSIVE InUse(_, _, _, _, _)
InUse(T, com, c, r, p) ==
  CASE T.k = "and" -> FlattenSeq([i \in DOMAIN T.s |-> InUse(T.s[i], com.e[i], c, r.e[i], p \o "." \o ToString(i))])
    [] T.k = "or" ->
         LET us == {i \in DOMAIN T.s : Z!Key(Z!Com(T.s[i], r.e[1].e[i], r.e[2].e[i])) # Z!Key(com.e[i])}
         IN  IF Cardinality(us) # 1 THEN <<>>
             ELSE LET u == CHOOSE i \in us : TRUE
                  IN <<<<p, u>>>> \o InUse(T.s[u], com.e[u], r.e[1].e[u], r.e[2].e[u], p \o "." \o ToString(u))
    [] OTHER -> <<>>
NextUsed(e) ==
  IF Is(e, "new") THEN Emp
  ELSE IF Is(e, "presp") THEN
    IF e.s \notin DOMAIN sess \/ ~Done(e) THEN used
    ELSE LET s == sess[e.s] IN
         IF ~("w" \in DOMAIN s) \/ ~Z!Shaped(s.T, e.r) THEN used
         ELSE IF ~e.cover THEN used
         ELSE Put(used, s.o, Get(used, s.o, <<>>) \o InUse(s.T, s.com, e.c, e.r, "r"))
  ELSE used
RECURSIVE OrNodes(_, _)
OrNodes(st, p) == IF st.k \in {"and", "or"}
  THEN (IF st.k = "or" THEN {<<p, st>>} ELSE {}) \cup
       UNION {OrNodes(st.s[i], p \o "." \o ToString(i)) : i \in DOMAIN st.s}
  ELSE {}
Cover(e) ==
  LET o == objs[e.o]
      w == Values(o, Emp)
      u == Get(used, e.o, <<>>)
      elig(p, st) == {i \in DOMAIN st.s : Z!CanProve(st.s[i], w, o.mk, p \o "." \o ToString(i))}
      seen(p) == {u[i][2] : i \in {j \in DOMAIN u : u[j][1] = p}}
      visits(p) == Cardinality({j \in DOMAIN u : u[j][1] = p})
      nodes == {n \in OrNodes(o.st, "r") : visits(n[1]) >= 30 * Cardinality(elig(n[1], n[2]))}
  IN  /\ UNCHANGED <<objs, env, ro, hid, idh, sess, degen>>
      /\ Report(e, {<<"cover.used", \A n \in nodes : seen(n[1]) \subseteq elig(n[1], n[2])>>,
                    <<"cover.missed", \A n \in nodes : elig(n[1], n[2]) \subseteq seen(n[1])>>})

(* ------------------------------ signatures ----------------------------- *)
\* keys: [g |-> generators, w, hz (exponents), gt]; creators: what was committed to, last
Keys(e) == bbs["key " \o e.k]
MsgSum(key, msgs, first) == \* sum of the messages times the generators from the given one on
  LET q == Z!Ord(key.g[1].g)
  IN  Z!WSum(key.g[1].g, [i \in DOMAIN msgs |-> Z!IntMod(msgs[i], q)], [i \in DOMAIN msgs |-> key.g[first + i - 1]])
Fits(key, msgs) == Len(msgs) + 2 <= Len(key.g)
\* (w + e hz) A = hz P
Signs(key, A, e, P) == LET q == Z!Ord(A.g) IN
  Z!SamePt(Z!VMul((key.w + Z!IntMod(e, q) * key.hz) % q, A), Z!VMul(key.hz, P))
SigValid(key, sig, msgs) ==
  /\ Fits(key, msgs) /\ Z!IsPt(sig.A) /\ Z!IsInt(sig.e) /\ Z!IsInt(sig.s)
  /\ sig.A.g = key.g[1].g
  /\ LET q == Z!Ord(sig.A.g) IN
     Signs(key, sig.A, sig.e, Z!VAdd(Z!VAdd(key.g[1], Z!VMul(Z!IntMod(sig.s, q), key.g[2])), MsgSum(key, msgs, 3)))
PreValid(key, sig, com) == \* a signature of the issuer on a request
  /\ Z!IsPt(sig.A) /\ Z!IsInt(sig.e) /\ Z!IsInt(sig.s) /\ Z!IsPt(com)
  /\ sig.A.g = key.g[1].g /\ com.g = sig.A.g
  /\ LET q == Z!Ord(sig.A.g) IN
     Signs(key, sig.A, sig.e, Z!VAdd(Z!VAdd(key.g[1], Z!VMul(Z!IntMod(sig.s, q), key.g[2])), com))
\* the statement behind a blinded request with a proof of n responses
BlindStmt(key, com, n) == [k |-> "dl", lhs |-> com, b |-> [i \in 1..n |-> key.g[i + 1]], x |-> [i \in 1..n |-> "m" \o ToString(i)]]
NoSig == UNCHANGED <<objs, env, sess, degen>>
IsMultiple(P, B) == \* (B is not the identity)
  \A i, j \in 1..Z!Dim(P.g) : (P.v[i] * B.v[j]) % Z!Ord(P.g) = (P.v[j] * B.v[i]) % Z!Ord(P.g)

BbsKey(e) == NoSig /\ UNCHANGED <<ro, hid, idh>> /\
  Report(e, {<<"bbs.key", Done(e)>>,
             \* two messages must not have one generator
             <<"bbs.key.generators", \A i, j \in DOMAIN e.g : Z!Ord(e.g[i].g) > 1000 /\ Z!Dim(e.g[i].g) > 3 /\ i # j => ~Z!SamePt(e.g[i], e.g[j])>>})
BbsCommit(e) ==
  LET key == Keys(e)
      okcom == Z!IsPt(e.com) /\ e.com.g = key.g[1].g
      plain == MsgSum(key, e.msgs, 3)
      n == Len(e.msgs) + 1
      T == BlindStmt(key, e.com, n)
      proof == Done(e) /\ e.zkp /\ okcom /\ Z!IsInt(e.n.c) /\ Z!Shaped(T, e.n.r)
  IN  /\ NoSig
      /\ IF ~Fits(key, e.msgs) \/ ~Done(e)
         THEN /\ UNCHANGED <<ro, hid, idh>>
              /\ Report(e, {<<"bbs.commit", Fits(key, e.msgs) = Done(e)>>})
         ELSE IF ~proof
         THEN /\ UNCHANGED <<ro, hid, idh>>
              /\ Report(e, {<<"bbs.commit", ~e.zkp>>,
                            <<"bbs.committed", okcom /\ (~e.zkp => Z!SamePt(e.com, plain))>>,
                            <<"bbs.proofless", ~e.zkp => e.n.c.t = "N">>})
         ELSE \E id \in {Z!Id(T)} :
              LET entry == [id |-> id, pre |-> Z!Key(e.n.p), msg |-> "m", com |-> Z!PFix(Z!Com(T, e.n.c, e.n.r))]
                  ck == Z!IntKey(e.n.c)
              IN  /\ ro' = Put(ro, ck, Get(ro, ck, {}) \cup {entry})
                  /\ LearnHash(id, e.n.h)
                  /\ Report(e, {<<"bbs.committed", Z!Dim(e.com.g) > 1 => IsMultiple(Z!VSub(e.com, plain), key.g[2])>>})
BbsBlind(e) == \* the issuer's check of a request
  LET key == Keys(e)
      n == IF Z!IsLst(e.n.r) THEN Len(e.n.r.e) ELSE 0
      T == IF n >= 1 /\ n + 1 <= Len(key.g) /\ Z!IsPt(e.com) /\ e.com.g = key.g[1].g
           THEN BlindStmt(key, e.com, n) ELSE Z!Bad
      vs == NizkVerdicts(T, e.n, "m")
  IN  /\ NoSig /\ UNCHANGED <<ro, hid, idh>>
      /\ Report(e, {<<"bbs.blind.accepted", Accepted(e) => TRUE \in vs>>,
                    <<"bbs.blind.rejected", ~Accepted(e) /\ T.k # "bad" /\ Z!Shaped(T, e.n.r) /\ Z!Canonical(T, e.n.r)
                                              => FALSE \in vs>>})
\* (signing fails when the random e is the negative of the key, which is counted)
BbsSign(e) == UNCHANGED <<objs, env, sess, ro, hid, idh>> /\
  degen' = degen + (IF Done(e) THEN 0 ELSE 1) /\
  Report(e, {<<"bbs.signed", Done(e) => PreValid(Keys(e), e.sig, e.com)>>})
BbsObtain(e) ==
  LET u == Get(bbs, "user " \o e.u, Emp)
      key == Keys(e)
  IN  /\ NoSig /\ UNCHANGED <<ro, hid, idh>>
      /\ Report(e, IF u = Emp \/ ~PreValid(key, e.pre, u.com) THEN {} ELSE
            {<<"bbs.obtain", Done(e)>>,
             <<"bbs.obtained", Done(e) => SigValid(key, e.sig, u.msgs)>>})
BbsVerify(e) ==
  LET ok == SigValid(Keys(e), e.sig, e.msgs)
  IN  /\ NoSig /\ UNCHANGED <<ro, hid, idh>>
      /\ Report(e, {<<"bbs.sig.accepted", Accepted(e) => ok>>, <<"bbs.sig.rejected", ok => Accepted(e)>>})
NextBbs(e) ==
  CASE Is(e, "new") -> Emp
    [] Is(e, "bbskey") -> Put(bbs, "key " \o e.k, [g |-> e.g, w |-> e.w, hz |-> e.hz])
    [] Is(e, "bbscommit") /\ Done(e) -> Put(bbs, "user " \o e.u, [msgs |-> e.msgs, com |-> e.com])
    [] OTHER -> bbs

Next ==
  /\ l <= Len(Log) /\ Step
  /\ exprs' = NextExprs(E)
  /\ used' = NextUsed(E)
  /\ bbs' = NextBbs(E)
  /\ CASE E.ev \notin {"new", "mk", "comp", "mkdl"} /\ "o" \in DOMAIN E /\ E.o \notin DOMAIN objs -> Orphan(E)
       [] E.ev = "comp" /\ \E i \in DOMAIN E.ops : E.ops[i] \notin DOMAIN objs -> Orphan(E)
       [] E.ev = "new" -> NewScenario(E)
       [] E.ev = "mk" -> Make(E)
       [] E.ev = "mark" -> Mark(E)
       [] E.ev = "comp" -> Compose(E)
       [] E.ev = "forge" -> Forge(E)
       [] E.ev = "hash" -> Hash(E)
       [] E.ev = "prove" -> Prove(E)
       [] E.ev = "verify" -> Verify(E)
       [] E.ev = "pcom" -> PCommit(E)
       [] E.ev = "vchal" -> VChallenge(E)
       [] E.ev = "presp" -> PRespond(E)
       [] E.ev = "vver" -> VVerify(E)
       [] E.ev = "sim" -> Simulate(E)
       [] E.ev = "simchk" -> SimCheck(E)
       [] E.ev = "obs" -> Observe(E)
       [] E.ev \in {"term", "sum", "wsum"} -> Express(E)
       [] E.ev = "eval" -> Eval(E)
       [] E.ev = "mkdl" -> MakeDl(E)
       [] E.ev = "vals" -> SetValues(E)
       [] E.ev = "cover" -> Cover(E)
       [] E.ev = "bbskey" -> BbsKey(E)
       [] E.ev = "bbscommit" -> BbsCommit(E)
       [] E.ev = "bbsblind" -> BbsBlind(E)
       [] E.ev = "bbssign" -> BbsSign(E)
       [] E.ev = "bbsobtain" -> BbsObtain(E)
       [] E.ev = "bbsver" -> BbsVerify(E)
       [] OTHER -> UNCHANGED <<objs, env, ro, hid, idh, sess, degen>> /\ Report(E, {<<"trace.unknown", FALSE>>})

Spec == Init /\ [][Next]_vars

\* at the end of the trace: publish the verdict (registers survive to the postcondition)
Publish == TLCSet(1, [l |-> l, bad |-> bad, degen |-> degen])
Result == LET r == TLCGet(1) IN
  /\ PrintT(<<"ZKRESULT", ToJson([last |-> r.l, len |-> Len(Log), degen |-> r.degen,
                                   bad |-> SetToSeq(r.bad)])>>)
TraceAccepted == Result
=============================================================================
