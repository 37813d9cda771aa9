-------------------------------- MODULE ZkPair --------------------------------
(***************************************************************************)
(* The three groups of a pairing.  A point is a group and the polynomial   *)
(* that is its discrete logarithm: its variables stand for two random      *)
(* scalars of the size of the order and for the unknown logarithms of two  *)
(* points that were hashed to.  Two points are equal exactly if their      *)
(* polynomials are (the real groups have the same polynomials evaluated at *)
(* random values modulo the order of 254 bits, so that this fails with     *)
(* probability at most 2^-240).                                            *)
(*   ZK_MODE = "gen"    writes random programs of operations               *)
(*   ZK_MODE = "check"  validates what the real code returned for them     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Mode == IOEnv.ZK_MODE
N == atoi(IOEnv.ZK_N)          \* programs
L == atoi(IOEnv.ZK_L)          \* operations of each

(* ----------------------------- polynomials ----------------------------- *)
\* functions from monomials (exponents of the variables r, s, h, k) to non-zero integers
One == <<0, 0, 0, 0>>
VarR == <<1, 0, 0, 0>>
VarS == <<0, 1, 0, 0>>
VarH == <<0, 0, 1, 0>>
VarK == <<0, 0, 0, 1>>
PZero == [m \in {} |-> 0]
PMono(m, c) == IF c = 0 THEN PZero ELSE [x \in {m} |-> c]
C(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
PAdd(p, q) == LET f(m) == C(p, m) + C(q, m)
              IN [m \in {x \in (DOMAIN p \cup DOMAIN q) : f(x) # 0} |-> f(m)]
PScale(k, p) == IF k = 0 THEN PZero ELSE [m \in DOMAIN p |-> k * p[m]]
MMul(a, b) == [i \in 1..4 |-> a[i] + b[i]]
PMul(p, q) == FoldLeft(LAMBDA acc, a : PAdd(acc, [m \in {MMul(a, b) : b \in DOMAIN q} |->
                         p[a] * q[CHOOSE b \in DOMAIN q : MMul(a, b) = m]]), PZero, SetToSeq(DOMAIN p))
PSub(p, q) == PAdd(p, PScale(-1, q))
Deg(p) == LET ds == {m[1] + m[2] + m[3] + m[4] : m \in DOMAIN p} IN IF ds = {} THEN 0 ELSE CHOOSE d \in ds : \A e \in ds : e <= d
Small(p) == \A m \in DOMAIN p : p[m] < 20000 /\ p[m] > -20000
\* scalars: a + b r + c s + e q, where q is the order of the groups
Scal(k) == PAdd(PMono(One, k.a), PAdd(PMono(VarR, k.b), PMono(VarS, k.c)))

(* ------------------------------ operations ----------------------------- *)
\* regs: sequence of points [g, p]; the result of every operation is a new one
Pnt(g, p) == [g |-> g, p |-> p]
None == Pnt(0, PZero)     \* no result: the operation is refused
WSum(g, ks, as, regs) == FoldLeft(LAMBDA acc, i : PAdd(acc, PMul(Scal(ks[i]), regs[as[i]].p)), PZero, [i \in 1..Len(as) |-> i])
Apply(o, regs) ==
  CASE o.op = "gen" -> Pnt(o.g, PMono(One, 1))
    [] o.op = "inf" -> Pnt(o.g, PZero)
    [] o.op = "hash" -> Pnt(1, PMono(IF o.i = 1 THEN VarH ELSE VarK, 1))
    [] o.op \in {"add", "iadd"} -> Pnt(regs[o.x].g, PAdd(regs[o.x].p, regs[o.y].p))
    [] o.op \in {"sub", "isub"} -> Pnt(regs[o.x].g, PSub(regs[o.x].p, regs[o.y].p))
    [] o.op \in {"lmul", "rmul", "imul"} -> Pnt(regs[o.x].g, PMul(Scal(o.k), regs[o.x].p))
    [] o.op = "sum" -> Pnt(o.g, FoldLeft(LAMBDA acc, a : PAdd(acc, regs[a].p), PZero, o.as))
    [] o.op = "wsum" -> IF Len(o.ks) # Len(o.as) THEN None ELSE Pnt(o.g, WSum(o.g, o.ks, o.as, regs))
    [] o.op = "pair" -> Pnt(3, PMul(regs[o.x].p, regs[o.y].p))
    \* the pairing of two points that exist only for this operation
    [] o.op = "tpair" -> Pnt(3, PMul(PMul(Scal(o.k), regs[o.x].p), PMul(Scal(o.k2), regs[o.y].p)))
    [] o.op \in {"code", "copy"} -> regs[o.x]
    \* a series of operations on points that exist for a moment only, added up
    [] o.op = "series" ->
         LET one(k) == LET t == PMul(Scal(k), regs[o.x].p) IN
               CASE o.what = "pl" -> PMul(t, regs[o.y].p)
                 [] o.what = "pr" -> PMul(regs[o.y].p, t)
                 [] o.what = "code" -> t
                 [] o.what = "mul" -> PScale(3, t)
                 [] o.what = "sub" -> PSub(regs[o.x].p, t)
                 [] o.what = "wsum" -> PScale(2, t)
                 [] OTHER -> PAdd(t, t)
         IN Pnt(IF o.what \in {"pl", "pr"} THEN 3 ELSE regs[o.x].g, FoldLeft(LAMBDA acc, k : PAdd(acc, one(k)), PZero, o.ks))
    [] OTHER -> None

(* ------------------------------ generation ----------------------------- *)
R(S) == RandomElement(S)
Chance(pct) == R(1..100) <= pct
RScal(d_) == TLCEval([a |-> R({-3, -2, -1, 0, 0, 1, 2, 3, 7, 100}), b |-> IF Chance(25) THEN R({-2, -1, 1, 2}) ELSE 0,
             c |-> IF Chance(20) THEN R({-1, 1}) ELSE 0, e |-> IF Chance(30) THEN R({-2, -1, 1, 3}) ELSE 0, bn |-> Chance(50)])
Recent(n) == IF n > 14 THEN (n - 13)..n ELSE 1..n
In(regs, g) == {i \in Recent(Len(regs)) : regs[i].g = g}
Draws(S, n) == [i \in 1..n |-> R(S)]
RandomOp(regs) ==
  LET kind == TLCEval(R(1..32))
      g == TLCEval(R(1..3))
      S == In(regs, g)
      S1 == In(regs, 1)  S2 == In(regs, 2)
      x == TLCEval(IF S = {} THEN 0 ELSE R(S))  y == TLCEval(IF S = {} THEN 0 ELSE R(S))
      n == TLCEval(R(0..4))
      inst == R(1..2)
  IN CASE kind = 1 \/ S = {} -> [op |-> "gen", g |-> g, inst |-> inst]
       [] kind = 2 -> [op |-> "inf", g |-> g, inst |-> inst]
       [] kind = 3 -> [op |-> "hash", i |-> R(1..2), inst |-> inst]
       [] kind \in 4..6 -> [op |-> "add", x |-> x, y |-> y]
       [] kind \in 7..9 -> [op |-> "sub", x |-> x, y |-> y]
       [] kind = 10 -> [op |-> R({"iadd", "isub"}), x |-> x, y |-> y]
       [] kind \in 11..15 -> [op |-> R({"lmul", "rmul", "rmul", "imul"}), x |-> x, k |-> RScal(0)]
       [] kind \in 16..17 -> [op |-> "sum", g |-> g, inst |-> inst, as |-> Draws(S, n), it |-> R({"list", "tuple", "gen"})]
       [] kind \in 18..20 -> [op |-> "wsum", g |-> g, inst |-> inst, as |-> Draws(S, n), it |-> R({"list", "tuple"}),
                              ks |-> [i \in 1..(IF Chance(15) THEN n + 1 ELSE IF Chance(10) /\ n > 0 THEN n - 1 ELSE n) |-> RScal(0)]]
       [] kind \in 21..23 /\ S1 # {} /\ S2 # {} -> [op |-> "pair", x |-> R(S1), y |-> R(S2)]
       [] kind \in 24..25 /\ S1 # {} /\ S2 # {} -> [op |-> "tpair", x |-> R(S1), y |-> R(S2), k |-> RScal(0), k2 |-> RScal(0)]
       [] kind \in 27..28 /\ S1 # {} /\ S2 # {} -> [op |-> "series", what |-> "pl", x |-> R(S1), y |-> R(S2), ks |-> [i \in 1..R(2..4) |-> RScal(0)]]
       [] kind \in 29..30 /\ S1 # {} /\ S2 # {} -> [op |-> "series", what |-> "pr", x |-> R(S2), y |-> R(S1), ks |-> [i \in 1..R(2..4) |-> RScal(0)]]
       [] kind = 31 -> [op |-> "series", what |-> R({"code", "mul", "sub", "wsum", "sum"}), x |-> x, y |-> x, ks |-> [i \in 1..R(2..4) |-> RScal(0)]]
       [] kind = 26 -> [op |-> R({"copy", "code"}), x |-> x]
       [] OTHER -> [op |-> "code", x |-> x]

VARIABLES l, regs, cur, progs, bad
vars == <<l, regs, cur, progs, bad>>
Ok(o) == \E r \in {Apply(o, regs)} : r.g = 0 \/ (Deg(r.p) <= 4 /\ Small(r.p) /\ Cardinality(DOMAIN r.p) <= 14)
GInit == l = 0 /\ regs = <<>> /\ cur = <<>> /\ progs = <<>> /\ bad = {}
GNext ==
  /\ Len(progs) < N
  /\ l' = l + 1 /\ bad' = bad
  /\ IF Len(cur) = L
     THEN /\ progs' = Append(progs, cur) /\ cur' = <<>> /\ regs' = <<>>
     ELSE \E o \in {TLCEval(RandomOp(regs))} :
          /\ progs' = progs
          /\ IF Ok(o) THEN regs' = Append(regs, Apply(o, regs)) /\ cur' = Append(cur, o) ELSE UNCHANGED <<regs, cur>>

(* ------------------------------- checking ------------------------------ *)
Trace == IF Mode = "check" THEN JsonDeserialize(IOEnv.ZK_TRACE) ELSE <<>>
\* events: new | step (o: the operation, out, key: what the point is exported as, rep: its text,
\* eq: the earlier points it is equal to, grp: the group it says it belongs to)
\* end (keys, eqs: the same for all points, at the end)
CInit == l = 1 /\ regs = <<>> /\ cur = <<>> /\ progs = <<>> /\ bad = {}
Report(cl) == bad' = bad \cup {<<c[1], l>> : c \in {x \in cl : ~x[2]}}
Same(a, b) == a.g = b.g /\ a.p = b.p
CStep(e) ==
  \E r \in {Apply(e.o, regs)} :
    /\ regs' = Append(regs, r)
    /\ cur' = Append(cur, [key |-> e.key, rep |-> e.rep])
    /\ IF r.g = 0
       THEN Report({<<"pair.accepted", e.out = "E">>})
       ELSE Report({<<"pair.refused", e.out = "ok">>} \cup
              (IF e.out # "ok" THEN {} ELSE
                {<<"pair.group", e.grp = r.g>>,
                 <<"pair.equal", \A i \in DOMAIN regs : regs[i].g = r.g => (Same(regs[i], r) <=> i \in {e.eq[j] : j \in DOMAIN e.eq})>>,
                 <<"pair.unequal", \A i \in DOMAIN regs : regs[i].g = r.g => (Same(regs[i], r) <=> i \notin {e.ne[j] : j \in DOMAIN e.ne})>>,
                 <<"pair.export", \A i \in DOMAIN regs : regs[i].g = r.g => (Same(regs[i], r) <=> cur[i].key = e.key)>>,
                 <<"pair.text", \A i \in DOMAIN regs : regs[i].g # 0 => (Same(regs[i], r) <=> cur[i].rep = e.rep)>>}))
CEnd(e) ==
  /\ UNCHANGED <<regs, cur>>
  /\ Report({<<"pair.changed", \A i \in DOMAIN regs : regs[i].g # 0 => e.keys[i] = cur[i].key>>,
             <<"pair.equal", \A i \in DOMAIN regs : \A j \in DOMAIN regs :
                   regs[i].g = regs[j].g /\ regs[i].g # 0 => (Same(regs[i], regs[j]) <=> e.eqs[i][j] = 1)>>})
CNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1 /\ UNCHANGED progs
  /\ \E e \in {Trace[l]} :
       CASE e.ev = "new" -> regs' = <<>> /\ cur' = <<>> /\ bad' = bad
         [] e.ev = "step" -> CStep(e)
         [] OTHER -> CEnd(e)

Init == IF Mode = "gen" THEN GInit ELSE CInit
Next == IF Mode = "gen" THEN GNext ELSE CNext
Spec == Init /\ [][Next]_vars
Kept == TLCSet(1, [progs |-> progs, bad |-> bad, l |-> l]) /\ TRUE
Done == IF Mode = "gen" THEN JsonSerialize(IOEnv.ZK_OUT, TLCGet(1).progs)
        ELSE PrintT(<<"ZKRESULT", ToJson([bad |-> SetToSeq({<<b[1], b[2], "">> : b \in TLCGet(1).bad}), last |-> TLCGet(1).l, len |-> Len(Trace)])>>)
==============================================================================
