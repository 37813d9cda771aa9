------------------------------ MODULE ZkRand ------------------------------
(***************************************************************************)
(* The randomness of proofs.  Samples of one statement (proofs by the real *)
(* code on transparent groups of a large order, made by the same and by    *)
(* different objects, processes and histories) are consumed one by one.    *)
(*                                                                         *)
(* mode "nonce": what the commitment is made of.  A commitment coordinate  *)
(* is a linear form in the nonces, identified by <<scope, secret>>, where  *)
(* a scope is a conjunction (every branch of a disjunction opens one).     *)
(* Equal forms of one proof have one value; everything else is fresh.      *)
(* mode "or": the transcripts of a disjunction, for every branch that the  *)
(* prover may know.  Shapes, equalities and distributions are the same.    *)
(* mode "chal": the challenges of interactive verifiers.                   *)
(* mode "issue": requests for signatures, their proofs, signatures, keys.  *)
(*                                                                         *)
(* Numbers are sequences of 32 bytes, least significant first; the zero    *)
(* coordinates of points are empty sequences.  q = 2^256 - delta.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt, FiniteSetsExt

In == JsonDeserialize(IOEnv.ZK_TRACE)
Hd == In[1]
Mode == Hd.mode
Samples == SubSeq(In, 2, Len(In))
Delta(g) == Hd.deltas[g]
Dim == Hd.dim

(* --------------------------- numbers modulo q -------------------------- *)
Zero == [i \in 1..32 |-> 0]
One == [i \in 1..32 |-> IF i = 1 THEN 1 ELSE 0]
RECURSIVE Carry(_, _, _, _)
Carry(v, i, cy, acc) ==
  IF i > 32 THEN <<acc, cy>>
  ELSE LET t == v[i] + cy IN Carry(v, i + 1, t \div 256, Append(acc, t % 256))
\* 2^256 - delta, in bytes (delta < 65536)
Modulus(g) == [i \in 1..32 |-> LET d == Delta(g) IN
  CASE i = 1 -> (256 - (d % 256)) % 256
    [] i = 2 -> (255 - d \div 256 + (IF (d % 256) = 0 THEN 1 ELSE 0)) % 256
    [] OTHER -> 255]
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less(a, b, i - 1)
Below(a, b) == Less(a, b, 32)
RECURSIVE Fold(_, _)
Fold(v, g) ==
  LET r == Carry(v, 1, 0, <<>>) IN
  IF r[2] # 0 THEN Fold([r[1] EXCEPT ![1] = @ + r[2] * Delta(g)], g)
  ELSE IF Below(r[1], Modulus(g)) THEN r[1]
       ELSE Fold([i \in 1..32 |-> r[1][i] - Modulus(g)[i]], g)
Num(v) == IF v = <<>> THEN Zero ELSE v
Add(a, b, g) == Fold([i \in 1..32 |-> a[i] + b[i]], g)
Sub(a, b, g) == Fold([i \in 1..32 |-> a[i] - b[i]], g)
RECURSIVE Top(_, _)
Top(a, i) == IF i = 0 THEN 0 ELSE IF a[i] # 0 THEN i ELSE Top(a, i - 1)
RECURSIVE Dot(_, _, _, _, _)
Dot(a, b, i, hi, k) == IF i > hi THEN 0 ELSE a[i] * b[k - i] + Dot(a, b, i + 1, hi, k)
Hi2(a, b) == IF a > b THEN a ELSE b
Lo2(a, b) == IF a < b THEN a ELSE b
Mul(a, b, g) ==
  LET n == Top(a, 32)  m == Top(b, 32)
      col(k) == Dot(a, b, Hi2(1, k - m), Lo2(n, k - 1), k)   \* weight 256^(k-2)
  IN  IF n = 0 \/ m = 0 THEN Zero
      ELSE IF a = One THEN b ELSE IF b = One THEN a
      ELSE Fold([i \in 1..32 |-> col(i + 1) + Delta(g) * col(i + 33)], g)
Small(k) == [i \in 1..32 |-> IF i = 1 THEN k ELSE 0]

(* ------------------------- points (vectors) ---------------------------- *)
VAdd(P, Q, g) == [i \in 1..Dim |-> IF P[i] = <<>> THEN Q[i] ELSE IF Q[i] = <<>> THEN P[i] ELSE
                   LET s == Add(P[i], Q[i], g) IN IF s = Zero THEN <<>> ELSE s]
VMul(k, P, g) == [i \in 1..Dim |-> IF P[i] = <<>> THEN <<>> ELSE
                   LET s == Mul(k, P[i], g) IN IF s = Zero THEN <<>> ELSE s]
VNeg(P, g) == [i \in 1..Dim |-> IF P[i] = <<>> THEN <<>> ELSE Sub(Zero, P[i], g)]
Inf == [i \in 1..Dim |-> <<>>]

(* ------------- the representations that a proof is made of ------------- *)
Leaf(g, lhs, b, x, sc, p, c, r) == <<[g |-> g, lhs |-> lhs, b |-> b, x |-> x, sc |-> sc, p |-> p, c |-> c, r |-> r]>>
None == [t |-> "N"]
PreAt(pre, i) == IF pre.t = "N" THEN None ELSE pre.e[i]
Key(d, k) == LET i == CHOOSE j \in DOMAIN d.e : d.e[j][1] = k IN d.e[i][2]
Loc(p, n) == n \o "@" \o p
Dot2(p, i) == p \o "." \o ToString(i)

RECURSIVE NumBits(_)
NumBits(n) == IF n = 0 THEN 0 ELSE 1 + NumBits(n \div 2)
RECURSIVE TwoTo(_)
TwoTo(n) == IF n = 0 THEN 1 ELSE 2 * TwoTo(n - 1)

\* r is the tree of responses; its numbers have field l
RECURSIVE Leaves(_, _, _, _, _, _)
PowLeaves(st, pre, c, r, p, sc) ==
  LET Cs == Key(pre, "Cs").e
      g == st.g.g
      bit(i, rr) == LET q == p \o ".b" \o ToString(i) IN
         Leaf(g, Cs[i].v, <<st.h.v>>, <<Loc(p, "r" \o ToString(i))>>, q \o ".1", q \o ".1", rr.e[1].e[1].l, rr.e[2].e[1])
         \o Leaf(g, VAdd(Cs[i].v, VNeg(st.g.v, g), g), <<st.h.v>>, <<Loc(p, "r" \o ToString(i))>>, q \o ".2", q \o ".2",
                 rr.e[1].e[2].l, rr.e[2].e[2])
  IN  IF st.n = 1 THEN bit(1, r) ELSE FlattenSeq([i \in 1..st.n |-> bit(i, r.e[i])])
BbsLeaves(st, pre, c, r, p, sc) ==
  LET L == Len(st.x)  g == st.g[1].g
      A1 == Key(pre, "A1").v  A2 == Key(pre, "A2").v
      g1 == st.g[2].v  g2 == st.g[3].v
      loc(n) == Loc(p, n)
      d1 == Leaf(g, A1, <<g1, g2>>, <<loc("r1"), loc("r2")>>, sc, p \o ".1", c, r.e[1])
      d2 == Leaf(g, Inf, <<g1, g2, VNeg(A1, g)>>, <<loc("d1"), loc("d2"), st.x[1]>>, sc, p \o ".2", c, r.e[2])
      d3 == Leaf(st.gt, VAdd(VMul(st.w, A2, g), VNeg(VMul(st.hz, st.g[1].v, g), g), g),
                 <<VNeg(VMul(st.hz, A2, g), g), VMul(st.w, g2, g), VMul(st.hz, g2, g)>>
                   \o [i \in 1..(L - 1) |-> VMul(st.hz, st.g[i + 1].v, g)],
                 <<st.x[1], loc("r1"), loc("d1")>> \o SubSeq(st.x, 2, L), sc, p \o ".3", c, r.e[3])
  IN  d1 \o d2 \o d3
RngParts(st) ==
  LET g == st.com.g
      n == LET m == NumBits(st.b - st.a - 1) IN IF m = 0 THEN 1 ELSE m
      off == TwoTo(n) - (st.b - st.a)
      c1 == VAdd(st.com.v, VNeg(VMul(Small(st.a), st.g.v, g), g), g)
      c2 == VAdd(c1, VMul(Small(off), st.g.v, g), g)
      pw(cc) == [k |-> "pow", com |-> [g |-> g, v |-> cc], g |-> st.g, h |-> st.h, n |-> n, x |-> st.x, r |-> st.r]
  IN  <<[k |-> "dl", lhs |-> st.com, b |-> <<st.g, st.h>>, x |-> <<st.x, st.r>>], pw(c1), pw(c2)>>
Leaves(st, pre, c, r, p, sc) ==
  CASE st.k = "dl" -> Leaf(st.lhs.g, st.lhs.v, [i \in DOMAIN st.b |-> st.b[i].v], st.x, sc, p, c, r)
    [] st.k = "and" -> FlattenSeq([i \in DOMAIN st.s |-> Leaves(st.s[i], PreAt(pre, i), c, r.e[i], Dot2(p, i), sc)])
    [] st.k = "rng" -> LET s == RngParts(st) IN
         FlattenSeq([i \in 1..3 |-> Leaves(s[i], PreAt(pre, i), c, r.e[i], Dot2(p, i), sc)])
    [] st.k = "or" -> FlattenSeq([i \in DOMAIN st.s |->
         Leaves(st.s[i], PreAt(pre, i), r.e[1].e[i].l, r.e[2].e[i], Dot2(p, i), Dot2(p, i))])
    [] st.k = "neq" ->
         Leaf(st.h0.g, Inf, <<st.h0.v, st.H0.v>>, <<Loc(p, "a"), Loc(p, "b")>>, sc, p \o ".1", c, r.e[1])
         \o Leaf(st.h1.g, pre.v, <<st.h1.v, st.H1.v>>, <<Loc(p, "a"), Loc(p, "b")>>, sc, p \o ".2", c, r.e[2])
         \o (IF st.bind THEN Leaf(st.h0.g, st.H0.v, <<st.h0.v>>, <<st.x>>, sc, p \o ".3", c, r.e[3]) ELSE <<>>)
    [] st.k = "pow" -> PowLeaves(st, pre, c, r, p, sc)
    [] st.k = "bbs" -> BbsLeaves(st, pre, c, r, p, sc)
    [] st.k = "xplain" -> Leaves(st.inner, None, c, r, p \o ".i", sc)
    [] st.k = "xpt" -> Leaf(st.g.g, pre.v, <<st.g.v, st.h.v>>, <<st.x, Loc(p, "t")>>, sc, p, c, r)
    [] st.k = "xtup" -> LET P == pre.e[1].v IN
         Leaf(st.g.g, P, <<st.g.v, st.h.v>>, <<st.x, Loc(p, "t")>>, sc, p \o ".1", c, r.e[1])
         \o Leaf(st.g.g, P, <<st.h.v, st.g.v>>, <<Loc(p, "t"), st.x>>, sc, p \o ".2", c, r.e[2])

\* a coordinate of the commitment: the form it is in the nonces, and its value
RECURSIVE Acc(_, _, _, _, _)
Acc(lf, j, i, v, hasr) ==
  IF i > Len(lf.x) THEN v
  ELSE Acc(lf, j, i + 1, IF lf.b[i][j] = <<>> THEN v ELSE Add(v, Mul(lf.r.e[i].l, lf.b[i][j], lf.g), lf.g), hasr)
\* terms of a form are collected by nonce
FormAt(lf, j) ==
  LET ids == {i \in DOMAIN lf.x : lf.b[i][j] # <<>>}
      names == {lf.x[i] : i \in ids}
      RECURSIVE S(_, _)
      S(T, v) == IF T = {} THEN v ELSE LET i == CHOOSE k \in T : TRUE IN S(T \ {i}, Add(v, lf.b[i][j], lf.g))
  IN  {<<lf.sc, n, S({i \in ids : lf.x[i] = n}, Zero)>> : n \in names}
\* the nonces of secrets are the same numbers in all groups of one order
Entries(leaves) == FlattenSeq([k \in DOMAIN leaves |->
  LET lf == leaves[k]
      js == SelectSeq([j \in 1..Dim |-> j], LAMBDA j : \E i \in DOMAIN lf.x : lf.b[i][j] # <<>>)
      val(j) == LET s == Acc(lf, j, 1, Zero, TRUE)
                IN IF lf.lhs[j] = <<>> THEN s ELSE Sub(s, Mul(lf.c, lf.lhs[j], lf.g), lf.g)
  IN  [m \in DOMAIN js |-> [key |-> lf.p \o "/" \o ToString(js[m]), form |-> {t \in FormAt(lf, js[m]) : t[3] # Zero},
                            g |-> lf.g, val |-> val(js[m])]]])

\* where coordinates mix secrets of known values, the nonces follow from the responses
Singles(leaves, known) == FlattenSeq([k \in DOMAIN leaves |->
  LET lf == leaves[k]
      value(n) == LET i == CHOOSE j \in DOMAIN known : known[j][1] = n IN known[i][2]
  IN  [i \in DOMAIN lf.x |-> [key |-> lf.p \o "/" \o lf.x[i], form |-> {<<lf.sc, lf.x[i], One>>}, g |-> lf.g,
                              val |-> Sub(lf.r.e[i].l, Mul(lf.c, value(lf.x[i]), lf.g), lf.g)]]])

(* ------------------ the randomness of precommitments ------------------- *)
PreEntry(p, what, g, v) == IF v = <<>> THEN <<>> ELSE
  <<[key |-> p \o "/" \o what, form |-> {<<"pre", p, what>>}, g |-> g, val |-> v]>>
UnitOf(P) == CHOOSE j \in 1..Dim : P[j] # <<>>
Coords(p, what, P, g, js) == FlattenSeq([j \in 1..Dim |-> IF j \in js THEN PreEntry(p, what \o ToString(j), g, P[j]) ELSE <<>>])
RECURSIVE PreEntries(_, _, _)
PreEntries(st, pre, p) ==
  CASE st.k \in {"and", "or"} -> FlattenSeq([i \in DOMAIN st.s |-> PreEntries(st.s[i], PreAt(pre, i), Dot2(p, i))])
    [] st.k = "rng" -> PreEntries(RngParts(st)[2], PreAt(pre, 2), Dot2(p, 2)) \o PreEntries(RngParts(st)[3], PreAt(pre, 3), Dot2(p, 3))
    [] st.k = "neq" -> Coords(p, "W", pre.v, pre.g, 1..Dim)
    [] st.k = "pow" -> LET Cs == Key(pre, "Cs").e IN
         FlattenSeq([i \in DOMAIN Cs |-> Coords(p, "C" \o ToString(i) \o ":", Cs[i].v, st.g.g, {UnitOf(st.h.v)})])
    [] st.k = "bbs" ->
         LET js == {1, UnitOf(st.g[2].v), UnitOf(st.g[3].v)} IN
         Coords(p, "A1:", Key(pre, "A1").v, st.g[1].g, js)
         \o Coords(p, "A2:", Key(pre, "A2").v, st.g[1].g, {1, UnitOf(st.g[3].v)})
    [] st.k = "xpt" -> Coords(p, "P", pre.v, st.g.g, {UnitOf(st.h.v)})
    [] st.k = "xtup" -> Coords(p, "P", pre.e[1].v, st.g.g, {UnitOf(st.h.v)})
    [] OTHER -> <<>>

\* sub-challenges of disjunctions are random, except that they add up
RECURSIVE SubChals(_, _, _)
SubChals(st, r, p) ==
  CASE st.k = "and" -> FlattenSeq([i \in DOMAIN st.s |-> SubChals(st.s[i], r.e[i], Dot2(p, i))])
    [] st.k = "or" -> FlattenSeq([i \in DOMAIN st.s |-> <<r.e[1].e[i].l>> \o SubChals(st.s[i], r.e[2].e[i], Dot2(p, i))])
    [] OTHER -> <<>>

(* ---------------------------- transcripts ------------------------------ *)
\* the leaves of a value: <<path, class, numbers>>
RECURSIVE Flat(_, _)
Flat(x, p) ==
  CASE x.t = "L" -> FlattenSeq([i \in DOMAIN x.e |-> Flat(x.e[i], Dot2(p, i))])
    [] x.t = "D" -> FlattenSeq([i \in DOMAIN x.e |-> Flat(x.e[i][2], p \o "." \o x.e[i][1])])
    [] x.t = "I" -> <<[p |-> p, l |-> x.l, o |-> x.o]>>
    [] x.t = "P" -> [j \in 1..Dim |-> [p |-> p \o "/" \o ToString(j), l |-> Num(x.v[j]), o |-> 0]]
    [] OTHER -> <<>>
RECURSIVE Shape(_)
Shape(x) ==
  CASE x.t = "L" -> <<"L", x.c, [i \in DOMAIN x.e |-> Shape(x.e[i])]>>
    [] x.t = "D" -> <<"D", x.c, [i \in DOMAIN x.e |-> <<x.e[i][1], Shape(x.e[i][2])>>]>>
    [] x.t = "I" -> <<"I", x.c, ToString(x.n)>>
    [] x.t = "P" -> <<"P", x.c, ToString(x.g), ToString(\A j \in 1..Dim : x.v[j] = <<>>)>>
    [] x.t = "N" -> <<"N">>
    [] OTHER -> <<x.t, x.s>>

(* ------------------------------ the state ------------------------------ *)
VARIABLES l,      \* samples consumed
          acc,    \* mode nonce, chal: key -> sequence of numbers;  or: config -> sequence of leaf sequences
          vals,   \* numbers seen
          shapes, \* mode nonce: <<key, form, group>>;  or: <<kind, shape, configuration>> seen
          bad
vars == <<l, acc, vals, shapes, bad>>
Emp == [x \in {} |-> 0]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
RECURSIVE PutAll(_, _, _)
PutAll(f, es, i) == IF i > Len(es) THEN f
  ELSE PutAll(Put(f, es[i].key, Append(Get(f, es[i].key, <<>>), es[i].val)), es, i + 1)
Viol(s) == {<<x[1], x[2]>> : x \in {y \in s : ~y[3]}}

Init == l = 0 /\ acc = Emp /\ vals = {} /\ shapes = {} /\ bad = {}

\* nonces --------------------------------------------------------------
Judge(es, r, st, tag) ==
  LET fv == {<<e.form, e.g, e.val>> : e \in Range(es)}
      forms == {e.form : e \in Range(es)}
      vs == {e.val : e \in Range(es)}
      sub == SubChals(st, r, "r")
  IN  \* groups of different orders do not share secrets
      /\ bad' = bad \cup Viol({
           <<"rand.split", tag, Cardinality({<<x[1], x[3]>> : x \in fv}) = Cardinality(forms)>>,
           <<"rand.shared", tag, Cardinality(vs) = Cardinality(forms) >>,
           <<"rand.repeated", tag, vs \cap vals = {} /\ Range(sub) \cap vals = {}>>,
           <<"rand.subchallenges", tag, Cardinality(Range(sub)) = Len(sub)>>})
      /\ vals' = vals \cup vs \cup Range(sub)
      /\ acc' = PutAll(acc, es, 1)
      /\ shapes' = shapes \cup {<<e.key, e.form, e.g>> : e \in Range(es)}
Nonce(s) ==
  \E lv \in {Leaves(s.st, s.pre, s.c.l, s.r, "r", "r")} :
  \E es \in {Entries(lv) \o (IF s.known = <<>> THEN <<>> ELSE Singles(lv, s.known)) \o PreEntries(s.st, s.pre, "r")} :
     Judge(es, s.r, s.st, s.tag)
\* issuance: the blinding factor, the nonces of the proof of a request, the issuer's numbers and keys
Issue(s) ==
  LET g == s.g[1].g
      n == Len(s.msgs)
      name(i) == IF i = 1 THEN "s" ELSE "m" \o ToString(i - 1)
      u(i) == UnitOf(s.g[i + 1].v)
      new(what, v) == <<[key |-> what, form |-> {<<"issue", what, One>>}, g |-> g, val |-> v]>>
      lf == Leaf(g, s.com.v, [i \in 1..(n + 1) |-> s.g[i + 1].v], [i \in 1..(n + 1) |-> name(i)], "r", "r", s.c.l, s.r)
      request == IF s.com.t = "N" THEN <<>> ELSE Entries(lf) \o new("blinding", Num(s.com.v[u(1)]))
      signed == IF s.e.t = "N" THEN <<>> ELSE new("e", s.e.l) \o new("s2", s.s.l)
      keyed == IF s.w.t = "N" THEN <<>> ELSE new("w", Num(s.w.v[1]))
  IN  /\ \E es \in {request \o signed \o keyed} : 
            LET vs == {e.val : e \in Range(es)} IN
            /\ bad' = bad \cup Viol({
                 <<"rand.shared", s.tag, Cardinality(vs) = Len(es)>>,
                 <<"rand.repeated", s.tag, vs \cap vals = {}>>,
                 <<"rand.request", s.tag, s.com.t # "N" => \A i \in 1..n : Num(s.com.v[u(i + 1)]) = s.msgs[i]>>})
            /\ vals' = vals \cup vs
            /\ acc' = PutAll(acc, es, 1)
            /\ shapes' = shapes \cup {<<e.key, e.form, e.g>> : e \in Range(es)}
Chal(s) ==
  /\ bad' = bad \cup Viol({<<"chal.repeated", s.tag, s.c.l \notin vals>>,
                           <<"chal.range", s.tag, s.c.n = 0 /\ Top(s.c.l, 32) <= 16>>})
  /\ vals' = vals \cup {s.c.l}
  /\ acc' = Put(Put(acc, "all", Append(Get(acc, "all", <<>>), s.c.l)), s.who, Append(Get(acc, s.who, <<>>), s.c.l))
  /\ UNCHANGED shapes
Or(s) ==
  /\ acc' = Put(acc, <<s.kind, s.config>>, Append(Get(acc, <<s.kind, s.config>>, <<>>), Flat(s.v, "r")))
  /\ shapes' = shapes \cup {<<s.kind, Shape(s.v), s.config>>}
  /\ UNCHANGED <<vals, bad>>

(* -------------------------- what is fresh looks fresh ------------------ *)
Ones(seq, i) ==
  LET j == ((i - 1) \div 8) + 1
      m == TwoTo((i - 1) % 8)
  IN  FoldLeft(LAMBDA n, v : n + ((v[j] \div m) % 2), 0, seq)
\* bounds for a fair coin, supplied for each number of tosses
Fair(n, k) == LET b == Hd.fair[n + 1] IN k >= b /\ n - k >= b
Enough(n) == n >= Hd.least
Bits(n) == {b \in Range(Hd.bits) : b <= n}  \* the bits that are counted
Uniform(seq, bits) == \A i \in Bits(bits) : Fair(Len(seq), Ones(seq, i))
\* the four highest bits of all numbers together
Pool(keys, f, top) == FlattenSeq(SetToSeq({[k \in DOMAIN f[x] |-> f[x][k][top] \div 16] : x \in keys}))
Spread(p) == \* chi square with 15 degrees of freedom, at most 100
  LET n == Len(p)
      cnt == [v \in 0..15 |-> Quantify(DOMAIN p, LAMBDA k : p[k] = v)]
      sq == FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [v \in 0..15 |-> cnt[v] * cnt[v]], 0..15)
  IN  n < 200 \/ 16 * sq - n * n <= 100 * n
Diffs(a, b, m, g) == [k \in 1..Lo2(Len(a), Len(b)) |-> Sub(b[k], Mul(Small(m), a[k], g), g)]
AllDistinct(seq) == Cardinality(Range(seq)) = Len(seq)
Constant(seq) == Cardinality(Range(seq)) <= 1
Lag(seq, g) == [k \in 1..(Len(seq) - 1) |-> Sub(seq[k + 1], seq[k], g)]
NonceEnd ==
  LET keys == {k \in DOMAIN acc : Enough(Len(acc[k]))}
      some == LET s == SetToSeq(keys) IN Range(SubSeq(s, 1, Lo2(Len(s), Hd.pairs)))
      \* (relations of two numbers: they are not multiples of each other by what they are, unless equal)
      related(a, b, m) == a # b /\ acc[a] # acc[b] /\ ~AllDistinct(Diffs(SubSeq(acc[a], 1, 8), SubSeq(acc[b], 1, 8), m, 1))
      neg(a, b) == a # b /\ acc[a] # acc[b] /\
                   ~AllDistinct([k \in 1..Lo2(8, Lo2(Len(acc[a]), Len(acc[b]))) |-> Add(acc[a][k], acc[b][k], 1)])
      \* nonces of different secrets: none is the same affine function of another one in three proofs
      single(k) == \E x \in shapes : x[1] = k /\ Cardinality(x[2]) = 1 /\ \A t \in x[2] : t[1] # "pre"
      nonce(k) == LET x == CHOOSE y \in shapes : y[1] = k IN LET t == CHOOSE u \in x[2] : TRUE IN <<x[3], t[1], t[2]>>
      singles == LET s == SetToSeq({k \in keys : single(k)}) IN Range(SubSeq(s, 1, Lo2(Len(s), Hd.pairs)))
      affine(a, b) == /\ nonce(a) # nonce(b) /\ Delta(nonce(a)[1]) = Delta(nonce(b)[1])
                      /\ nonce(a)[2] # nonce(b)[2] \/ nonce(a)[3] # nonce(b)[3]
                      /\ LET g == nonce(a)[1]
                             da == Lag(SubSeq(acc[a], 1, Lo2(12, Len(acc[a]))), g)
                             db == Lag(SubSeq(acc[b], 1, Lo2(12, Len(acc[b]))), g)
                         IN \E i \in 1..(Lo2(Len(da), Len(db)) - 1) : Mul(da[i], db[i + 1], g) = Mul(da[i + 1], db[i], g)
  IN  UNION {
       {<<"rand.affine", a>> : a \in {x \in singles : \E b \in singles : affine(x, b)}},
       Viol({<<"rand.uniform", k, Uniform(acc[k], 256)>> : k \in keys}),
       Viol({<<"rand.sequence", k, AllDistinct(Lag(acc[k], 1))>> : k \in keys}),
       Viol({<<"rand.spread", "all", Spread(Pool(DOMAIN acc, acc, 32))>>}),
       {<<"rand.related", a>> : a \in {x \in some : \E b \in some, m \in {1, 2, 3} : related(x, b, m)}},
       {<<"rand.opposite", a>> : a \in {x \in some : \E b \in some : neg(x, b)}}}
ChalEnd ==
  UNION {Viol({<<"chal.uniform", k, Enough(Len(acc[k])) => Uniform(acc[k], 128)>> : k \in DOMAIN acc}),
         Viol({<<"chal.sequence", k, AllDistinct(Lag(acc[k], 1))>> : k \in DOMAIN acc}),
         Viol({<<"chal.spread", "all", Spread(Pool({"all"}, acc, 16))>>})}

\* the classes of the bits of one position, in one configuration
BitClass(seq, i) == LET o == Ones(seq, i) n == Len(seq) IN
  CASE o = 0 -> "0" [] o = n -> "1" [] Fair(n, o) -> "~" [] OTHER -> "?"
At(c, i) == [k \in DOMAIN acc[c] |-> acc[c][k][i].l]
OrEnd ==
  LET kinds == {x[1] : x \in shapes}
      confs(k) == {c \in DOMAIN acc : c[1] = k}
      shaped(k) == Cardinality({x[2] : x \in {y \in shapes : y[1] = k}}) = 1
      npos(c) == Len(acc[c][1])
      fixed(s) == Constant(s) /\ Top(s[1], 32) <= 1
      classes(c) == [i \in 1..npos(c) |-> LET s == At(c, i) IN [b \in Bits(256) |-> BitClass(s, b)]]
      same(c) == {<<i, j>> \in (1..npos(c)) \X (1..npos(c)) : i < j /\ \A k \in DOMAIN acc[c] : acc[c][k][i].l = acc[c][k][j].l}
      offset(c) == {<<i, j>> \in (1..npos(c)) \X (1..npos(c)) : i < j /\
            LET d(k) == [b \in 1..32 |-> acc[c][k][i].l[b] - acc[c][k][j].l[b]] IN
            \A k \in 1..Lo2(6, Len(acc[c])) : d(k) = d(1)}
  IN  UNION {
       {<<"or.shape", k>> : k \in {x \in kinds : ~shaped(x)}},
       UNION {
         LET cs == confs(k)
             \* numbers that do not fit into 32 bytes
             large == [c \in cs |-> [i \in 1..npos(c) |-> {acc[c][j][i].o : j \in DOMAIN acc[c]}]]
             cls == [c \in cs |-> classes(c)]
             eqs == [c \in cs |-> same(c)]
             ofs == [c \in cs |-> offset(c)]
             c0 == CHOOSE c \in cs : TRUE
         IN  Viol({<<"or.equalities", k, \A c \in cs : eqs[c] = eqs[c0]>>,
                   <<"or.size", k, \A c \in cs : large[c] = large[c0]>>,
                   <<"or.offsets", k, \A c \in cs : ofs[c] = ofs[c0]>>,
                   <<"or.distribution", k, \A c \in cs : cls[c] = cls[c0]>>}
               \cup {<<"or.uniform", k \o " " \o c[2], \A i \in DOMAIN cls[c] :
                          fixed(At(c, i)) \/ \A b \in Bits(128) : cls[c][i][b] = "~">> : c \in cs}
               \cup {<<"or.range", k \o " " \o c[2], \A i \in DOMAIN cls[c] : \A b \in Bits(256) : cls[c][i][b] # "?">> : c \in cs}
               \cup {<<"or.repeated", k \o " " \o c[2], \A i \in DOMAIN cls[c] :
                          fixed(At(c, i)) \/ AllDistinct(At(c, i))>> : c \in cs})
         : k \in {x \in kinds : shaped(x)}}}

Done == l = Len(Samples) + 1
Next ==
  /\ l <= Len(Samples)
  /\ l' = l + 1
  /\ IF l = Len(Samples)
     THEN /\ bad' = bad \cup (CASE Mode \in {"nonce", "issue"} -> NonceEnd [] Mode = "chal" -> ChalEnd [] OTHER -> OrEnd)
          /\ UNCHANGED <<acc, vals, shapes>>
     ELSE LET s == Samples[l + 1] IN
          CASE Mode = "nonce" -> Nonce(s) [] Mode = "issue" -> Issue(s) [] Mode = "chal" -> Chal(s) [] OTHER -> Or(s)
Spec == Init /\ [][Next]_vars
Publish == TLCSet(1, [l |-> l, bad |-> bad, nv |-> Cardinality(vals), keys |-> Cardinality(DOMAIN acc)])
Result == LET r == TLCGet(1) IN
  PrintT(<<"ZKRESULT", ToJson([last |-> r.l, len |-> Len(Samples), degen |-> 0, values |-> r.nv, keys |-> r.keys,
                               bad |-> SetToSeq({<<x[1], 0, x[2]>> : x \in r.bad})])>>)
=============================================================================
