------------------------------- MODULE Sigma -------------------------------
(***************************************************************************)
(* What the verification condition of ZkCore is worth.  The trace          *)
(* specification holds the code to ZkCore!Accepts; here TLC checks, for    *)
(* every statement of a family over a small group and a small challenge    *)
(* space and for every transcript, that this condition has the properties  *)
(* a sigma protocol has to have: completeness, special soundness (the      *)
(* witness obtained is one value for each secret of the whole statement),  *)
(* perfect zero knowledge, indifference to the branch proved; and that     *)
(* each of its parts is needed, by finding the statement that could be     *)
(* proved without a witness if the part were left out.                     *)
(***************************************************************************)
EXTENDS ZkCore, IOUtils

Q == atoi(IOEnv.ZK_Q)
D == atoi(IOEnv.ZK_D)
Fam == IOEnv.ZK_FAM
SmallBase == 2                               \* in place of ZkCore!Base
SmallLimbs == atoi(IOEnv.ZK_LIMBS)           \* challenges are 0 .. 2^SmallLimbs - 1
SmallGroups == <<[q |-> Q, d |-> D]>>

Zq == 0..(Q - 1)
Chals == 0..(TwoTo(SmallLimbs) - 1)
RECURSIVE Bits(_)
Bits(n) == IF n < 2 THEN <<n>> ELSE <<n % 2>> \o Bits(n \div 2)
I(n) == [t |-> "I", n |-> 0, l |-> Bits(n)]

(* ------------------------------ statements ----------------------------- *)
Secrets == {"x", "y"}
Bases == IF D = 1 THEN {Pt(1, <<1>>), Pt(1, <<2>>)} ELSE {Pt(1, <<1, 0>>), Pt(1, <<0, 1>>)}
Points == IF D = 1 THEN {Pt(1, <<v>>) : v \in Zq} ELSE {Pt(1, <<v, u>>) : v \in Zq, u \in Zq}
One == {DL(l, <<b>>, <<x>>) : l \in Points, b \in Bases, x \in Secrets}
Two == {DL(l, <<b, c>>, <<x, y>>) : l \in Points, b \in Bases, c \in Bases, x \in Secrets, y \in Secrets}
And2(A, B) == {[k |-> "and", s |-> <<a, b>>] : a \in A, b \in B}
Or2(A, B) == {[k |-> "or", s |-> <<a, b>>] : a \in A, b \in B}
Family == CASE Fam = "leaf" -> One \cup Two
            [] Fam = "pair" -> And2(One \cup Two, One) \cup Or2(One, One \cup Two)
            [] Fam = "or2" -> Or2(One, One)
            [] Fam = "andor" -> And2(One, Or2(One, One))
            [] Fam = "orand" -> Or2(And2(One, One), One)
            [] Fam = "oror" -> Or2(One, Or2(One, One))
            [] Fam = "or3" -> {[k |-> "or", s |-> <<a, b, c>>] : a \in One, b \in One, c \in One}
            [] Fam = "andand" -> And2(One, And2(One, One))

FamSeq == SetToSeq(Family)
Step == atoi(IOEnv.ZK_STEP)                  \* every Step-th statement
From == atoi(IOEnv.ZK_SEED) % Step
Lots == 0..15                                \* the statements in sixteen lots, for TLC's workers

VARIABLES T, bad, lot
Witnesses == [Secrets -> Zq]
Holds(w) == Truth(T, [x \in Secrets |-> I(w[x])])
True1 == \E w \in Witnesses : Holds(w)

(* ------------------------- all the transcripts ------------------------- *)
Prod2(A, B) == {<<a, b>> : a \in A, b \in B}
Seqs(Sets) == \* the sequences with one element of each of the sets
  FoldLeft(LAMBDA acc, S : {Append(s, e) : s \in acc, e \in S}, {<<>>}, Sets)
RECURSIVE Shapes(_)    \* every response of the right shape, canonical
Shapes(S) ==
  CASE S.k = "dl" -> {Lst(s) : s \in Seqs([i \in DOMAIN S.x |-> {I(n) : n \in Zq}])}
    [] S.k = "and" -> {Lst(s) : s \in Seqs([i \in DOMAIN S.s |-> Shapes(S.s[i])])}
    [] S.k = "or" -> {Lst(<<Lst(a), Lst(b)>>) : a \in Seqs([i \in DOMAIN S.s |-> {I(n) : n \in Chals}]),
                                                b \in Seqs([i \in DOMAIN S.s |-> Shapes(S.s[i])])}
Good(c) == {r \in Shapes(T) : Admissible(T, I(c), r)}

(* --------------------------- the honest prover -------------------------- *)
\* Randomness: a number for each secret of each scope, a sub-challenge for each simulated branch.
RECURSIVE Vars(_, _, _), Ors(_, _)
Vars(S, p, sp) ==
  CASE S.k = "dl" -> {<<sp, S.x[i]>> : i \in DOMAIN S.x}
    [] S.k = "and" -> UNION {Vars(S.s[i], Append(p, i), sp) : i \in DOMAIN S.s}
    [] S.k = "or" -> UNION {Vars(S.s[i], Append(p, i), Append(p, i)) : i \in DOMAIN S.s}
Ors(S, p) ==
  CASE S.k = "dl" -> {}
    [] OTHER -> (IF S.k = "or" THEN {<<p, Len(S.s)>>} ELSE {}) \cup UNION {Ors(S.s[i], Append(p, i)) : i \in DOMAIN S.s}
OrPaths == {o[1] : o \in Ors(T, <<>>)}
Arity(p) == (CHOOSE o \in Ors(T, <<>>) : o[1] = p)[2]
\* for every disjunction the branch that is proved; where it is simulated, that whose sub-challenge is derived
Plans == {ch \in [OrPaths -> 1..3] : \A p \in OrPaths : ch[p] <= Arity(p)}
Free(ch) == {<<p, i>> \in OrPaths \X (1..3) : i <= Arity(p) /\ i # ch[p]}
Residual(c, cs) == LET C == TwoTo(SmallLimbs) IN (c + C * Len(cs) - FoldLeft(LAMBDA a, b : a + b, 0, cs)) % C

RECURSIVE Run(_, _, _, _, _, _, _, _, _)
\* w: witness; real: proved (or simulated); k, s: randomness.  The response.
Run(S, p, sp, c, real, ch, w, k, s) ==
  CASE S.k = "dl" -> Lst([i \in DOMAIN S.x |-> I(IF real THEN (k[<<sp, S.x[i]>>] + c * w[S.x[i]]) % Q ELSE k[<<sp, S.x[i]>>])])
    [] S.k = "and" -> Lst([i \in DOMAIN S.s |-> Run(S.s[i], Append(p, i), sp, c, real, ch, w, k, s)])
    [] S.k = "or" ->
         LET rest == [i \in DOMAIN S.s |-> IF i = ch[p] THEN 0 ELSE s[<<p, i>>]]
             cs == [rest EXCEPT ![ch[p]] = Residual(c, rest)]
         IN  Lst(<<Lst([i \in DOMAIN S.s |-> I(cs[i])]),
                   Lst([i \in DOMAIN S.s |-> Run(S.s[i], Append(p, i), Append(p, i), cs[i], real /\ i = ch[p], ch, w, k, s)])>>)
RECURSIVE Commit(_, _, _, _, _, _, _, _, _)
\* What is committed to, before the challenge is known: the part that is proved from the nonces
\* alone, the simulated branches from their own sub-challenges.
Commit(S, p, sp, c, real, ch, w, k, s) ==
  CASE S.k = "dl" -> IF real THEN WSum(1, [i \in DOMAIN S.x |-> k[<<sp, S.x[i]>>]], S.b)
                     ELSE LeafCom(S, I(c), [i \in DOMAIN S.x |-> k[<<sp, S.x[i]>>]])
    [] S.k = "and" -> Lst([i \in DOMAIN S.s |-> Commit(S.s[i], Append(p, i), sp, c, real, ch, w, k, s)])
    [] S.k = "or" -> Lst([i \in DOMAIN S.s |->
         IF real /\ i = ch[p] THEN Commit(S.s[i], Append(p, i), Append(p, i), 0, TRUE, ch, w, k, s)
         ELSE IF real THEN Commit(S.s[i], Append(p, i), Append(p, i), s[<<p, i>>], FALSE, ch, w, k, s)
         ELSE LET rest == [j \in DOMAIN S.s |-> IF j = ch[p] THEN 0 ELSE s[<<p, j>>]]
              IN Commit(S.s[i], Append(p, i), Append(p, i), IF i = ch[p] THEN Residual(c, rest) ELSE s[<<p, i>>], FALSE, ch, w, k, s)])

RECURSIVE Chosen(_, _, _, _)   \* the branches chosen hold
Chosen(S, p, ch, w) ==
  CASE S.k = "dl" -> Truth(S, [x \in Secrets |-> I(w[x])])
    [] S.k = "and" -> \A i \in DOMAIN S.s : Chosen(S.s[i], Append(p, i), ch, w)
    [] S.k = "or" -> Chosen(S.s[ch[p]], Append(p, ch[p]), ch, w)

Ks == [Vars(T, <<>>, <<>>) -> Zq]
Composed == WellComposed(T)
Nobody == [x \in Secrets |-> 0]

\* The table of all accepted transcripts: for each challenge the responses that are admissible,
\* with the commitment each of them goes with.
Table == [c \in Chals |-> {<<r, Key(Com(T, I(c), r))>> : r \in Good(c)}]

\* The transcripts of a prover (of the simulator), one for each value of his randomness.
Runs(c, real, ch, w) == [ks \in Ks \X [Free(ch) -> Chals] |->
   <<Run(T, <<>>, <<>>, c, real, ch, w, ks[1], ks[2]), Key(Commit(T, <<>>, <<>>, c, real, ch, w, ks[1], ks[2]))>>]
Provers == {<<ch, w>> \in Plans \X Witnesses : Chosen(T, <<>>, ch, w)}
\* Every honest execution of a true statement is accepted.
Complete(tab) == Composed => \A z \in Provers : \A c \in Chals :
  LET runs == Runs(c, TRUE, z[1], z[2]) IN \A y \in DOMAIN runs : runs[y] \in tab[c]
\* For every challenge the transcripts of the honest prover are distributed uniformly over all those
\* that are accepted, whatever the witness and the branch; so are those of the simulator.
Uniform(tab, c, runs) ==
  LET image == {runs[z] : z \in DOMAIN runs}
  IN  image = tab[c] /\ Cardinality(image) = Cardinality(DOMAIN runs)
ZeroKnowledge(tab) == Composed => \A c \in Chals :
  /\ \A ch \in Plans : Uniform(tab, c, Runs(c, FALSE, ch, Nobody))
  /\ \A z \in Provers : Uniform(tab, c, Runs(c, TRUE, z[1], z[2]))

\* Whoever can answer two challenges for one commitment holds values that make the statement true:
\* without them at most one challenge can be answered.  `ok` stands for the condition on responses.
Sound(tab) == (Composed /\ ~True1) =>
  \E coms \in {[c \in Chals |-> {z[2] : z \in tab[c]}]} : \A c1, c2 \in Chals : c1 < c2 => coms[c1] \cap coms[c2] = {}
\* and the witness follows from the two responses
Inv(a) == CHOOSE b \in Zq : (a * b) % Q = 1
Num(x) == IntMod(x, Q)
RECURSIVE Extracted(_, _, _, _, _)   \* sets of <<scope's secret, value>>, or a refusal
Extracted(S, c1, r1, c2, r2) ==      \* some scope-wise witness results
  LET quo(a, b) == ((Num(a) + Q - Num(b)) * Inv((IntMod(c1, Q) + Q - IntMod(c2, Q)) % Q)) % Q IN
  CASE S.k = "dl" -> SamePt(S.lhs, WSum(1, [i \in DOMAIN S.x |-> quo(r1.e[i], r2.e[i])], S.b))
    [] S.k = "and" -> \A i \in DOMAIN S.s : Extracted(S.s[i], c1, r1.e[i], c2, r2.e[i])
    [] S.k = "or" -> LET diff == {i \in DOMAIN S.s : ~SameInt(r1.e[1].e[i], r2.e[1].e[i])} IN
         diff # {} /\ \A i \in diff : Extracted(S.s[i], r1.e[1].e[i], r1.e[2].e[i], r2.e[1].e[i], r2.e[2].e[i])
Extraction(tab) == \A c1, c2 \in Chals : c1 < c2 =>
  \A z1 \in tab[c1] : \A z2 \in tab[c2] : z1[2] = z2[2] => Extracted(T, I(c1), z1[1], I(c2), z2[1])

(* --------------------------- nothing is idle --------------------------- *)
\* Statements for which someone without a witness could answer every challenge if a condition were missing.
Wider(c) == {r \in Shapes(T) : Shaped(T, r)}
\* sub-challenges that are only right modulo the challenge space
RECURSIVE Far(_)
Far(S) ==
  CASE S.k = "dl" -> {Lst(s) : s \in Seqs([i \in DOMAIN S.x |-> {I(n) : n \in Zq}])}
    [] S.k = "and" -> {Lst(s) : s \in Seqs([i \in DOMAIN S.s |-> Far(S.s[i])])}
    [] S.k = "or" -> {Lst(<<Lst(a), Lst(b)>>) : a \in Seqs([i \in DOMAIN S.s |-> {I(n) : n \in 0..(Q * TwoTo(SmallLimbs))}]),
                                                b \in Seqs([i \in DOMAIN S.s |-> Far(S.s[i])])}
RECURSIVE Long(_)   \* one sub-challenge too many
Long(S) ==
  CASE S.k = "or" -> {Lst(<<Lst(a), Lst(b)>>) : a \in Seqs([i \in 1..(Len(S.s) + 1) |-> {I(n) : n \in Chals}]),
                                                b \in Seqs([i \in DOMAIN S.s |-> Shapes(S.s[i])])}
    [] OTHER -> Shapes(S)
RECURSIVE Sums(_, _, _)
Sums(S, c, r) == CASE S.k = "or" -> SumModC(r.e[1].e) = SumModC(<<c>>) /\ \A i \in DOMAIN S.s : Sums(S.s[i], r.e[1].e[i], r.e[2].e[i])
                   [] S.k = "and" -> \A i \in DOMAIN S.s : Sums(S.s[i], c, r.e[i])
                   [] OTHER -> TRUE
\* all challenges answered for one commitment
Full(coms) == \E m \in {[c \in Chals |-> {Key(Com(T, I(c), r)) : r \in coms[c]}]} : \E z \in m[0] : \A c \in Chals : z \in m[c]
Forged(what) ==
  CASE what = "consistency" -> Composed /\ Full([c \in Chals |-> {r \in Shapes(T) : SplitOK(T, I(c), r)}])
    [] what = "sum" -> Composed /\ Full([c \in Chals |-> {r \in Shapes(T) : Consistent(T, r)}])
    [] what = "range" -> Composed /\ Full([c \in Chals |-> {r \in Far(T) : Consistent(T, r) /\ Sums(T, I(c), r)}])
    [] what = "count" -> Composed /\ Full([c \in Chals |-> {r \in Long(T) : Consistent(T, r) /\ Sums(T, I(c), r)}])
    [] what = "composition" -> ~Composed /\ Full([c \in Chals |-> Good(c)])
Without == IOEnv.ZK_WITHOUT                  \* "" or the condition left out

Failed(tab) == {x \in {"complete", "zk", "sound", "extract"} :
                 ~(CASE x = "complete" -> Complete(tab) [] x = "zk" -> ZeroKnowledge(tab)
                     [] x = "sound" -> Sound(tab) [] x = "extract" -> Extraction(tab))}
Init == lot \in Lots /\ T = <<>> /\ bad = {}
Choose == T = <<>> /\ lot' = lot /\ bad' = {}
          /\ \E j \in {i \in DOMAIN FamSeq : i % Step = From /\ (i \div Step) % 16 = lot} : T' = FamSeq[j]
Check == T # <<>> /\ lot >= 0 /\ lot' = -1 /\ T' = T
         /\ IF Without = "" THEN \E tab \in {Table} : bad' = Failed(tab)
            ELSE bad' = IF ~True1 /\ Forged(Without) THEN {"forged"} ELSE {}
Next == Choose \/ Check
Spec == Init /\ [][Next]_<<T, bad, lot>>

Correct == bad = {}
ASSUME TLCSet(7, 0)
Count == bad = {} \/ (TLCSet(7, 1) /\ TLCSet("exit", TRUE))
Needed == TLCGet(7) > 0 \/ Print(<<"nothing is lost without", Without>>, FALSE)
=============================================================================
