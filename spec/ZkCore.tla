------------------------------- MODULE ZkCore -------------------------------
(***************************************************************************)
(* The algebra of zksk's sigma protocols: statements, transcripts and the  *)
(* conditions under which a verifier accepts, written as operators over    *)
(* the same statement trees and tagged values that the drivers record from *)
(* the real code.  Nothing here refers to how the Python code is written.  *)
(*                                                                         *)
(* Groups are transparent: an element of group number g is a vector over   *)
(* Z_q, [t |-> "P", g |-> g, v |-> <<..>>].  Unbounded integers (challenges*)
(* responses, secrets) are [t |-> "I", n |-> 0/1 (negative), l |-> limbs], *)
(* little-endian limbs in base 2^16, so that both residues mod q and mod   *)
(* 2^128 are computed here, exactly.  Other values: [t |-> "L", e |-> seq],*)
(* [t |-> "D", e |-> seq of <<key string, value>>], [t |-> "S", s |-> ..], *)
(* [t |-> "N"] (None) and [t |-> "U"] (anything else).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT Groups,   \* sequence of [q |-> order, d |-> dimension]
         CLimbs    \* the challenge space is [0, 2^(16*CLimbs))

Base == 65536
Ord(g) == Groups[g].q
Dim(g) == Groups[g].d
NumGroups == Len(Groups)

None == [t |-> "N"]
Unk  == [t |-> "U"]
Lst(s) == [t |-> "L", e |-> s]
Pt(g, v) == [t |-> "P", g |-> g, v |-> v]
MkInt(n) == IF n >= 0
          THEN [t |-> "I", n |-> 0, l |-> IF n < Base THEN <<n>> ELSE <<n % Base, n \div Base>>]
          ELSE [t |-> "I", n |-> 1, l |-> IF -n < Base THEN <<-n>> ELSE <<(-n) % Base, (-n) \div Base>>]

IsInt(x) == x.t = "I"
IsPt(x)  == x.t = "P"
IsLst(x) == x.t = "L"

(* ----------------------------- integers ------------------------------- *)
\* residue of an unbounded integer; needs q <= 32749 (32-bit arithmetic)
IntMod(x, q) ==
  LET m == FoldRight(LAMBDA limb, acc : (acc * Base + limb) % q, x.l, 0)
  IN  IF x.n = 1 THEN (q - m) % q ELSE m

Limb(x, i) == IF i <= Len(x.l) THEN x.l[i] ELSE 0
SLimb(x, i) == IF x.n = 1 THEN -Limb(x, i) ELSE Limb(x, i)

\* the low CLimbs limbs of the sum of a sequence of integers
RECURSIVE SumLimbs(_, _, _)
SumLimbs(xs, i, carry) ==
  IF i > CLimbs THEN <<>>
  ELSE LET s == FoldSeq(LAMBDA x, acc : acc + SLimb(x, i), carry, xs)
       IN  <<s % Base>> \o SumLimbs(xs, i + 1, s \div Base)
SumModC(xs) == SumLimbs(xs, 1, 0)

InChallengeSpace(x) ==
  /\ IsInt(x)
  /\ \A i \in DOMAIN x.l : i > CLimbs => x.l[i] = 0
  /\ x.n = 1 => \A i \in DOMAIN x.l : x.l[i] = 0
SameInt(x, y) ==
  LET n == IF Len(x.l) > Len(y.l) THEN Len(x.l) ELSE Len(y.l)
  IN \A i \in 1..n : SLimb(x, i) = SLimb(y, i)
IntKey(x) == \* canonical: equal integers have equal keys
  LET top == {i \in DOMAIN x.l : x.l[i] # 0}
      n   == IF top = {} THEN 0 ELSE CHOOSE i \in top : \A j \in top : j <= i
  IN  ToString(<<IF n = 0 THEN 0 ELSE x.n, SubSeq(x.l, 1, n)>>)

(* ------------------------------ vectors ------------------------------- *)
Inf(g) == Pt(g, [i \in 1..Dim(g) |-> 0])
VAdd(a, b) == Pt(a.g, [i \in 1..Dim(a.g) |-> (a.v[i] + b.v[i]) % Ord(a.g)])
VMul(k, a) == Pt(a.g, [i \in 1..Dim(a.g) |-> ((k % Ord(a.g)) * a.v[i]) % Ord(a.g)])
VSub(a, b) == VAdd(a, VMul(-1, b))
SamePt(a, b) == a.g = b.g /\ \A i \in 1..Dim(a.g) : a.v[i] = b.v[i]
WSum(g, ks, pts) ==
  Pt(g, [i \in 1..Dim(g) |->
     FoldLeft(LAMBDA acc, j : (acc + ks[j] * pts[j].v[i]) % Ord(g), 0, [j \in 1..Len(ks) |-> j])])
Pow2(n, q) == FoldLeft(LAMBDA acc, j : (acc * 2) % q, 1 % q, [j \in 1..n |-> j])

\* canonical string of any tagged value
RECURSIVE Key(_)
Key(x) == CASE x.t = "I" -> IntKey(x)
            [] x.t = "P" -> ToString(<<"P", x.g, x.v>>)
            [] x.t = "L" -> ToString(<<"L", [i \in DOMAIN x.e |-> Key(x.e[i])]>>)
            [] x.t = "D" -> ToString(<<"D", [i \in DOMAIN x.e |-> <<x.e[i][1], Key(x.e[i][2])>>]>>)
            [] x.t = "S" -> ToString(<<"S", x.s>>)
            [] OTHER -> x.t

DHas(x, f) == x.t = "D" /\ \E i \in DOMAIN x.e : x.e[i][1] = f
DGet(x, f) == x.e[CHOOSE i \in DOMAIN x.e : x.e[i][1] = f][2]

(* ---------------------------- statements ------------------------------ *)
(* As written by the user:                                                *)
(*  dl   lhs, b (bases), x (secret names)     and/or   s (operands)       *)
(*  neq  H0 h0 H1 h1 x bind                   pow      com g h n x r      *)
(*  rng  com g h a b x r                      bbs      g, w, x (e,s,m..)  *)
(*  xplain cls inner ; xpt cls g h x val ; xtup cls g h x                 *)
(*  xdat cls g h P x form val                                             *)
(* Elaborated (all precommitments known): dl, and, or, and                *)
(*  x    cls pre inner valid                  bad                         *)
Bad == [k |-> "bad"]
IsExt(st) == st.k \in {"neq", "pow", "bbs", "xplain", "xpt", "xtup", "xdat"}

RECURSIVE NumBits(_)
NumBits(n) == IF n = 0 THEN 0 ELSE 1 + NumBits(n \div 2)
Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE TwoTo(_)
TwoTo(n) == IF n = 0 THEN 1 ELSE 2 * TwoTo(n - 1)

\* RangeStmt is a conjunction of an opening proof and two power-of-two ranges
RngBits(a, b) == Max2(1, NumBits(Abs(b - a - 1)))
RngOffset(a, b) == TwoTo(RngBits(a, b)) - (b - a)
RngParts(st) ==
  LET n   == RngBits(st.a, st.b)
      c1  == VSub(st.com, VMul(st.a, st.g))
      c2  == VAdd(c1, VMul(RngOffset(st.a, st.b), st.g))
  IN  <<[k |-> "dl", lhs |-> st.com, b |-> <<st.g, st.h>>, x |-> <<st.x, st.r>>],
        [k |-> "pow", com |-> c1, g |-> st.g, h |-> st.h, n |-> n, x |-> st.x, r |-> st.r, sh |-> -st.a],
        [k |-> "pow", com |-> c2, g |-> st.g, h |-> st.h, n |-> n, x |-> st.x, r |-> st.r,
                       sh |-> RngOffset(st.a, st.b) - st.a]>>

RECURSIVE Desugar(_)
Desugar(st) ==
  CASE st.k = "rng" -> [k |-> "and", s |-> RngParts(st)]
    [] st.k \in {"and", "or"} -> [k |-> st.k, s |-> [i \in DOMAIN st.s |-> Desugar(st.s[i])]]
    [] st.k = "xplain" -> [st EXCEPT !.inner = Desugar(st.inner)]
    [] OTHER -> st

DL(lhs, b, x) == [k |-> "dl", lhs |-> lhs, b |-> b, x |-> x]
DLOK(t) == \A i \in DOMAIN t.b : t.b[i].g = t.b[1].g

Loc(p, n) == n \o "@" \o p      \* internal secret of the primitive at path p

NeqInner(st, pre, p) ==
  LET d1 == DL(Inf(st.h0.g), <<st.h0, st.H0>>, <<Loc(p, "a"), Loc(p, "b")>>)
      d2 == DL(pre, <<st.h1, st.H1>>, <<Loc(p, "a"), Loc(p, "b")>>)
      d3 == DL(st.H0, <<st.h0>>, <<st.x>>)
  IN  [k |-> "and", s |-> IF st.bind THEN <<d1, d2, d3>> ELSE <<d1, d2>>]

PowBit(st, C, r) ==
  [k |-> "or", s |-> <<DL(C, <<st.h>>, <<r>>), DL(VSub(C, st.g), <<st.h>>, <<r>>)>>]
PowInner(st, Cs, p) ==
  LET bits == [i \in 1..st.n |-> PowBit(st, Cs[i], Loc(p, "r" \o ToString(i)))]
  IN  IF st.n = 1 THEN bits[1] ELSE [k |-> "and", s |-> bits]
PowShape(st, pre) ==
  /\ DHas(pre, "Cs") /\ DHas(pre, "rand")
  /\ IsLst(DGet(pre, "Cs")) /\ IsInt(DGet(pre, "rand"))
  /\ Len(DGet(pre, "Cs").e) >= st.n
  /\ \A i \in DOMAIN DGet(pre, "Cs").e :
        IsPt(DGet(pre, "Cs").e[i]) /\ DGet(pre, "Cs").e[i].g = st.g.g
PowValid(st, pre) ==
  LET Cs == DGet(pre, "Cs").e
      q  == Ord(st.g.g)
      comb == WSum(st.g.g, [i \in DOMAIN Cs |-> Pow2(i - 1, q)], Cs)
  IN  /\ Len(Cs) = st.n
      /\ SamePt(comb, VAdd(st.com, VMul(IntMod(DGet(pre, "rand"), q), st.h)))

\* pairing of a G1 vector with a G2 exponent, in the target group numbered gt
Pair(P, w, gt) == Pt(gt, [i \in 1..Dim(gt) |-> (P.v[i] * w) % Ord(gt)])
BbsInner(st, A1, A2, p) ==
  LET L  == Len(st.x)                  \* e, s and the messages
      g1 == st.g[2]  g2 == st.g[3]  gt == st.gt
      loc(n) == Loc(p, n)
      d1 == DL(A1, <<g1, g2>>, <<loc("r1"), loc("r2")>>)
      d2 == DL(Inf(g1.g), <<g1, g2, VMul(-1, A1)>>, <<loc("d1"), loc("d2"), st.x[1]>>)
      d3 == DL(VSub(Pair(A2, st.w, gt), Pair(st.g[1], st.hz, gt)),
               <<VMul(-1, Pair(A2, st.hz, gt)), Pair(g2, st.w, gt), Pair(g2, st.hz, gt)>>
                 \o [i \in 1..(L - 1) |-> Pair(st.g[i + 1], st.hz, gt)],
               <<st.x[1], loc("r1"), loc("d1")>> \o SubSeq(st.x, 2, L))
  IN  [k |-> "and", s |-> <<d1, d2, d3>>]

Wrap(cls, pre, inner, valid) == [k |-> "x", cls |-> cls, pre |-> pre, inner |-> inner, valid |-> valid, val |-> "ok"]
\* a user-defined primitive; its hook may depend on arguments of the verification, absent here
UWrap(st, pre, inner, valid) == [Wrap(st.cls, pre, inner, valid /\ st.val \notin {"never", "argneed"}) EXCEPT !.val = st.val]
\* ... and given here
RECURSIVE With(_, _)
With(T, strict) ==
  IF ~strict THEN T
  ELSE CASE T.k = "x" -> IF T.val \in {"arg", "argneed"} THEN [T EXCEPT !.valid = T.val = "argneed"] ELSE T
         [] T.k \in {"and", "or"} -> [T EXCEPT !.s = [i \in DOMAIN T.s |-> With(T.s[i], strict)]]
         [] OTHER -> T

\* fixed verdicts of the validation hook of the user-defined primitive
CustomValid(st, P) ==
  CASE st.val = "ok" -> TRUE
    [] st.val = "never" -> FALSE
    [] st.val = "notinf" -> ~SamePt(P, Inf(P.g))
    [] st.val = "even" -> P.v[Dim(P.g)] % 2 = 0
    [] OTHER -> TRUE

(* A primitive whose precommitment is a small number, written down in one of many forms, among *)
(* them the empty ones.                                                                        *)
SmallOf(x) == IF IsInt(x) THEN (IF x.n = 0 /\ x.l[1] < 3 /\ \A i \in DOMAIN x.l : i > 1 => x.l[i] = 0 THEN x.l[1] ELSE -1) ELSE -1
DatNum(form, pre) ==   \* -1: malformed
  CASE form = "int" -> SmallOf(pre)
    [] form = "list" -> IF IsLst(pre) /\ Len(pre.e) < 3 /\ \A i \in DOMAIN pre.e : IsInt(pre.e[i]) /\ IntKey(pre.e[i]) = IntKey(MkInt(7))
                        THEN Len(pre.e) ELSE -1
    [] form = "dict" -> IF pre.t # "D" THEN -1
                        ELSE IF Len(pre.e) = 0 THEN 0
                        ELSE IF Len(pre.e) = 1 /\ pre.e[1][1] = "n" /\ SmallOf(pre.e[1][2]) > 0 THEN SmallOf(pre.e[1][2]) ELSE -1
    [] form = "dict2" -> IF pre.t = "D" /\ Len(pre.e) = 2 /\ pre.e[1][1] = "z" /\ pre.e[2][1] = "a" /\ IsLst(pre.e[2][2])
                            /\ Len(pre.e[2][2].e) = 2 /\ SmallOf(pre.e[1][2]) = SmallOf(pre.e[2][2].e[1])
                            /\ IsInt(pre.e[2][2].e[2]) /\ IntKey(pre.e[2][2].e[2]) = IntKey(MkInt(7))
                         THEN SmallOf(pre.e[1][2]) ELSE -1
    [] form = "neg" -> IF IsInt(pre) THEN SmallOf([pre EXCEPT !.n = IF @ = 1 \/ IntKey(pre) = IntKey(MkInt(0)) THEN 0 ELSE 1]) ELSE -1
    [] form = "huge" -> IF IsInt(pre) /\ Len(pre.l) = 21 /\ pre.l[21] = 1 THEN SmallOf([pre EXCEPT !.l[21] = 0]) ELSE -1
    [] form = "str" -> IF pre.t = "S" THEN (CASE pre.s = "s" -> 0 [] pre.s = "s61" -> 1 [] pre.s = "s6161" -> 2 [] OTHER -> -1) ELSE -1
    [] form = "bytes" -> IF pre.t = "S" THEN (CASE pre.s = "b" -> 0 [] pre.s = "b00" -> 1 [] pre.s = "b0000" -> 2 [] OTHER -> -1) ELSE -1
    [] form = "nest" -> IF IsLst(pre) /\ Len(pre.e) = 2 /\ IsLst(pre.e[1]) /\ Len(pre.e[1].e) = 1 /\ DHas(pre.e[2], "k") /\ Len(pre.e[2].e) = 1
                           /\ IsLst(DGet(pre.e[2], "k")) /\ Len(DGet(pre.e[2], "k").e) = 2
                           /\ SmallOf(DGet(pre.e[2], "k").e[1]) = SmallOf(pre.e[1].e[1])
                           /\ DGet(pre.e[2], "k").e[2].t = "S" /\ DGet(pre.e[2], "k").e[2].s = "s78"
                        THEN SmallOf(pre.e[1].e[1]) ELSE -1
    [] OTHER -> -1

RECURSIVE Elab(_, _, _)
Elab(st, pre, p) ==
  CASE st.k = "dl" -> IF DLOK(st) THEN DL(st.lhs, st.b, st.x) ELSE Bad
    [] st.k \in {"and", "or"} ->
         IF ~(pre.t = "N" \/ (IsLst(pre) /\ Len(pre.e) >= Len(st.s))) THEN Bad
         ELSE LET subs == [i \in DOMAIN st.s |->
                             Elab(st.s[i], IF pre.t = "N" THEN None ELSE pre.e[i], p \o "." \o ToString(i))]
              IN  IF \E i \in DOMAIN subs : subs[i].k = "bad" THEN Bad
                  ELSE [k |-> st.k, s |-> subs]
    [] st.k = "neq" ->
         IF ~IsPt(pre) THEN Bad
         ELSE IF pre.g # st.h1.g \/ st.h0.g # st.H0.g \/ st.h1.g # st.H1.g THEN Bad
         ELSE Wrap("neq", pre, NeqInner(st, pre, p), ~SamePt(pre, Inf(st.h0.g)))
    [] st.k = "pow" ->
         IF ~PowShape(st, pre) THEN Bad
         ELSE Wrap("pow", pre, PowInner(st, DGet(pre, "Cs").e, p), PowValid(st, pre))
    [] st.k = "bbs" ->
         IF ~(DHas(pre, "A1") /\ DHas(pre, "A2")) THEN Bad
         ELSE LET A1 == DGet(pre, "A1")  A2 == DGet(pre, "A2")
              IN IF ~IsPt(A1) \/ ~IsPt(A2) THEN Bad
                 ELSE IF A1.g # st.g[1].g \/ A2.g # st.g[1].g THEN Bad
                 ELSE Wrap("bbs", pre, BbsInner(st, A1, A2, p), TRUE)
    [] st.k = "xplain" ->
         \* the inner statement does not depend on the precommitment (empty when honest)
              LET inner == Elab(st.inner, None, p \o ".i")
              IN IF inner.k = "bad" THEN Bad ELSE UWrap(st, pre, inner, TRUE)
    [] st.k = "xpt" ->
         IF ~IsPt(pre) THEN Bad
         ELSE IF pre.g # st.g.g THEN Bad
         ELSE UWrap(st, pre, DL(pre, <<st.g, st.h>>, <<st.x, Loc(p, "t")>>), CustomValid(st, pre))
    [] st.k = "xtup" ->
         IF ~IsLst(pre) \/ ~(Len(pre.e) = 2 /\ IsPt(pre.e[1]) /\ IsLst(pre.e[2])) THEN Bad
         ELSE IF pre.e[1].g # st.g.g THEN Bad
         ELSE UWrap(st, pre, [k |-> "and", s |-> <<DL(pre.e[1], <<st.g, st.h>>, <<st.x, Loc(p, "t")>>),
                                                      DL(pre.e[1], <<st.h, st.g>>, <<Loc(p, "t"), st.x>>)>>],
                   CustomValid(st, pre.e[1]))
    [] st.k = "xdat" ->
         LET m == DatNum(st.form, pre) IN
         IF m < 0 THEN Bad
         ELSE UWrap(st, pre, DL(VAdd(st.P, VMul(m, st.h)), <<st.g, st.h>>, <<st.x, Loc(p, "t")>>),
                   CASE st.val = "odd" -> m % 2 = 1 [] OTHER -> TRUE)
    [] OTHER -> Bad

(* ------------------- occurrences, identity, sharing ------------------- *)
RECURSIVE Occ(_)   \* all occurrences of secrets, left to right: [x |-> name, g |-> group]
Occ(T) ==
  CASE T.k = "dl" -> [i \in DOMAIN T.x |-> [x |-> T.x[i], g |-> T.b[i].g]]
    [] T.k = "x" -> Occ(T.inner)
    [] OTHER -> FlattenSeq([i \in DOMAIN T.s |-> Occ(T.s[i])])

\* position of the first occurrence of every secret
FirstIdx(occ) == LET names == {occ[i].x : i \in DOMAIN occ} IN
  [x \in names |-> CHOOSE i \in DOMAIN occ : occ[i].x = x /\ \A j \in 1..(i - 1) : occ[j].x # x]
RECURSIVE IdVal(_, _)
IdVal(T, fi) ==
  CASE T.k = "dl" -> <<"dl", [i \in DOMAIN T.b |-> Key(T.b[i])],
                       [i \in DOMAIN T.x |-> fi[T.x[i]]], Key(T.lhs)>>
    [] T.k = "x" -> <<"x", T.cls, Key(T.pre), IdVal(T.inner, fi)>>
    [] OTHER -> <<T.k, [i \in DOMAIN T.s |-> IdVal(T.s[i], fi)]>>
\* two statements are the same iff they have the same Id; names of secrets do not matter
Id(T) == LET m == {ToString(IdVal(T, f)) : f \in {FirstIdx(o) : o \in {Occ(T)}}} IN CHOOSE x \in m : TRUE

Functional(ps) == Cardinality({a[1] : a \in ps}) = Cardinality(ps)
\* No secret with bases in groups of different orders below one composition ...
OrdersOK(T) == \A occ \in {Occ(T)} :
  LET ords == {<<occ[i].x, Ord(occ[i].g)>> : i \in DOMAIN occ} IN Functional(ords)
\* ... and no secret of a disjunction outside of it in an enclosing conjunction.
RECURSIVE TopOrs(_)   \* the disjunctions reached from T through conjunctions only
TopOrs(T) == CASE T.k = "dl" -> <<>>
               [] T.k = "or" -> <<T>>
               [] T.k = "x" -> TopOrs(T.inner)
               [] OTHER -> FlattenSeq([i \in DOMAIN T.s |-> TopOrs(T.s[i])])
CountIn(x, occ) == Cardinality({i \in DOMAIN occ : occ[i].x = x})
ReoccurOK(T) == \A occ \in {Occ(T)} : \A ors \in {TopOrs(T)} :
  \A i \in DOMAIN ors : \A oo \in {Occ(ors[i])} : \A x \in {oo[j].x : j \in DOMAIN oo} :
     CountIn(x, occ) = CountIn(x, oo)
RECURSIVE WellComposed(_)
WellComposed(T) ==
  CASE T.k = "dl" -> TRUE
    [] T.k = "x" -> WellComposed(T.inner)
    [] OTHER -> /\ Len(T.s) >= 2
                /\ OrdersOK(T)
                /\ (T.k = "and" => ReoccurOK(T))
                /\ \A i \in DOMAIN T.s : WellComposed(T.s[i])

(* ---------------------------- verification ---------------------------- *)
RECURSIVE Shaped(_, _)
Shaped(T, r) ==
  CASE T.k = "dl" -> /\ IsLst(r) /\ Len(r.e) = Len(T.b)
                     /\ \A i \in DOMAIN r.e : IsInt(r.e[i])
                     /\ T.lhs.g = T.b[1].g
    [] T.k = "x" -> Shaped(T.inner, r)
    [] T.k = "and" -> /\ IsLst(r) /\ Len(r.e) >= Len(T.s)
                      /\ \A i \in DOMAIN T.s : Shaped(T.s[i], r.e[i])
    [] T.k = "or" -> /\ IsLst(r) /\ Len(r.e) >= 2
                     /\ IsLst(r.e[1]) /\ IsLst(r.e[2])
                     /\ Len(r.e[2].e) >= Len(T.s)
                     /\ \A i \in DOMAIN r.e[1].e : IsInt(r.e[1].e[i])
                     /\ \A i \in DOMAIN T.s : Shaped(T.s[i], r.e[2].e[i])
    [] OTHER -> FALSE

\* one challenge per branch, in range, adding up to the challenge
RECURSIVE SplitOK(_, _, _)
SplitOK(T, c, r) ==
  CASE T.k = "dl" -> TRUE
    [] T.k = "x" -> SplitOK(T.inner, c, r)
    [] T.k = "and" -> \A i \in DOMAIN T.s : SplitOK(T.s[i], c, r.e[i])
    [] T.k = "or" -> LET ch == r.e[1].e IN
         /\ Len(ch) = Len(T.s)
         /\ \A i \in DOMAIN ch : InChallengeSpace(ch[i])
         /\ SumModC(ch) = SumModC(<<c>>)
         /\ \A i \in DOMAIN T.s : SplitOK(T.s[i], ch[i], r.e[2].e[i])

\* responses (residues) to the same secret below the same conjunction
RECURSIVE ScopePairs(_, _)
ScopePairs(T, r) ==
  CASE T.k = "dl" -> {<<T.x[i], IntMod(r.e[i], Ord(T.b[1].g))>> : i \in DOMAIN T.x}
    [] T.k = "x" -> ScopePairs(T.inner, r)
    [] T.k = "and" -> UNION {ScopePairs(T.s[i], r.e[i]) : i \in DOMAIN T.s}
    [] T.k = "or" -> {}
RECURSIVE BranchesConsistent(_, _)
Consistent(T, r) == Functional(ScopePairs(T, r)) /\ BranchesConsistent(T, r)
BranchesConsistent(T, r) ==
  CASE T.k = "dl" -> TRUE
    [] T.k = "x" -> BranchesConsistent(T.inner, r)
    [] T.k = "and" -> \A i \in DOMAIN T.s : BranchesConsistent(T.s[i], r.e[i])
    [] T.k = "or" -> \A i \in DOMAIN T.s : Consistent(T.s[i], r.e[2].e[i])

RECURSIVE Valid(_)
Valid(T) == CASE T.k = "dl" -> TRUE
              [] T.k = "x" -> T.valid
              [] OTHER -> \A i \in DOMAIN T.s : Valid(T.s[i])

\* the commitment that makes the equations hold (for a Shaped transcript)
LeafCom(T, c, rs) ==
  LET g == T.b[1].g IN
  WSum(g, [i \in DOMAIN rs |-> rs[i]] \o <<(Ord(g) - IntMod(c, Ord(g))) % Ord(g)>>, T.b \o <<T.lhs>>)
RECURSIVE Com(_, _, _)
Com(T, c, r) ==
  CASE T.k = "dl" -> LeafCom(T, c, [i \in DOMAIN r.e |-> IntMod(r.e[i], Ord(T.b[1].g))])
    [] T.k = "x" -> Com(T.inner, c, r)
    [] T.k = "and" -> Lst([i \in DOMAIN T.s |-> Com(T.s[i], c, r.e[i])])
    [] T.k = "or" -> Lst([i \in DOMAIN T.s |-> Com(T.s[i], r.e[1].e[i], r.e[2].e[i])])

\* Nothing superfluous: no extra items in the lists, responses reduced.  A verifier may be stricter
\* than the equations about transcripts that are not of this form, but not about others.
RECURSIVE Canonical(_, _)
Reduced(x, q) == x.n = 0 /\ x.l[1] < q /\ \A i \in DOMAIN x.l : i > 1 => x.l[i] = 0
Canonical(T, r) ==
  CASE T.k = "dl" -> \A i \in DOMAIN r.e : Reduced(r.e[i], Ord(T.b[1].g))
    [] T.k = "x" -> Canonical(T.inner, r)
    [] T.k = "and" -> Len(r.e) = Len(T.s) /\ \A i \in DOMAIN T.s : Canonical(T.s[i], r.e[i])
    [] T.k = "or" -> Len(r.e) = 2 /\ Len(r.e[2].e) = Len(T.s) /\ \A i \in DOMAIN T.s : Canonical(T.s[i], r.e[2].e[i])
    [] OTHER -> FALSE
RECURSIVE CanonicalPre(_, _)
CanonicalPre(st, pre) ==
  CASE st.k = "dl" -> pre.t = "N"
    [] st.k \in {"and", "or"} ->
         \/ pre.t = "N" /\ \A i \in DOMAIN st.s : CanonicalPre(st.s[i], pre)
         \/ /\ IsLst(pre) /\ Len(pre.e) = Len(st.s)
            /\ \A i \in DOMAIN st.s : CanonicalPre(st.s[i], pre.e[i])
    [] st.k = "pow" -> pre.t = "D" /\ Len(pre.e) = 2
    [] st.k = "bbs" -> pre.t = "D" /\ Len(pre.e) = 2
    [] st.k = "xplain" -> IsLst(pre) /\ Len(pre.e) = 0
    [] OTHER -> TRUE

\* every condition on a transcript except the equations themselves
Admissible(T, c, r) ==
  /\ T.k # "bad"
  /\ IsInt(c)
  /\ Shaped(T, r)
  /\ Valid(T)
  /\ Consistent(T, r)
  /\ SplitOK(T, c, r)
\* acceptance of an interactive transcript
Accepts(T, com, c, r) == Admissible(T, c, r) /\ Key(Com(T, c, r)) = Key(com)

(* ------------------------------ witnesses ------------------------------ *)
\* w: function from secret names to tagged integers, partial
Has(w, x) == x \in DOMAIN w
\* mk: set of marked (simulated) paths
RECURSIVE CanProve(_, _, _, _)
\* values as small TLA integers, for the range statements
SmallInt(x) == LET a == FoldRight(LAMBDA limb, acc : acc * Base + limb, x.l, 0) IN IF x.n = 1 THEN -a ELSE a
InPow(st, w) == LET v == SmallInt(w[st.x]) + (IF "sh" \in DOMAIN st THEN st.sh ELSE 0)
                IN  v >= 0 /\ v < TwoTo(st.n)
CanProve(st, w, mk, p) ==
  /\ p \notin mk
  /\ CASE st.k = "dl" -> \A i \in DOMAIN st.x : Has(w, st.x[i])
       [] st.k = "and" -> \A i \in DOMAIN st.s : CanProve(st.s[i], w, mk, p \o "." \o ToString(i))
       [] st.k = "or" -> \E i \in DOMAIN st.s : CanProve(st.s[i], w, mk, p \o "." \o ToString(i))
       [] st.k = "neq" -> Has(w, st.x)
       [] st.k = "pow" -> Has(w, st.x) /\ Has(w, st.r) /\ InPow(st, w)
       [] st.k = "bbs" -> st.hassig /\ \A i \in DOMAIN st.x : Has(w, st.x[i])
       [] st.k = "xplain" -> CanProve(st.inner, w, mk, p \o ".i")
       [] st.k \in {"xpt", "xtup", "xdat"} -> Has(w, st.x)
       [] OTHER -> FALSE

Val(w, x, q) == IntMod(w[x], q)
RECURSIVE Truth(_, _)
Truth(st, w) ==
  CASE st.k = "dl" -> /\ \A i \in DOMAIN st.x : Has(w, st.x[i])
                      /\ DLOK(st) /\ st.lhs.g = st.b[1].g
                      /\ SamePt(st.lhs, WSum(st.b[1].g,
                            [i \in DOMAIN st.x |-> Val(w, st.x[i], Ord(st.b[1].g))], st.b))
    [] st.k = "and" -> \A i \in DOMAIN st.s : Truth(st.s[i], w)
    [] st.k = "or" -> \E i \in DOMAIN st.s : Truth(st.s[i], w)
    [] st.k = "neq" -> /\ Has(w, st.x)
                       /\ SamePt(st.H0, VMul(Val(w, st.x, Ord(st.h0.g)), st.h0))
                       /\ ~SamePt(st.H1, VMul(Val(w, st.x, Ord(st.h1.g)), st.h1))
    [] st.k = "pow" -> /\ Has(w, st.x) /\ Has(w, st.r) /\ InPow(st, w)
                       /\ LET q == Ord(st.g.g) sh == IF "sh" \in DOMAIN st THEN st.sh ELSE 0
                          IN SamePt(st.com, WSum(st.g.g, <<(Val(w, st.x, q) + sh) % q, Val(w, st.r, q)>>, <<st.g, st.h>>))
    [] st.k = "bbs" -> /\ st.hassig /\ \A i \in DOMAIN st.x : Has(w, st.x[i])
                       /\ LET q == Ord(st.g[1].g)
                              lhs == VMul(st.w + st.hz * Val(w, st.x[1], q), st.A)
                              rhs == VMul(st.hz, WSum(st.g[1].g, <<1>> \o [i \in 1..(Len(st.x) - 1) |-> 0], SubSeq(st.g, 1, Len(st.x))))
                              ms  == WSum(st.g[1].g, [i \in 1..(Len(st.x) - 1) |-> Val(w, st.x[i + 1], q)],
                                          [i \in 1..(Len(st.x) - 1) |-> st.g[i + 1]])
                          IN SamePt(lhs, VAdd(rhs, VMul(st.hz, ms)))
    [] st.k = "xplain" -> Truth(st.inner, w)
    [] st.k \in {"xpt", "xtup"} -> Has(w, st.x)
    [] st.k = "xdat" -> Has(w, st.x) /\ SamePt(st.P, VMul(Val(w, st.x, Ord(st.g.g)), st.g))
    [] OTHER -> FALSE

\* All commitments an honest prover with values w may have sent, given the challenge it got and
\* the responses it gave (the branch chosen in a disjunction is not recorded, so it is inferred).
LeafK(T, c, r, w) ==
  LET g == T.b[1].g q == Ord(g) IN
  WSum(g, [i \in DOMAIN T.x |-> (IntMod(r.e[i], q) + (q - ((IntMod(c, q) * Val(w, T.x[i], q)) % q))) % q], T.b)
\* Patterns of commitments: PFix(v) is exactly v; a conjunction is a sequence of patterns; a
\* disjunction a set of alternatives; PAny is not known.
PFix(v) == [p |-> "fix", v |-> v]
PAny == [p |-> "any"]
PSeq(ps) == IF \A i \in DOMAIN ps : ps[i].p = "fix" THEN PFix(Lst([i \in DOMAIN ps |-> ps[i].v]))
            ELSE [p |-> "seq", s |-> ps]
PAlt(alts) == IF Cardinality(alts) = 1 THEN CHOOSE x \in alts : TRUE ELSE [p |-> "alt", a |-> alts]
Definite(P) == P.p = "fix"
RECURSIVE May(_, _)      \* may the commitment be v
May(P, v) ==
  CASE P.p = "fix" -> Key(P.v) = Key(v)
    [] P.p = "any" -> TRUE
    [] P.p = "seq" -> IsLst(v) /\ Len(v.e) = Len(P.s) /\ \A i \in DOMAIN P.s : May(P.s[i], v.e[i])
    [] OTHER -> \E x \in P.a : May(x, v)

RECURSIVE Cands(_, _, _, _, _, _, _)
Cands(st, T, c, r, w, mk, p) ==
  CASE st.k = "dl" -> PFix(LeafK(T, c, r, w))
    [] st.k = "and" -> PSeq([i \in DOMAIN st.s |->
                          Cands(st.s[i], T.s[i], c, r.e[i], w, mk, p \o "." \o ToString(i))])
    [] st.k = "or" ->
         LET elig == {i \in DOMAIN st.s : CanProve(st.s[i], w, mk, p \o "." \o ToString(i))}
             sim  == [j \in DOMAIN st.s |-> PFix(Com(T.s[j], r.e[1].e[j], r.e[2].e[j]))]
         IN PAlt({PSeq([sim EXCEPT ![i] =
                      Cands(st.s[i], T.s[i], r.e[1].e[i], r.e[2].e[i], w, mk, p \o "." \o ToString(i))]) : i \in elig})
    [] st.k = "xplain" -> Cands(st.inner, T.inner, c, r, w, mk, p \o ".i")
    [] OTHER -> \* primitives: internal secrets are not recorded
         IF Truth(st, w) THEN PFix(Com(T, c, r)) ELSE PAny
=============================================================================
