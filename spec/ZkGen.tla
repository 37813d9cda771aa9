-------------------------------- MODULE ZkGen --------------------------------
(***************************************************************************)
(* Generates scenarios: random statement trees of every kind zksk offers,  *)
(* with values for their secrets, the secrets that are missing and how the *)
(* others are supplied, marks, faults.  Every state of a behaviour adds    *)
(* one scenario; the last one writes them all out.  The family says which  *)
(* part of the space is wanted.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

N == atoi(IOEnv.ZK_N)
Family == IOEnv.ZK_FAMILY
OutFile == IOEnv.ZK_OUT

VARIABLES items, tried
vars == <<items, tried>>

R(S) == RandomElement(S)
Chance(pct) == R(1..100) <= pct
\* pick from a weighted list of <<weight, value>>
Pick(ws) ==
  LET total == FoldLeft(LAMBDA a, w : a + w[1], 0, ws)
      r == R(1..total)
      RECURSIVE go(_, _)
      go(i, acc) == IF acc + ws[i][1] >= r THEN ws[i][2] ELSE go(i + 1, acc + ws[i][1])
  IN go(1, 0)

Has(f, words) == Family \in words
EcOnly == Family \in {"or", "deep", "bind"}
LeafWeights ==
  CASE Family = "dl" -> <<<<1, "dl">>>>
    [] Family = "neq" -> <<<<2, "dl">>, <<3, "neq">>>>
    [] Family = "range" -> <<<<2, "dl">>, <<2, "pow">>, <<2, "rng">>>>
    [] Family = "ext" -> <<<<3, "dl">>, <<2, "xplain">>, <<2, "xpt">>, <<2, "xtup">>, <<4, "xdat">>, <<1, "neq">>>>
    [] Family = "extor" -> <<<<2, "dl">>, <<4, "xplain">>, <<1, "xpt">>, <<1, "xtup">>, <<4, "xdat">>>>
    [] Family = "or" -> <<<<8, "dl">>, <<1, "neq">>, <<1, "xpt">>>>
    [] Family = "small" -> <<<<1, "dl">>, <<4, "xplain">>, <<2, "xpt">>, <<2, "xtup">>, <<3, "xdat">>, <<1, "neq">>>>
    [] Family = "many" -> <<<<30, "dl">>, <<1, "neq">>, <<1, "xplain">>, <<1, "xdat">>>>
    [] Family = "loose" -> <<<<12, "dl">>, <<1, "neq">>, <<1, "pow">>, <<2, "xplain">>, <<1, "xpt">>>>
    [] OTHER -> <<<<14, "dl">>, <<2, "neq">>, <<1, "pow">>, <<1, "rng">>, <<1, "xplain">>, <<1, "xpt">>, <<1, "xtup">>, <<1, "xdat">>>>
MaxDepth == IF Family = "deep" THEN 4 ELSE 3

GroupOf(cls) == IF cls = "r" THEN 3 ELSE Pick(<<<<5, 1>>, <<1, 2>>, <<1, 4>>, <<1, 6>>>>)

\* secrets of namespace ns; names starting with z live in the group of the other order
Loose == Family = "loose"   \* compositions that may be unsound
DlNames(ns, cls) == IF Loose THEN (IF cls = "r" THEN {"z1", "z2", "a"} ELSE {"a", "b", "c", "d", "e", "f", "a" \o ns, "b" \o ns})
  ELSE IF cls = "r" THEN {"z1" \o ns, "z2" \o ns} ELSE {"a" \o ns, "b" \o ns, "c" \o ns, "d" \o ns}

RECURSIVE Terms(_, _, _)
Terms(n, ns, cls) == IF n = 0 THEN <<>>
  ELSE Terms(n - 1, ns, cls) \o <<[x |-> R(DlNames(ns, cls)), b |-> R(1..7),
                                  g |-> IF Loose /\ Chance(2) THEN R({1, 2, 3, 4}) ELSE 0]>>

GenDl(ns) ==
  LET cls == TLCEval(IF Chance(12) THEN "r" ELSE "q") IN
  [k |-> "dl", g |-> GroupOf(cls), t |-> Terms(Pick(<<<<4, 1>>, <<3, 2>>, <<2, 3>>, <<1, 5>>>> \o (IF Family = "many" THEN <<<<1, R(9..18)>>, <<1, R(18..40)>>>> ELSE <<>>)), ns, cls),
   off |-> 0, how |-> R({"sum", "wsum", "right", "rmul"})]

GenLeaf(ns, p) ==
  LET k == TLCEval(Pick(LeafWeights)) IN
  CASE k = "dl" -> GenDl(ns)
    [] k = "neq" -> [k |-> "neq", g |-> Pick(<<<<3, 1>>, <<1, 4>>>>), x |-> R(DlNames(ns, "q")), bind |-> R({TRUE, FALSE}), off |-> 0,
                     b0 |-> R(1..3), b1 |-> R(4..7), zero |-> Chance(15)]
    [] k = "pow" -> [k |-> "pow", g |-> Pick(<<<<3, 1>>, <<1, 4>>>>), n |-> R(1..4), x |-> "p" \o p, r |-> "q" \o p, off |-> 0]
    [] k = "rng" -> LET a == R(-3..5) w == R(1..9) IN
                    [k |-> "rng", g |-> Pick(<<<<3, 1>>, <<1, 4>>>>), a |-> a, b |-> a + w, x |-> "p" \o p, r |-> "q" \o p, off |-> 0]
    [] k = "xplain" -> [k |-> "xplain", cls |-> R({"Plain", "Simple"}), val |-> IF Family \in {"ext", "extor"} THEN Pick(<<<<16, "ok">>, <<1, "never">>, <<2, "arg">>, <<1, "argneed">>>>) ELSE "ok",
                        inner |-> LET two == TLCEval(Chance(50)) IN
                                  IF two THEN [k |-> IF Loose /\ Chance(50) THEN "or" ELSE "and", s |-> <<GenDl(ns), GenDl(ns)>>, how |-> "ctor"] ELSE GenDl(ns)]
    [] k = "xdat" -> [k |-> k, cls |-> R({"Dat", "Blob"}), g |-> Pick(<<<<3, 1>>, <<1, 4>>, <<1, 2>>>>), b0 |-> R(1..3), b1 |-> R(4..7), off |-> 0,
                      x |-> R(DlNames(ns, "q")), form |-> R({"int", "list", "dict", "str", "bytes", "nest", "dict2", "neg", "huge"}),
                      val |-> Pick(<<<<10, "ok">>, <<1, "never">>, <<1, "odd">>, <<1, "arg">>>>), sim |-> TRUE]
    [] OTHER -> [k |-> k, cls |-> R({"Pre", "Fancy"}), g |-> Pick(<<<<3, 1>>, <<1, 4>>>>), b0 |-> R(1..3), b1 |-> R(4..7),
                 x |-> R(DlNames(ns, "q")), val |-> Pick(<<<<16, "ok">>, <<2, "notinf">>, <<2, "arg">>, <<1, "argneed">>>>), sim |-> TRUE]

\* under: whether there is a conjunction above
RECURSIVE Gen(_, _, _, _)
RECURSIVE GenSubs(_, _, _, _, _, _)
GenSubs(k, i, n, depth, ns, p) ==
  IF i > n THEN <<>>
  ELSE LET pi == p \o "." \o ToString(i)
           s == TLCEval(Gen(depth - 1, ns, pi, k = "and"))
       IN <<s>> \o GenSubs(k, i + 1, n, depth, ns, p)
Gen(depth, ns, p, under) ==
  LET k == TLCEval(IF depth = 0 THEN "leaf"
                   ELSE IF Family = "extor" /\ depth > 0 THEN Pick(<<<<2, "leaf">>, <<3, "or">>, <<1, "and">>>>)
                   ELSE IF Family = "or" /\ depth = MaxDepth THEN Pick(<<<<3, "or">>, <<1, "and">>>>)
                   ELSE IF Family = "many" THEN (IF under \/ depth < 2 THEN Pick(<<<<6, "leaf">>, <<1, "and">>, <<1, "or">>>>) ELSE R({"and", "or"}))
                   ELSE Pick(<<<<3, "leaf">>, <<3, "and">>, <<3, "or">>>>))
      \* the secrets of a disjunction below a conjunction may not occur outside of it
      ns2 == IF k = "or" /\ under THEN ns \o "o" \o p ELSE ns
      n == TLCEval(IF Family = "many" /\ depth > 1 THEN R(4..9) ELSE Pick(<<<<5, 2>>, <<3, 3>>, <<1, 4>>>>))
  IN IF k = "leaf" THEN GenLeaf(ns, p)
     ELSE [k |-> k, s |-> GenSubs(k, 1, n, depth, ns2, p), how |-> R({"ctor", "op"})]

RECURSIVE Names(_)
Names(t) ==
  CASE t.k = "dl" -> {t.t[i].x : i \in DOMAIN t.t}
    [] t.k \in {"and", "or"} -> UNION {Names(t.s[i]) : i \in DOMAIN t.s}
    [] t.k \in {"pow", "rng"} -> {t.x, t.r}
    [] t.k = "xplain" -> Names(t.inner)
    [] OTHER -> {t.x}
RECURSIVE Size(_)
Size(t) == IF t.k \in {"and", "or"} THEN 1 + FoldLeft(LAMBDA a, s : a + Size(s), 0, t.s) ELSE 1
RECURSIVE Ors(_)   \* paths of branches of disjunctions
RECURSIVE Branches(_, _)
Branches(t, p) ==
  IF t.k \in {"and", "or"}
  THEN UNION {Branches(t.s[i], p \o "." \o ToString(i)) : i \in DOMAIN t.s} \cup
       (IF t.k = "or" THEN {p \o "." \o ToString(i) : i \in DOMAIN t.s} ELSE {})
  ELSE {}
Ors(t) == Branches(t, "r")
RECURSIVE RangeVals(_)   \* constraints on range values: <<name, lo, hi>> (hi excluded)
RangeVals(t) ==
  CASE t.k = "pow" -> <<<<t.x, 0, 2 ^ t.n>>>>
    [] t.k = "rng" -> <<<<t.x, t.a, t.b>>>>
    [] t.k \in {"and", "or"} -> FlattenSeq([i \in DOMAIN t.s |-> RangeVals(t.s[i])])
    [] OTHER -> <<>>
RECURSIVE CtorOnly(_)    \* values that the primitives read when they are built
CtorOnly(t) == CASE t.k \in {"pow", "rng"} -> {t.x, t.r}
                 [] t.k \in {"and", "or"} -> UNION {CtorOnly(t.s[i]) : i \in DOMAIN t.s}
                 [] OTHER -> {}

RECURSIVE Assign(_, _)
Assign(names, rvs) ==
  IF names = {} THEN <<>>
  ELSE LET x == CHOOSE x \in names : TRUE
           cs == SelectSeq(rvs, LAMBDA c : c[1] = x)
           v == IF cs # <<>> THEN Pick(<<<<1, cs[1][2]>>, <<1, cs[1][3] - 1>>, <<2, R(cs[1][2]..(cs[1][3] - 1))>>>>)
                ELSE Pick(<<<<2, 0>>, <<2, 1>>, <<1, -1>>, <<4, R(-40..40)>>, <<4, R(0..10006)>>>>)
           rep == IF cs # <<>> THEN 0 ELSE Pick(<<<<4, 0>>, <<1, 1>>, <<1, -1>>, <<1, 2>>>>)
       IN <<[x |-> x, v |-> v, rep |-> rep]>> \o Assign(names \ {x}, rvs)

Recipe(seqno) ==
  LET t == TLCEval(Gen(IF Family = "small" THEN Pick(<<<<4, 0>>, <<1, 1>>>>) ELSE IF Family = "many" THEN Pick(<<<<1, 0>>, <<8, 2>>>>) ELSE Pick(<<<<1, 0>>, <<3, 1>>, <<4, 2>>, <<3, MaxDepth>>>>), "", "r", FALSE))
      names == Names(t)
      vals == TLCEval(Assign(names, RangeVals(t)))
  IN [tree |-> t, vals |-> vals, branches |-> SetToSeq(Ors(t)),
      ctoronly |-> SetToSeq(CtorOnly(t)),
      dict |-> Chance(40), named |-> Chance(30), msg |-> R(0..13), rnd |-> R(0..1000000), no |-> seqno]

Init == items = <<>> /\ tried = 0
Next == /\ Len(items) < N
        /\ tried' = tried + 1
        /\ LET r == TLCEval(Recipe(tried)) IN
           items' = IF Size(r.tree) <= 14 THEN Append(items, r) ELSE items
Spec == Init /\ [][Next]_vars
Written == /\ TLCSet(1, items) /\ TRUE
Done == JsonSerialize(OutFile, TLCGet(1)) /\ PrintT(<<"ZKGEN", ToJson(Len(TLCGet(1)))>>)
==============================================================================
