------------------------------- MODULE GenCases -------------------------------
(***************************************************************************)
(* Input spaces of the components, enumerated exhaustively by TLC.         *)
(* IOEnv.VH_KIND selects the space, IOEnv.VH_BIG = "1" the larger one, the *)
(* inputs are written to IOEnv.VH_OUT.                                     *)
(***************************************************************************)
EXTENDS Options, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

INF == 2000000000
Big == IOEnv.VH_BIG = "1"
If(a, b) == IF Big THEN a ELSE b

(* clouds on a line and on small grids; the current point is at position c *)
Line(n, L) ==
  {[pts |-> [k \in 1..n |-> IF k = c THEN <<0>> ELSE <<f[k]>>], cpos |-> c, cx |-> <<0>>]
     : c \in {1, n}, f \in [1..n -> -L..L]}
Grid(n, L) ==
  {[pts |-> [k \in 1..n |-> IF k = c THEN <<1, 0>> ELSE f[k]], cpos |-> c, cx |-> <<1, 0>>]
     : c \in {2}, f \in [1..n -> (-L..L) \X (-L..L)]}
Clouds == If(Line(4, 4) \cup Grid(4, 1) \cup Grid(3, 2), Line(4, 2) \cup Grid(3, 1))

Drop == {[kind |-> "drop", n |-> m, r2 |-> r * r, pts |-> cl.pts, cpos |-> cl.cpos, cx |-> cl.cx]
           : m \in 0..3, r \in {1, 2}, cl \in Clouds}
DropOk == {c \in Drop : c.n < Len(c.pts)}

FilterSpace ==
  {[kind |-> "filter", filter |-> f, target |-> t, factor |-> m, r2 |-> 4, pts |-> cl.pts,
    cpos |-> cl.cpos, cx |-> cl.cx]
     : f \in {"keep_all", "discard_all", "drop_excess"}, t \in {1, 2}, m \in {1, 2},
       cl \in If(Line(4, 2) \cup Grid(3, 1), Line(3, 2) \cup Grid(3, 1))}

Cluster ==
  {[kind |-> "cluster", eps2 |-> e * e, pts |-> p]
     : e \in {0, 1, 2},
       p \in [1..If(5, 4) -> {<<x>> : x \in 0..If(5, 6)}] \cup [1..If(4, 3) -> (0..2) \X (0..1)]
             \cup [1..1 -> {<<3>>}] \cup [1..2 -> {<<x>> : x \in 0..3}]}
ClusterFilter ==
  {[kind |-> "clusterfilter", pts |-> p] : p \in [1..4 -> (0..1) \X (0..1)]}

Radius ==
  {[kind |-> "radius", r |-> r, rho |-> rho, dec |-> 1, inc |-> inc, step |-> step,
    large |-> large, shrink |-> 2, expand |-> ex, rmin |-> mn, rmax |-> mx, ratio |-> ra,
    more |-> more]
     : r \in {8, 16, 24, 64}, rho \in {-INF, -1, 0, 1, 2, 3, INF}, inc \in {1, 2},
       step \in {0, 4, 8, 32, 80}, large \in {1, 2}, ex \in If({2, 3, 4}, {2, 3}), mn \in {4, 16},
       mx \in {32, 1024}, ra \in {0, 1, 2}, more \in BOOLEAN}
RadiusOk == {c \in Radius : c.r >= c.rmin /\ c.r <= c.rmax}

NEvals ==
  {[kind |-> "nevals", nev |-> nev, draws |-> 10, hi |-> hi, lo |-> lo, rho |-> rho, good |-> 1,
    hiNum |-> s[1], hiDen |-> 10, loNum |-> s[2], loDen |-> 10, nmin |-> mn, nmax |-> mx]
     : nev \in 1..5, hi \in {0, 1, 4, 5, 6, 7, 8, 10}, lo \in {0, 5, 6, 8, 9, 10},
       rho \in {-INF, 0, 1, 2, INF}, s \in {<<7, 9>>, <<5, 5>>, <<0, 8>>},
       mn \in {1, 2}, mx \in {2, 4, 5}}
NEvalsOk == {c \in NEvals : c.hi <= c.lo /\ c.nev >= c.nmin /\ c.nev <= c.nmax}

Inf ==
  {[kind |-> "inf", raw |-> m]
     : m \in [1..3 -> {<<a>> : a \in {-2, 0, 1, 5, INF, -INF}}]
             \cup [1..2 -> {<<a, b>> : a \in {-1, 4, INF, -INF}, b \in {-1, 4, INF, -INF}}]
             \cup (IF Big THEN [1..3 -> {<<a, b>> : a \in {-1, 4, INF, -INF},
                                                   b \in {7, INF, -INF}}] ELSE {})}

(* operations on the history; indices of evaluations may be unknown        *)
Ops == {[op |-> "xs", n |-> 1, form |-> "single"], [op |-> "xs", n |-> 2, form |-> "array"],
        [op |-> "xs", n |-> 0, form |-> "array"],
        [op |-> "ev", idx |-> <<>>, form |-> "list"],
        [op |-> "ev", idx |-> <<0>>, form |-> "int"], [op |-> "ev", idx |-> <<1>>, form |-> "list"],
        [op |-> "ev", idx |-> <<1, 0>>, form |-> "array"],
        [op |-> "ev", idx |-> <<0, 0, 2>>, form |-> "list"],
        [op |-> "ev", idx |-> <<0, -1>>, form |-> "list"]}
       \cup If({[op |-> "xs", n |-> 2, form |-> "list"], [op |-> "ev", idx |-> <<3>>, form |-> "array"],
               [op |-> "ev", idx |-> <<2, 1>>, form |-> "list"]}, {})
Hist ==
  {[kind |-> "history", ft |-> f, ops |-> o]
     : f \in {"least_squares", "likelihood", "scalar"},
       o \in [1..3 -> Ops] \cup [1..If(4, 2) -> Ops]}
(* growth of the storage                                                   *)
Grow ==
  {[kind |-> "history", ft |-> f,
    ops |-> <<[op |-> "grow", n |-> a], o, [op |-> "grow", n |-> b],
              [op |-> "ev", idx |-> <<1, a, 1>>, form |-> "array"]>>]
     : f \in If({"least_squares", "likelihood", "scalar"}, {"least_squares", "scalar"}),
       a \in {3, 999, 1000}, b \in {1, 2, 1100},
       o \in {[op |-> "xs", n |-> 1, form |-> "single"],
              [op |-> "ev", idx |-> <<0, 2>>, form |-> "list"]}}

(* components with options                                                  *)
V(t, k) == <<t, k>>
Users == {<<>>, <<[name |-> "opt1", v |-> V("int", 7)]>>, <<[name |-> "opt1", v |-> V("str", 7)]>>,
          <<[name |-> "opt1", v |-> V("float", 7)], [name |-> "opt2", v |-> V("int", 3)]>>,
          <<[name |-> "opt2", v |-> V("str", 8)], [name |-> "opt3", v |-> V("int", 5)]>>,
          <<[name |-> "opt3", v |-> V("str", 6)], [name |-> "opt4", v |-> V("int", 9)]>>,
          <<[name |-> "opt4", v |-> V("str", 8)], [name |-> "opt1", v |-> V("int", 0)]>>,
          <<[name |-> "bad", v |-> V("int", 1)]>>,
          <<[name |-> "opt1", v |-> V("int", 3)], [name |-> "opt_1", v |-> V("int", 1)]>>}
Sigs == {<<"x">>, <<"x", "y">>, <<"x", "y", "opt1">>, <<"x", "opt2", "y", "opt3">>,
         <<"opt1", "x">>, <<"x", "y", "opt1", "opt2", "opt3", "opt4">>, <<"opt4", "opt2">>}
KW(s) == {<<>>, <<[name |-> "y", v |-> V("int", 12)]>>,
          <<[name |-> "x", v |-> V("int", 11)], [name |-> "y", v |-> V("int", 12)]>>,
          <<[name |-> "y", v |-> V("int", 12)], [name |-> "z", v |-> V("int", 13)]>>,
          <<[name |-> "x", v |-> V("int", 11)], [name |-> "opt1", v |-> V("int", 14)]>>}
CompOwn(owns, names, users, forms, mands, redopts, redargs, argss) ==
  {[kind |-> "component", own |-> w, sig |-> s, user |-> u, form |-> f, comp |-> n, mand |-> m,
    redopt |-> ro, redarg |-> ra, args |-> a, kw |-> k]
     : s \in Sigs, u \in users, f \in forms, n \in names, m \in mands, ro \in redopts,
       ra \in redargs, a \in argss, k \in KW(0), w \in owns}
Comp(names, users, forms, mands, redopts, redargs, argss) ==
  CompOwn({0}, names, users, forms, mands, redopts, redargs, argss)
NoClash(c) == \A k \in 1..Len(c.args) : \A j \in DOMAIN c.kw :
                 k <= Len(c.sig) => c.kw[j].name # c.sig[k]
CompAll ==
  {c \in Comp({"alpha", "callable"}, Users, {"dict", "tuple"}, {<<"x">>}, {"ignore"},
              {"ignore"}, {<<10>>})
        \cup Comp({"alpha", "beta", "callable", "partial", "object"} \cup NoComponent,
                 {<<[name |-> "opt1", v |-> V("int", 7)]>>}, {"dict"},
                 {<<>>, <<"x">>, <<"x", "y">>, <<"opt2">>}, {"ignore", "raise", "warn"},
                 {"ignore"}, {<<10>>})
        \cup CompOwn({1, 2, 3}, {"alpha", "callable", "partial", "object"},
                     {<<>>, <<[name |-> "opt1", v |-> V("int", 7)]>>,
                      <<[name |-> "opt3", v |-> V("str", 5)]>>}, {"dict"}, {<<>>},
                     {"ignore"}, {"ignore", "raise"}, {<<>>, <<10>>})
        \cup Comp({"beta"}, {<<[name |-> "opt2", v |-> V("int", 3)]>>}, {"dict"}, {<<>>}, {"ignore"},
                 {"ignore", "raise", "warn"}, {<<>>, <<10>>, <<10, 20>>})
   : NoClash(c) /\ (c.redarg # "raise" \/ (Len(c.args) <= 1 /\ c.sig[1] = "x"))}
Bundle == {[kind |-> "bundle", user |-> u, form |-> f]
             : u \in Users \cup {<<[name |-> a, v |-> V(t, 3)]>> : a \in OptNames, t \in {"int", "str"}}
                     \cup {<<[name |-> a, v |-> V("float", 3)]>> : a \in {"opt1", "opt2", "opt3"}}
                     \cup {<<[name |-> a, v |-> V("none", 0)]>> : a \in {"opt1", "opt2", "opt3"}},
               f \in {"dict", "tuple"}}

(* outcomes of the evaluations in acceptance steps                          *)
Outcomes == {"b", "e", "w", "f", "x", "i", "n"}
Script ==
  {[ft |-> ft, batch |-> 1, minimp |-> m, rho |-> 1 - m, out |-> o]
     : ft \in If({"least_squares", "scalar", "likelihood"}, {"least_squares", "scalar"}),
       m \in {0, 1},
       o \in If([1..4 -> Outcomes \ {"x"}], [1..3 -> {"b", "e", "w", "f", "n"}])}
  \cup
  {[ft |-> ft, batch |-> 3, minimp |-> 0, rho |-> 0, out |-> o]
     : ft \in {"least_squares", "scalar"},
       o \in If([1..4 -> {"b", "e", "w", "f", "n"}], [1..3 -> {"b", "e", "w", "f", "n"}])}

Inputs(kind) ==
  CASE kind = "drop" -> DropOk
    [] kind = "filter" -> FilterSpace
    [] kind = "cluster" -> Cluster
    [] kind = "clusterfilter" -> ClusterFilter
    [] kind = "radius" -> RadiusOk
    [] kind = "nevals" -> NEvalsOk
    [] kind = "inf" -> Inf
    [] kind = "history" -> Hist
    [] kind = "component" -> CompAll
    [] kind = "bundle" -> Bundle
    [] kind = "grow" -> Grow
    [] kind = "script" -> Script

ASSUME JsonSerialize(IOEnv.VH_OUT, SetToSeq(Inputs(IOEnv.VH_KIND)))

VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
==============================================================================
