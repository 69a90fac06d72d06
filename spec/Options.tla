------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* Resolution of components and options, and processing of arguments.      *)
(* Values of options are pairs <<type, code>>.                             *)
(***************************************************************************)
EXTENDS Filters, SequencesExt

(* the default bundle: opt1 = 1, opt2 = 2.0, opt3 = None, opt4 = "4"        *)
OptNames == {"opt1", "opt2", "opt3", "opt4"}
Default == [opt1 |-> <<"int", 1>>, opt2 |-> <<"float", 2>>, opt3 |-> <<"none", 0>>,
            opt4 |-> <<"str", 4>>]
(* a value is converted to the type of the default, None accepts anything   *)
Convert(d, v) == IF d[1] = "none" THEN v ELSE <<d[1], v[2]>>
Convertible(d, v) == d[1] \in {"none", "str"} \/ v[1] # "none"

UserInvalid(u) == \E k \in DOMAIN u : u[k].name \notin OptNames
Effective(u, n) ==
  LET k == {k \in DOMAIN u : u[k].name = n} IN
  IF k = {} THEN Default[n] ELSE Convert(Default[n], u[CHOOSE i \in k : TRUE].v)

(* c.sig signature, c.user sequence of [name, v], c.form, c.comp, c.mand,    *)
(* c.redopt, c.redarg, c.args (codes), c.kw sequence of [name, v]; the last  *)
(* c.own arguments of the component have a default value in its signature    *)
(* names that are similar to a built-in one do not select it                *)
NoComponent == {"unknown", "begin", "longer", "upper", "space", "empty", "number", "none"}
BuildFails(c) ==
  \/ c.comp \in NoComponent
  \/ UserInvalid(c.user)
  \/ \E m \in Range(c.mand) : m \notin Range(c.sig)
  \/ c.redopt = "raise" /\ \E n \in OptNames : n \notin Range(c.sig)

Given(c) == [k \in 1..Min2(Len(c.args), Len(c.sig)) |-> [name |-> c.sig[k], v |-> <<"int", c.args[k]>>]]
            \o c.kw
Extra(c) == {k \in DOMAIN c.kw : c.kw[k].name \notin Range(c.sig)}
Value(c, n) ==
  LET g == Given(c)  k == {k \in DOMAIN g : g[k].name = n} IN
  IF k # {} THEN g[SetMax(k)].v
  ELSE IF n \in OptNames THEN Effective(c.user, n)
  ELSE IF \E j \in DOMAIN c.sig : c.sig[j] = n /\ j > Len(c.sig) - c.own THEN <<"int", 77>>
  ELSE <<"missing", 0>>
CallFails(c) ==
  \/ \E k \in DOMAIN c.sig : Value(c, c.sig[k])[1] = "missing"
  \/ c.redarg = "raise" /\ Extra(c) # {}

FailedComponent(c) ==
  LET o == c.out IN
  FlF("C23.rejects_bad_components_and_options", (o.built = 0) = BuildFails(c))
  \cup FlF("C23.inputs_unchanged", o.pure = 1)
  \cup (IF o.built = 0 \/ BuildFails(c) THEN {} ELSE
        FlF("C23.selects_component",
            o.called = 0 \/ o.who = (IF c.comp \in {"callable", "partial", "object"} THEN "u" ELSE c.comp))
        \cup FlF("C23.call_accepted", (o.called = 0) = CallFails(c))
        \cup (IF o.called = 0 \/ CallFails(c) THEN {} ELSE
              FlF("C23.values",
                  o.got = [k \in DOMAIN c.sig |-> Value(c, c.sig[k])])
              \cup FlF("C23.warns",
                  /\ (o.warnarg = 1) = (c.redarg = "warn" /\ Extra(c) # {}))
             )
        \cup FlF("C23.warns",
              (o.warnopt = 1) = (c.redopt = "warn" /\ \E n \in OptNames : n \notin Range(c.sig))))

(* update of a bundle alone                                                 *)
FailedBundle(c) ==
  LET o == c.out
      bad == \/ UserInvalid(c.user)
             \/ \E k \in DOMAIN c.user : ~UserInvalid(<<c.user[k]>>)
                    /\ ~Convertible(Default[c.user[k].name], c.user[k].v)
  IN FlF("C23.rejects_bad_components_and_options", (o.built = 0) = bad)
     \cup FlF("C23.inputs_unchanged", o.pure = 1)
     \cup (IF bad \/ o.built = 0 THEN {} ELSE
           FlF("C23.values", \A n \in OptNames : o.got[n] = Effective(c.user, n)))

(***************************************************************************)
(* Processing of arguments.  c.a holds what the user passed; "none" (or    *)
(* -1 for numbers) stands for an argument that was not given.  Radii are   *)
(* in thousandths.                                                         *)
(***************************************************************************)
BatchOf(a) == IF a.batch = -1 THEN a.cores ELSE a.batch
TypeOf(a) == IF a.mtype # "none" THEN a.mtype
             ELSE IF a.ft = "scalar" THEN "quadratic" ELSE "linear"
SizeOf(a) ==
  CASE a.size = -1 -> IF TypeOf(a) = "quadratic" THEN 2 * a.d + 1
                      ELSE IF a.noisy = 1 \/ BatchOf(a) > 1 THEN a.d + 1 ELSE a.d + 2
    [] a.size = -2 -> a.d + (IF TypeOf(a) = "quadratic" THEN 9 ELSE 4)     \* a callable
    [] OTHER -> a.size
FreeParams(d, t) == 1 + d + (IF t = "quadratic" THEN (d * (d + 1)) \div 2 ELSE 0)
FitterOf(a) == IF a.fitter # "none" THEN a.fitter
               ELSE IF TypeOf(a) = "linear" \/ SizeOf(a) >= FreeParams(a.d, TypeOf(a)) THEN "ols"
               ELSE "tranquilo"
ResidOf(a) == CASE a.resid = -1 -> IF FitterOf(a) = "tranquilo" THEN 1 ELSE 0 [] OTHER -> a.resid
FilterOf(a) == IF a.filter # "none" THEN a.filter
               ELSE IF BatchOf(a) > 1 THEN "drop_excess" ELSE "keep_all"
DeciderOf(a) == IF a.decider # "none" THEN a.decider
                ELSE IF a.noisy = 1 THEN "noisy" ELSE "classic"
SearchOf(a) == IF a.search # -1 THEN a.search ELSE IF a.ft = "scalar" THEN 4250 ELSE 5000
StartOf(a) == IF a.nstart # -1 THEN a.nstart ELSE IF a.noisy = 1 THEN 5 ELSE 1
MinEvals(a) == IF a.adaptmin # -1 THEN a.adaptmin ELSE 1
PerPointOf(a) == IF a.npp # -1 THEN a.npp ELSE IF a.noisy = 1 THEN MinEvals(a) ELSE 1
MaxAbs(x) == SetMax({Abs(x[k]) : k \in DOMAIN x})
RadiusOf(a) == IF a.radius # -1 THEN a.radius
               ELSE IF MaxAbs(a.x) = 0 THEN 100 ELSE 100 * MaxAbs(a.x)
KeepOf(a) == IF a.keep # -1 THEN a.keep
             ELSE IF a.noisy = 1 \/ BatchOf(a) > 1 THEN 0 ELSE 125
DropOf(a) == IF a.drop # -1 THEN a.drop ELSE IF a.noisy = 1 THEN 0 ELSE 1

Supported(a) == <<a.ft, TypeOf(a)>> \in {<<"scalar", "quadratic">>, <<"least_squares", "linear">>,
                                        <<"likelihood", "linear">>}
ArgsFail(c) ==
  LET a == c.a IN
  \/ c.bad # "none"
  \/ BatchOf(a) < a.cores
  \/ TypeOf(a) \notin {"linear", "quadratic"}
  \/ ~Supported(a)
  \/ SearchOf(a) <= 0 \/ StartOf(a) < 1 \/ PerPointOf(a) < 1

FailedArgs(c) ==
  LET a == c.a  o == c.out IN
  IF ArgsFail(c)
  THEN FlF("C24.rejects_bad_input", o.built = 0)
  ELSE IF o.built = 0 THEN {"C24.accepts_valid_input"}
  ELSE FlF("C24.batch_size", o.batch = BatchOf(a))
  \cup FlF("C24.sample_size", o.size = SizeOf(a))
  \cup FlF("C24.search_radius", o.search = SearchOf(a))
  \cup FlF("C24.evaluations_at_start", o.nstart = StartOf(a))
  \cup FlF("C24.evaluations_per_point", o.npp = PerPointOf(a))
  \cup FlF("C24.radius", o.radius = RadiusOf(a) /\ o.regradius = RadiusOf(a))
  \cup FlF("C24.radius_user_values", o.maxradius = IF a.maxradius # -1 THEN a.maxradius ELSE 1000000)
  \cup FlF("C24.stagnation", o.keep = KeepOf(a) /\ o.drop = DropOf(a))
  \cup FlF("C24.stagnation_user_values", o.minstep = IF a.minstep # -1 THEN a.minstep ELSE 50)
  \cup FlF("C24.filter", o.filter = FilterOf(a))
  \cup FlF("C24.acceptance_decider", o.decider = DeciderOf(a))
  \cup FlF("C24.model_type", o.mtype = TypeOf(a))
  \cup FlF("C24.fitter", o.fitter = FitterOf(a))
  \cup FlF("C24.residualize", o.resid = ResidOf(a))
  \cup FlF("C24.noisy_flag", o.noisy = a.noisy)
  \cup FlF("C24.stopping", o.maxiter = (IF a.maxiter # -1 THEN a.maxiter ELSE 200)
                         /\ o.maxeval = (IF a.maxeval # -1 THEN a.maxeval ELSE 2000)
                         /\ o.maxtime = (IF a.maxtime # -1 THEN a.maxtime ELSE -1))
  \cup FlF("C24.convergence", DOMAIN o.conv = DOMAIN a.conv /\ \A k \in DOMAIN a.conv :
                            o.conv[k] = IF a.conv[k] # -1 THEN a.conv[k]
                                        ELSE <<0, 0, 0, 0, 20, 100, 100>>[k])
  \cup FlF("C24.start_point", o.x = [k \in DOMAIN a.x |-> 1000 * a.x[k]] /\ o.nxs = 1 /\ o.center = o.x)
  \cup FlF("C24.bounds", o.lo = c.lo /\ o.up = c.up)
  \cup FlF("C24.warns_of_experimental_use", \A k \in DOMAIN o.warned : (o.warned[k] > 0) =
                 (Cardinality({n \in {"noisy", "scalar", "cores"} :
                    CASE n = "noisy" -> a.noisy = 1 [] n = "scalar" -> a.ft = "scalar"
                      [] OTHER -> a.cores > 1}) > 1))
  \cup FlF("C24.seed", o.seeded = 1)
  \cup FlF("C24.inputs_unchanged", o.pure = 1)
==============================================================================
