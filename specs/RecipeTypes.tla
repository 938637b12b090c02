----------------------------- MODULE RecipeTypes -----------------------------
(* Typing of recipes: merge spaces and model configs of a composition of one method with its arguments.

   A signature is a sequence of parameters (space specification, config demand, kind) and a declared result; a call gives
   every parameter its arguments. The module decides whether the composition is accepted and the space and config of the
   result. It is written declaratively: there is a binding of the variables, or there is none. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NParams, SpaceSpecs, ConfigDemands, Hows, RetSpaces, RetConfigs, ArgSpaces, ArgConfigs, Reals, MaxVar

VARIABLES params, args, ret, pc
vars == <<params, args, ret, pc>>

Spaces == {"w", "d", "p"}
Allowed(spec) ==
  CASE spec = "w" -> {"w"} [] spec = "d" -> {"d"} [] spec = "p" -> {"p"} [] spec = "wd" -> {"w", "d"} [] spec = "wdp" -> Spaces
    [] spec = "A" -> {"w", "d"} [] spec = "B" -> Spaces [] spec = "none" -> Spaces [] spec = "lit" -> {"p"}
IsVar(spec) == spec \in {"A", "B", "none"}
\* a parameter with a default and no declared space is a parameter in "param" space
SpecOf(i) == IF params[i].how = "def" /\ params[i].sp = "none" THEN "p" ELSE params[i].sp

Rank(how) == CASE how = "pos" -> 1 [] how = "def" -> 2 [] how = "var" -> 3 [] how = "kw" -> 4

(* --- which definitions are legal -------------------------------------------------------------------------------- *)
ParamIdx == 1..Len(params)
SpecSet == {SpecOf(i) : i \in ParamIdx}
DefOk ==
  /\ \A i \in ParamIdx : params[i].how = "def" => SpecOf(i) \in {"p", "lit"}
  /\ (\A i \in ParamIdx : params[i].cf # "none") => ret.cf # "none"
  /\ ret.sp \in {"A", "B"} => ret.sp \in SpecSet
  \* the result's space can be determined
  /\ ret.sp = "none" => \/ "none" \in SpecSet
                        \/ (SpecSet \subseteq {"p", "lit"})
                        \/ Cardinality(SpecSet) = 1 /\ ~(\E s \in SpecSet : IsVar(s)) /\ Cardinality(Allowed(CHOOSE s \in SpecSet : TRUE)) = 1

(* --- acceptance --------------------------------------------------------------------------------------------------- *)
Pairs == {<<i, j>> \in ParamIdx \X (1..MaxVar) : j <= Len(args[i])}
ArgOf(p) == args[p[1]][p[2]]
\* a binding of variables to spaces that explains all arguments
Explains(b) == \A p \in Pairs :
  LET spec == SpecOf(p[1]) IN
  /\ ArgOf(p).sp \in Allowed(spec)
  /\ IsVar(spec) => b[spec] = ArgOf(p).sp
Bindings == [{"A", "B", "none"} -> Spaces]
SpacesAccepted == \E b \in Bindings : Explains(b)
ResultSpace ==
  LET b == CHOOSE b \in Bindings : Explains(b)
  IN CASE ret.sp \in Spaces -> ret.sp
       [] ret.sp \in {"A", "B"} -> b[ret.sp]
       [] OTHER -> IF "none" \in SpecSet THEN b["none"] ELSE CHOOSE s \in Allowed(CHOOSE x \in SpecSet : TRUE) : TRUE

Configs == {"cA", "cB", "cC"}
\* candidate result configs: declared, or any
ConfigExplains(r) == \A p \in Pairs :
  LET c == ArgOf(p).cf
      demand == params[p[1]].cf
  IN c = "none" \/ c = (IF demand # "none" THEN demand ELSE r)
Candidates == IF ret.cf # "none" THEN {ret.cf} ELSE Configs
ConfigsAccepted == \E r \in Candidates : ConfigExplains(r)
(* Once the inputs are opened every argument that is a model has a config: the given one, or the one its keys tell
   (arg.real; "adhoc" is the config made for unrecognized models). *)
RealExplains(r) == \A p \in Pairs :
  LET c == ArgOf(p).real
      demand == params[p[1]].cf
  IN c = "none" \/ c = (IF demand # "none" THEN demand ELSE r)
MergeAccepted == \E r \in (IF ret.cf # "none" THEN {ret.cf} ELSE Configs \cup {"adhoc"}) : RealExplains(r)
Open == {p \in Pairs : params[p[1]].cf = "none" /\ ArgOf(p).cf # "none"}
ResultConfig == IF ret.cf # "none" THEN ret.cf
                ELSE IF Open = {} THEN "none" ELSE ArgOf(CHOOSE p \in Open : TRUE).cf

Accepted == SpacesAccepted /\ ConfigsAccepted

(* --- behaviours: build a signature, then a call ------------------------------------------------------------------- *)
Init == params = <<>> /\ args = <<>> /\ ret = [sp |-> "none", cf |-> "none"] /\ pc = "params"

AddParam ==
  /\ pc = "params" /\ Len(params) < NParams
  /\ \E sp \in SpaceSpecs, cf \in ConfigDemands, how \in Hows :
       /\ Len(params) > 0 => Rank(params[Len(params)].how) <= Rank(how)
       /\ how = "var" => \A i \in ParamIdx : params[i].how \notin {"var", "def"}
       /\ how = "var" => sp # "lit"
       /\ params' = Append(params, [sp |-> sp, cf |-> cf, how |-> how])
  /\ UNCHANGED <<args, ret, pc>>

Declare ==
  /\ pc = "params" /\ Len(params) > 0
  /\ \E sp \in RetSpaces, cf \in RetConfigs : ret' = [sp |-> sp, cf |-> cf]
  /\ pc' = "declared"
  /\ UNCHANGED <<params, args>>

Check == /\ pc = "declared" /\ DefOk /\ pc' = "args" /\ UNCHANGED <<params, args, ret>>

ArgChoices(i) == UNION {{[sp |-> s, cf |-> c, form |-> "node", real |-> r] : s \in ArgSpaces, r \in (IF c = "none" THEN Reals ELSE {c})} : c \in ArgConfigs}
                 \cup {[sp |-> "p", cf |-> "none", form |-> "number", real |-> "none"]}
AddArg ==
  /\ pc = "args" /\ Len(args) < Len(params)
  /\ LET i == Len(args) + 1 IN
     \/ \E a \in ArgChoices(i) : args' = Append(args, <<a>>)
     \/ /\ params[i].how = "var" /\ MaxVar > 1
        /\ \E a \in ArgChoices(i), b \in ArgChoices(i) : args' = Append(args, <<a, b>>)
     \/ /\ params[i].how = "def"
        /\ args' = Append(args, <<>>)
  /\ UNCHANGED <<params, ret, pc>>

Done == /\ pc = "args" /\ Len(args) = Len(params) /\ pc' = "final" /\ UNCHANGED <<params, args, ret>>
Next == AddParam \/ Declare \/ Check \/ AddArg \/ Done
Spec == Init /\ [][Next]_vars

(* --- properties of the rules ---------------------------------------------------------------------------------------- *)
Final == pc = "final"
UniqueSpace == Final /\ SpacesAccepted /\ ret.sp \in {"A", "B"} =>
   \A b \in Bindings : Explains(b) => b[ret.sp] = ResultSpace
UniqueConfig == Final /\ ConfigsAccepted /\ ret.cf = "none" /\ Open # {} => Cardinality({r \in Configs : ConfigExplains(r)}) = 1
DemandsMet == Final /\ ConfigsAccepted => \A p \in Pairs : params[p[1]].cf # "none" /\ ArgOf(p).cf # "none" => ArgOf(p).cf = params[p[1]].cf
NeverMixed == Final /\ ConfigsAccepted => \A p, q \in Open : ArgOf(p).cf = ArgOf(q).cf
OpeningOnlyRejects == Final /\ MergeAccepted => ConfigsAccepted
MoreInformationNeverAccepts ==   \* forgetting the config of an argument never turns acceptance into rejection
   Final /\ ConfigsAccepted => \A p \in Pairs : \E r \in Candidates : \A q \in Pairs \ {p} :
     ArgOf(q).cf = "none" \/ ArgOf(q).cf = (IF params[q[1]].cf # "none" THEN params[q[1]].cf ELSE r)

Emit == Final =>
  CSVWrite("%1$s", <<ToJson([params |-> params, ret |-> ret, args |-> args, accepted |-> Accepted,
                             spaces |-> SpacesAccepted, configs |-> ConfigsAccepted, merges |-> MergeAccepted,
                             space |-> IF Accepted THEN ResultSpace ELSE "", config |-> IF Accepted THEN ResultConfig ELSE ""])>>, IOEnv.OUT)
=============================================================================
