-------------------------------- MODULE Coerce --------------------------------
(* What a method receives when a Python value is passed for a parameter: a value for every key, or one per key, converted to
   the declared type.

   A parameter declares an element type and whether it takes one value per call ("plain") or a dictionary ("sd"). The value
   given is a scalar, a path, a dictionary of scalars, a dictionary of recipes or something unsupported. Composition comes
   first and may reject; then every key of the config is delivered. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Types, Wraps, Kinds, Forms, NK

Keys == 1..NK
Numbers == {"int", "float", "bool"}
Tensors == {"tensor0", "tensor1"}
Literals == Numbers \cup Tensors \cup {"str", "none"}

VARIABLES param, form, vals, pc, got
vars == <<param, form, vals, pc, got>>

(* one value of kind v for element type t: <<kind it arrives as>> or <<>> when it cannot arrive *)
Arrives(v, t) ==
  CASE t = "T" -> <<v>>
    [] v = "none" -> <<"none">>
    [] t = "str" -> IF v = "str" THEN <<"str">> ELSE <<>>
    [] v = "str" -> <<>>
    [] t = "tensor" -> IF v \in Tensors THEN <<v>> ELSE <<"tensor0">>
    [] t = "int" /\ v = "bool" -> <<"bool">>       \* a bool is an int
    [] OTHER -> <<t>>

Class(v) == IF v \in Numbers THEN "number" ELSE IF v \in Tensors THEN "tensor" ELSE v
Given == {k \in Keys : vals[k] # "absent"}
Consistent == \A j, k \in Given : Class(vals[j]) = Class(vals[k])
\* a dictionary that holds nothing but recipes is the form "recipes"
Meant == ~(form = "dict" /\ Given # {} /\ \A k \in Given : vals[k] = "recipe")
Composes ==
  CASE form = "scalar" -> vals[1] \in Literals
    [] form = "path" -> param.t \in {"tensor", "T"}
    [] form = "dict" -> Consistent /\ \A k \in Given : vals[k] \in Literals      \* recipes next to literals are not consistent
    [] form = "recipes" -> TRUE

(* what key k receives: <<>> (an error), <<"missing">> or <<kind>> *)
Source(k) == IF form = "scalar" THEN vals[1] ELSE vals[k]
Delivered(k) == IF Source(k) = "absent" THEN <<"missing">> ELSE Arrives(Source(k), param.t)

Init == /\ param \in [t : Types, w : Wraps, how : {"pos", "kw"}]
        /\ form \in Forms
        /\ vals = <<>> /\ pc = "values" /\ got = <<>>
Value == /\ pc = "values"
         /\ \E v \in (IF form = "path" THEN {"tensor0", "tensor1", "absent"} ELSE IF form = "recipes" THEN Literals ELSE IF form = "dict" THEN Kinds \cup {"absent"} ELSE Kinds \ {"recipe"}) :
              vals' = Append(vals, v)
         /\ pc' = IF form = "scalar" \/ Len(vals) + 1 = NK THEN "compose" ELSE "values"
         /\ UNCHANGED <<param, form, got>>
Compose == /\ pc = "compose" /\ Meant
           /\ pc' = IF Composes THEN "deliver" ELSE "rejected"
           /\ UNCHANGED <<param, form, vals, got>>
Deliver == /\ pc = "deliver"
           /\ LET k == Len(got) + 1 IN
              IF Delivered(k) = <<>> THEN pc' = "failed" /\ UNCHANGED got
              ELSE got' = Append(got, Delivered(k)[1]) /\ pc' = IF k = NK THEN "final" ELSE "deliver"
           /\ UNCHANGED <<param, form, vals>>
Next == Value \/ Compose \/ Deliver
Spec == Init /\ [][Next]_vars

Final == pc = "final"
Broadcast == Final /\ form = "scalar" => \A j, k \in Keys : got[j] = got[k] /\ got[j] # "missing"
OwnEntry == Final /\ form # "scalar" => \A k \in Keys : (got[k] = "missing") <=> (vals[k] = "absent")
DeclaredTypeUnchanged == Final => \A k \in Keys : Source(k) = param.t => got[k] = Source(k)
DeclaredTypeDelivered == Final => \A k \in Keys : got[k] \in {"missing", "none"} \/ (CASE param.t = "tensor" -> got[k] \in Tensors [] param.t = "T" -> TRUE
                                    [] param.t = "int" -> got[k] \in {"int", "bool"} [] OTHER -> got[k] = param.t)
StringsNeverConverted == Final => \A k \in Keys : Source(k) = "str" => got[k] = "str"
Emit == pc \in {"final", "failed", "rejected"} =>
  CSVWrite("%1$s", <<ToJson([param |-> param, form |-> form, vals |-> vals, pc |-> pc, got |-> IF pc = "final" THEN got ELSE <<>>])>>, IOEnv.OUT)
=============================================================================
