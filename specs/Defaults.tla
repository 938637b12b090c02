------------------------------- MODULE Defaults -------------------------------
(* An object that holds options, and calls made through it. Every option is resolved on its own: the call, else the object, else the
   library. The object is used several times and stays what it was. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Options,      \* names of the options
          Callonly,     \* options only calls have
          Leave,        \* values left out
          Least,        \* how many options are looked at, at least, before an object or a call is made
          MaxUses,
          Scenarios     \* what is merged

VARIABLES obj, given, uses, call, cur, phase, resolved, scenario
vars == <<obj, given, uses, call, cur, phase, resolved, scenario>>

NotGiven == "-"
Of(o) == CASE o \in {"merge_dtype", "output_dtype"} -> {"none", "float32", "float64", "bfloat16"}
           [] o \in {"merge_device", "output_device"} -> {"none", "cpu", "meta"}
           [] o = "threads" -> {"none", "0", "1", "3", "negative"}
           [] o = "total_buffer_size" -> {"0", "5000", "70000"}
           [] o = "model_dirs" -> {"empty", "one", "two", "two one", "gone two"}
           [] o = "tqdm" -> {"first", "second"}
           [] o = "fallback_model" -> {"none", "model"}
           [] OTHER -> {"true", "false"}
Library(o) == CASE o = "merge_dtype" -> "float64" [] o = "output_dtype" -> "float16" [] o \in {"merge_device", "output_device"} -> "cpu"
                [] o = "threads" -> "none" [] o = "total_buffer_size" -> "268435456" [] o = "model_dirs" -> "empty" [] o = "tqdm" -> "library"
                [] o = "fallback_model" -> "none"
                [] o \in {"strict_weight_space", "check_finite", "omit_extra_keys"} -> "true"
                [] o = "check_mandatory_keys" -> "false"
                [] OTHER -> "as omit_extra_keys"
All == Options \cup Callonly
Blank == [o \in All |-> NotGiven]

Init == /\ obj = Blank /\ given = {} /\ uses = <<>> /\ call = Blank /\ cur = {} /\ phase = "object" /\ resolved = Blank /\ scenario = ""
\* the object is made: option by option
GiveObj == /\ phase = "object"
           /\ \E o \in Options \ given : /\ given' = given \cup {o}
                                         /\ \E v \in (Of(o) \ Leave) \cup {NotGiven} : obj' = [obj EXCEPT ![o] = v]
           /\ UNCHANGED <<uses, call, cur, phase, resolved, scenario>>
Made == phase = "object" /\ Cardinality(given) >= Least /\ phase' = "call" /\ UNCHANGED <<obj, given, uses, call, cur, resolved, scenario>>
\* a call: option by option
GiveCall == /\ phase = "call"
            /\ \E o \in All \ cur : /\ cur' = cur \cup {o}
                                    /\ \E v \in (Of(o) \ Leave) \cup {NotGiven} : call' = [call EXCEPT ![o] = v]
            /\ UNCHANGED <<obj, given, uses, phase, resolved, scenario>>
Called == /\ phase = "call" /\ Cardinality(cur) >= Least /\ phase' = "resolve" /\ cur' = {} /\ \E s \in Scenarios : scenario' = s
          /\ UNCHANGED <<obj, given, uses, call, resolved>>
Resolve == /\ phase = "resolve"
           /\ \E o \in All \ cur :
                /\ o = "omit_ema" => "omit_extra_keys" \in cur
                /\ cur' = cur \cup {o}
                /\ resolved' = [resolved EXCEPT ![o] = IF call[o] # NotGiven THEN call[o]
                                                       ELSE IF obj[o] # NotGiven THEN obj[o]
                                                       ELSE IF Library(o) = "as omit_extra_keys" THEN resolved["omit_extra_keys"] ELSE Library(o)]
           /\ UNCHANGED <<obj, given, uses, call, phase, scenario>>
Used == /\ phase = "resolve" /\ cur = All
        /\ uses' = Append(uses, [call |-> call, resolved |-> resolved, scenario |-> scenario])
        /\ call' = Blank /\ cur' = {} /\ resolved' = Blank /\ scenario' = ""
        /\ phase' = (IF Len(uses) + 1 < MaxUses THEN "call" ELSE "done") /\ UNCHANGED <<obj, given>>
Next == GiveObj \/ Made \/ GiveCall \/ Called \/ Resolve \/ Used
Spec == Init /\ [][Next]_vars

CallWins == \A k \in 1..Len(uses) : \A o \in All : uses[k].call[o] # NotGiven => uses[k].resolved[o] = uses[k].call[o]
ObjectElse == \A k \in 1..Len(uses) : \A o \in All : uses[k].call[o] = NotGiven /\ obj[o] # NotGiven => uses[k].resolved[o] = obj[o]
EmaFollows == \A k \in 1..Len(uses) : "omit_ema" \in All /\ uses[k].call["omit_ema"] = NotGiven /\ obj["omit_ema"] = NotGiven
                => uses[k].resolved["omit_ema"] = uses[k].resolved["omit_extra_keys"]
\* equal calls are resolved equally, whatever came before
NoMemory == \A k, m \in 1..Len(uses) : uses[k].call = uses[m].call => uses[k].resolved = uses[m].resolved
Stays == [][phase # "object" => obj' = obj]_vars
Emit == phase = "done" => CSVWrite("%1$s", <<ToJson([object |-> obj, uses |-> uses])>>, IOEnv.OUT)
=============================================================================
