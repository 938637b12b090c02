----------------------------- MODULE Precision -----------------------------
(* Which conversions the values of a merge go through: a tensor of an input passes forwarding methods, dictionaries of recipes, casts and
   conversions until a method receives it; what this method returns is stored. Hyperparameters take the same ways. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Dtypes, Requested, Wrappers, MaxWraps, HyperTypes, HyperForms, Devices,
          Design     \* "inputs": the inputs are converted; "receivers": a design that converts what methods receive

VARIABLES pc, opts, leaf, path, consumer, hyper, hpath, trace, htrace, received, out
vars == <<pc, opts, leaf, path, consumer, hyper, hpath, trace, htrace, received, out>>
Floats == {"float64", "float32", "float16", "bfloat16"}
Last(s) == s[Len(s)]
\* what a method asks its arguments for
Effective(o, default) == IF o = "omitted" THEN default ELSE o
Merge == Effective(opts.merge, "float64")
Output == Effective(opts.output, "float16")
MergeDevice == Effective(opts.mdev, "cpu")
OutputDevice == Effective(opts.odev, "cpu")
\* values are read on the cpu; "meta" stands for any other device (it holds no values, so nothing comes back from it)
Arrived == LET moved == \E j \in 1..Len(received) : received[j] = "to meta" IN IF moved \/ MergeDevice = "meta" THEN "meta" ELSE "cpu"
Kept == IF OutputDevice = "none" THEN Arrived ELSE OutputDevice

Init == /\ pc = "opts" /\ opts = [merge |-> "none", output |-> "none", mdev |-> "none", odev |-> "none"] /\ leaf = [kind |-> "", dt |-> ""] /\ path = <<>> /\ consumer = [type |-> "", returns |-> ""]
        /\ hyper = [t |-> "", form |-> ""] /\ hpath = <<>> /\ trace = <<>> /\ htrace = <<>> /\ received = <<>> /\ out = <<>>
Options == /\ pc = "opts" /\ pc' = "leaf" /\ \E m, o \in Requested \cup {"none", "omitted"} : \E md, od \in Devices : opts' = [merge |-> m, output |-> o, mdev |-> md, odev |-> od]
           /\ UNCHANGED <<leaf, path, consumer, hyper, hpath, trace, htrace, received, out>>
Leaf == /\ pc = "leaf" /\ pc' = "wraps" /\ \E k \in {"file", "tensors", "scalar"}, d \in Dtypes : leaf' = [kind |-> k, dt |-> d]
        /\ UNCHANGED <<opts, path, consumer, hyper, hpath, trace, htrace, received, out>>
\* a tensor that is the same for all keys has no config
Fits(w) == /\ (leaf.kind = "scalar" => w \notin {"pick", "omit", "fallback", "missing fallback", "dict", "convert"})
           /\ (w = "convert" => \A j \in 1..Len(path) : path[j] \notin {"convert", "pick", "omit", "dict", "fallback", "missing fallback"})
Wrap == /\ pc = "wraps" /\ Len(path) < MaxWraps /\ \E w \in Wrappers : Fits(w) /\ path' = Append(path, w)
        /\ UNCHANGED <<pc, opts, leaf, consumer, hyper, hpath, trace, htrace, received, out>>
\* the method that receives it, if any; without one the recipe (or the fallback option) is what was built so far
Consume == /\ pc = "wraps" /\ \E t \in {"tensor", "dict of tensors", "anything", "dict of anything"}, r \in {"it", "float32", "int64"} :
                 consumer' = [type |-> t, returns |-> r]
           /\ pc' = "hyper" /\ UNCHANGED <<opts, leaf, path, hyper, hpath, trace, htrace, received, out>>
NoConsumer == /\ pc = "wraps" /\ leaf.kind # "scalar" /\ \E how \in {"recipe", "fallback option"} : consumer' = [type |-> how, returns |-> "it"]
              /\ pc' = "fetch" /\ UNCHANGED <<opts, leaf, path, hyper, hpath, trace, htrace, received, out>>
Hyper == /\ pc = "hyper" /\ \E t \in HyperTypes, f \in HyperForms : hyper' = [t |-> t, form |-> f]
         /\ pc' = "hwraps" /\ UNCHANGED <<opts, leaf, path, consumer, hpath, trace, htrace, received, out>>
HWrap == /\ pc = "hwraps" /\ Len(hpath) < MaxWraps
         /\ \E w \in Wrappers \cap {"pass", "pass dict", "pick", "fallback"} : /\ (hyper.form \in {"value", "default"} => w \in {"pass", "pass dict"}) /\ hyper.form # "default"
                                                                               /\ hpath' = Append(hpath, w)
         /\ UNCHANGED <<pc, opts, leaf, path, consumer, hyper, trace, htrace, received, out>>
HDone == pc = "hwraps" /\ pc' = "fetch" /\ UNCHANGED <<opts, leaf, path, consumer, hyper, hpath, trace, htrace, received, out>>
\* the merge
Fetch == /\ pc = "fetch" /\ trace' = (IF Merge # "none" /\ Design = "inputs" THEN <<leaf.dt, Merge>> ELSE <<leaf.dt>>) /\ htrace' = <<hyper.t>>
         /\ pc' = "travel" /\ UNCHANGED <<opts, leaf, path, consumer, hyper, hpath, received, out>>
Done == Len(received)
Travel == /\ pc = "travel" /\ path # <<>>
          /\ LET w == Head(path) IN
             IF w = "average" /\ Last(trace) \notin Floats THEN pc' = "unsupported" /\ UNCHANGED <<trace, received>>
             ELSE /\ trace' = (CASE w = "cast to float32" -> Append(trace, "float32") [] w = "cast to float16" -> Append(trace, "float16") [] OTHER -> trace)
                  /\ received' = Append(received, w) /\ UNCHANGED pc
          /\ path' = Tail(path) /\ UNCHANGED <<opts, leaf, consumer, hyper, hpath, htrace, out>>
Arrive == /\ pc = "travel" /\ path = <<>> /\ pc' = "return"
          /\ trace' = (IF Design = "receivers" /\ Merge # "none" /\ consumer.type # "anything" THEN Append(trace, Merge) ELSE trace)
          /\ UNCHANGED <<opts, leaf, path, consumer, hyper, hpath, htrace, received, out>>
Return == /\ pc = "return" /\ pc' = (IF Arrived = "meta" /\ Kept = "cpu" THEN "unsupported" ELSE "end")
          /\ LET r == IF consumer.returns = "it" THEN trace ELSE Append(trace, consumer.returns) IN
             out' = (IF Output = "none" THEN r ELSE Append(r, Output))
          /\ UNCHANGED <<opts, leaf, path, consumer, hyper, hpath, trace, htrace, received>>
Next == Options \/ Leaf \/ Wrap \/ Consume \/ NoConsumer \/ Hyper \/ HWrap \/ HDone \/ Fetch \/ Travel \/ Arrive \/ Return
Spec == Init /\ [][Next]_vars

Casts == \E j \in 1..Len(received) : received[j] \in {"cast to float32", "cast to float16"}
\* a value of an input is converted once, to what is requested, unless the recipe itself converts it
Requests == pc \in {"return", "end"} => /\ (Merge = "none" /\ ~Casts => trace = <<leaf.dt>>)
                                        /\ (Merge # "none" /\ ~Casts => trace = <<leaf.dt, Merge>>)
Stored == pc = "end" => Last(out) = (IF Output # "none" THEN Output ELSE IF consumer.returns # "it" THEN consumer.returns ELSE Last(trace))
OnDevice == pc = "end" => /\ (OutputDevice # "none" => Kept = OutputDevice)
                         /\ (OutputDevice = "none" /\ MergeDevice # "meta" /\ Kept = "meta" => \E j \in 1..Len(received) : received[j] = "to meta")
Untouched == pc = "end" => htrace = <<hyper.t>>
Emit == pc = "end" =>
  CSVWrite("%1$s", <<ToJson([opts |-> opts, leaf |-> leaf, path |-> received, consumer |-> consumer, hyper |-> hyper, hpath |-> hpath, got |-> trace, out |-> out, dev |-> Arrived, odev |-> Kept])>>, IOEnv.OUT)
=============================================================================
