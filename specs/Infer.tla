------------------------------- MODULE Infer -------------------------------
(* Which config a model has. Configs are registered, models are given with or without a config and wired into a method that may demand configs,
   below a method that may demand one of its result. When the recipe is opened, every model without a config gets one, or shares an ad-hoc
   config with the other such models, or the recipe is rejected. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, IOUtils, Json, CSV
CONSTANTS Count, MaxConfigs, MaxAliases, MaxModels, Extras, Hints, Wired

VARIABLES pc, configs, models, ret, outer
vars == <<pc, configs, models, ret, outer>>
Names == 1..Count
C == 1..Len(configs)
M == 1..Len(models)
ASKED == -1
KeysOf(c) == configs[c].keys
AliasesOf(c) == {p[1] : p \in configs[c].aliases}
Known(c) == KeysOf(c) \cup AliasesOf(c)

Init == pc = "configs" /\ configs = <<>> /\ models = <<>> /\ ret = 0 /\ outer = 0
AddConfig == /\ pc = "configs" /\ Len(configs) < MaxConfigs /\ \E k \in SUBSET Names \ {{}} : configs' = Append(configs, [keys |-> k, aliases |-> {}])
             /\ pc' = "aliases" /\ UNCHANGED <<models, ret, outer>>
\* pairs of an alias and the key it stands for
AddAlias == /\ pc = "aliases" /\ LET c == Len(configs) IN Cardinality(configs[c].aliases) < MaxAliases /\ \E a \in Names \ Known(c), k \in KeysOf(c) : configs' = [configs EXCEPT ![c].aliases = @ \cup {<<a, k>>}]
            /\ UNCHANGED <<pc, models, ret, outer>>
ConfigDone == pc = "aliases" /\ pc' = "configs" /\ UNCHANGED <<configs, models, ret, outer>>
ConfigsDone == pc = "configs" /\ configs # <<>> /\ pc' = "models" /\ UNCHANGED <<configs, models, ret, outer>>
AddModel == /\ pc = "models" /\ Len(models) < MaxModels /\ \E n \in SUBSET Names : models' = Append(models, [names |-> n, extra |-> 0, hint |-> 0, demand |-> 0])
            /\ pc' = "extra" /\ UNCHANGED <<configs, ret, outer>>
\* names that no config knows
AddExtra == pc = "extra" /\ \E e \in Extras : models' = [models EXCEPT ![Len(models)].extra = e] /\ pc' = "hint" /\ UNCHANGED <<configs, ret, outer>>
AddHint == /\ pc = "hint" /\ pc' = "models" /\ UNCHANGED <<configs, ret, outer>>
           /\ \E h \in {0} \cup (IF Hints THEN {ASKED} \cup C ELSE {}) : models' = [models EXCEPT ![Len(models)].hint = h]
\* the method: it may declare the config of its result, and then those of arguments
Wire == /\ pc = "models" /\ models # <<>> /\ pc' = (IF Wired THEN "result" ELSE "done") /\ UNCHANGED <<configs, models, ret, outer>>
Result == pc = "result" /\ pc' = "demands" /\ ret' \in {0} \cup C /\ UNCHANGED <<configs, models, outer>>
Demands == /\ pc = "demands" /\ pc' = "outer" /\ UNCHANGED <<configs, ret, outer>>
           /\ \E d \in [M -> {0} \cup C] : (ret = 0 => \A i \in M : d[i] = 0) /\ models' = [i \in M |-> [models[i] EXCEPT !.demand = d[i]]]
Outer == pc = "outer" /\ pc' = "done" /\ outer' \in {0} \cup (IF ret = 0 THEN C ELSE {ret}) /\ UNCHANGED <<configs, models, ret>>
Next == AddConfig \/ AddAlias \/ ConfigDone \/ ConfigsDone \/ AddModel \/ AddExtra \/ AddHint \/ Wire \/ Result \/ Demands \/ Outer
Spec == Init /\ [][Next]_vars

\* ---- what is known of the models when the recipe is composed has to fit already
Free == {i \in M : models[i].demand = 0}
Composes == /\ \A i \in M : models[i].demand # 0 => models[i].hint \in {0, ASKED, models[i].demand}
            /\ ret # 0 => \A i \in Free : models[i].hint \in {0, ASKED, ret}
            /\ ret = 0 => \A i, j \in M : models[i].hint = models[j].hint \/ models[i].hint < 1 \/ models[j].hint < 1
            /\ outer # 0 => \A i \in Free : models[i].hint \in {0, ASKED, outer}

\* (a config that has to be inferred next to one that is given may be rejected)
Mixed == ret = 0 /\ \E i, j \in M : models[i].hint = ASKED /\ (models[j].hint > 0 \/ outer > 0)
Total(m) == Cardinality(m.names) + m.extra
Matched(m, c) == Cardinality(m.names \cap Known(c))
Qualified(m) == {c \in C : 10 * Matched(m, c) >= Total(m)}
Best(m) == {c \in Qualified(m) : \A e \in Qualified(m) : Matched(m, e) <= Matched(m, c)}
\* a config that knows all keys, nearly all of which are there, may be taken at first sight
Obvious(m) == {c \in C : Matched(m, c) = Total(m) /\ 10 * Matched(m, c) >= 9 * Cardinality(KeysOf(c))}
Demand(i) == IF models[i].demand # 0 THEN models[i].demand ELSE IF ret # 0 THEN ret ELSE outer
ADHOC == 0
FAILS == -1
None(m) == IF m.hint = ASKED THEN FAILS ELSE ADHOC
\* (nothing distinguishes the configs for an empty model)
ByRank(m) == IF Cardinality(Best(m)) = 1 /\ Total(m) > 0 THEN UNION {Best(m)} ELSE {None(m)}
Outcomes(i) == LET m == models[i] IN
  IF m.hint > 0 THEN {m.hint}
  ELSE IF Demand(i) # 0 /\ Demand(i) \in Qualified(m) THEN {Demand(i)} \cup Obvious(m)
  ELSE Obvious(m) \cup (IF Cardinality(Obvious(m)) = 1 /\ Obvious(m) = Best(m) THEN {} ELSE ByRank(m))
\* at least one outcome per model, and what the recipe is then
Sure == \A i \in M : Cardinality(Outcomes(i)) = 1
Outcome(i) == CHOOSE x \in Outcomes(i) : TRUE
Of == IF ret # 0 THEN ret ELSE Outcome(1)
Opens == /\ \A i \in M : Outcome(i) # FAILS
         /\ \A i \in M : Outcome(i) = (IF models[i].demand # 0 THEN models[i].demand ELSE Of)
         /\ outer # 0 => Of = outer
AdHoc == {i \in M : Outcome(i) = ADHOC}
Shared == LET s == {models[i].names : i \in AdHoc} IN {x \in Names : \A n \in s : x \in n}
SharedExtra == Min({models[i].extra : i \in AdHoc})
Has(m, c, k) == k \in m.names \/ \E p \in configs[c].aliases : p[2] = k /\ p[1] \in m.names
OutKeys == IF Of = ADHOC THEN Shared ELSE {k \in KeysOf(Of) : \A i \in Free : Has(models[i], Of, k)}
OutExtra == IF Of = ADHOC THEN SharedExtra ELSE 0

---------------------------------------------------------------------------
Done == pc = "done"
Explicit == Done => \A i \in M : models[i].hint > 0 => Outcomes(i) = {models[i].hint}
AtLeastATenth == Done => \A i \in M : \A c \in Outcomes(i) : c > 0 /\ models[i].hint <= 0 => 10 * Matched(models[i], c) >= Total(models[i])
NoneMatchesMore == Done => \A i \in M : \A c \in Outcomes(i) : c > 0 /\ models[i].hint <= 0 /\ c # Demand(i) => \A e \in C : Matched(models[i], e) <= Matched(models[i], c)
DemandWins == Done => \A i \in M : models[i].hint <= 0 /\ Demand(i) # 0 /\ Demand(i) \in Qualified(models[i]) => Demand(i) \in Outcomes(i)
AskedIsNeverAdHoc == Done => \A i \in M : models[i].hint = ASKED => ADHOC \notin Outcomes(i)
\* an ad-hoc recipe has no key that one of its models lacks
AllHaveIt == Done /\ Sure /\ Opens /\ Of = ADHOC => \A i \in AdHoc : OutKeys \subseteq models[i].names /\ OutExtra <= models[i].extra
AllAdHocOrNone == Done /\ Sure /\ Opens /\ ret = 0 => AdHoc = {} \/ AdHoc = M
Emit == Done => CSVWrite("%1$s", <<ToJson([configs |-> [c \in C |-> [keys |-> KeysOf(c), aliases |-> configs[c].aliases]], models |-> models, ret |-> ret, outer |-> outer, wired |-> Wired, composes |-> Composes, mixed |-> Mixed,
          outcomes |-> [i \in M |-> Outcomes(i)], sure |-> Sure, ranking |-> [i \in M |-> [c \in C |-> IF c \in Qualified(models[i]) THEN Matched(models[i], c) ELSE 0 - 1]], obvious |-> [i \in M |-> Obvious(models[i])],
          opens |-> Composes /\ Sure /\ Opens, of |-> IF Composes /\ Sure /\ Opens THEN Of ELSE 0, keys |-> IF Composes /\ Sure /\ Opens THEN OutKeys ELSE {}, extra |-> IF Composes /\ Sure /\ Opens THEN OutExtra ELSE 0])>>, IOEnv.OUT)
=============================================================================
