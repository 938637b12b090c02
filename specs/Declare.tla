------------------------------- MODULE Declare --------------------------------
(* Declaring merge methods. A declaration is built parameter by parameter, possibly spoiled at one place, and then made: it is
   accepted exactly when it is well formed. Accepted ones enter the registries (methods, converters), rejected ones change nothing.
   After every declaration the registries are what the accepted ones left, conversions exist exactly along the accepted converters,
   and an accepted method can be composed. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxParams, MaxDecls, Spaces, Configs, Hows, RetSpaces, MethodIds, ConverterIds, Spoils, Binds,
          Tidy      \* declarations are only rejected for being spoiled (to reach long histories of accepted ones)

None == "none"
Unspoiled == [at |-> 99, what |-> "nothing"]
Blank == [id |-> None, conv |-> FALSE, reg |-> TRUE, params |-> <<>>, ret |-> [sp |-> None, cf |-> None], spoil |-> Unspoiled, bind |-> [A |-> "w", D |-> "w"]]

VARIABLES d, pc, log, methods, converters
vars == <<d, pc, log, methods, converters>>

Init == d = Blank /\ pc = "id" /\ log = <<>> /\ methods = [i \in MethodIds \cup ConverterIds |-> 0] /\ converters = [i \in ConverterIds |-> 0]

Rest == UNCHANGED <<log, methods, converters>>
ChooseId == /\ pc = "id" /\ Len(log) < MaxDecls
            /\ \E i \in MethodIds \cup ConverterIds, r \in BOOLEAN, again \in 1..2 :
                 d' = [d EXCEPT !.id = i, !.conv = i \in ConverterIds, !.reg = r \/ again = 2 \/ (Tidy /\ i \in ConverterIds)]
            /\ pc' = "count" /\ Rest
(* parameters in the order of a Python signature: positional, variadic, keyword-only *)
Rank(h) == CASE h = "pos" -> 1 [] h = "var" -> 2 [] OTHER -> 3
Last == d.params[Len(d.params)]
Orders(h) == IF d.params = <<>> THEN TRUE ELSE Rank(Last.how) < Rank(h) \/ (Last.how = h /\ h # "var")
MayDefault(h, def) == /\ (def => h # "var")
                      /\ ((h = "pos" /\ ~def) => \A i \in DOMAIN d.params : ~(d.params[i].how = "pos" /\ d.params[i].def))
Enough == pc = "count" /\ (Tidy /\ d.conv => \E i \in DOMAIN d.params : d.params[i].how # "kw") /\ pc' = "ret" /\ UNCHANGED d /\ Rest
More == /\ pc = "count" /\ Len(d.params) < MaxParams /\ pc' = "param" /\ UNCHANGED d /\ Rest
AddParam == /\ pc = "param"
  /\ \E h \in Hows, sp \in Spaces, cf \in Configs \cup {None}, lit \in BOOLEAN, def \in BOOLEAN :
       /\ Orders(h) /\ MayDefault(h, def) /\ (lit => sp \in {None, "p"})
       /\ (h = "kw" => cf = None)
       /\ (Tidy => /\ (def => sp \in {None, "p"})
                   /\ (d.conv /\ h # "kw" => cf # None)
                   /\ (d.conv /\ h = "pos" => d.params = <<>>)
                   /\ (d.conv /\ h = "kw" => d.params # <<>>))
       /\ (d.conv => /\ (h = "var" => d.params = <<>>)
                     /\ (h # "kw" => sp \in {None, "w", "A"} /\ ~def /\ ~lit)      \* so that converters take and give weights
                     /\ (h = "kw" => def))
       /\ d' = [d EXCEPT !.params = Append(@, [how |-> h, sp |-> sp, cf |-> cf, lit |-> lit, def |-> def])]
  /\ pc' = "count" /\ Rest
Params == d.params
Positional == {i \in DOMAIN Params : Params[i].how = "pos"}
Variadic == {i \in DOMAIN Params : Params[i].how = "var"}
Input == IF Positional # {} THEN Positional ELSE Variadic
SymbolIsUsed == d.ret.sp \in {"A", "B"} => \E i \in DOMAIN Params : Params[i].sp = d.ret.sp
\* inputs that all declare a configuration leave nothing to take the result's from
ConfigKnown == d.ret.cf # None \/ \E i \in DOMAIN Params : Params[i].cf = None
ChooseRet == /\ pc = "ret"
  /\ \E sp \in RetSpaces, cf \in Configs \cup {None}, again \in 1..2 :
       d' = [d EXCEPT !.ret = [sp |-> IF d.conv /\ (sp \notin {None, "w", "A"} \/ (sp = None /\ \E i \in DOMAIN d.params : d.params[i].how # "kw" /\ d.params[i].sp # None)) THEN "w" ELSE sp, cf |-> IF again = 2 /\ d.conv /\ cf = None THEN "X" ELSE cf]]
  /\ (Tidy => SymbolIsUsed' /\ ConfigKnown' /\ (d.conv => d'.ret.cf # None))
  /\ pc' = "bind" /\ Rest
ChooseBind == /\ pc = "bind" /\ \E a, x \in Binds : d' = [d EXCEPT !.bind = [A |-> a, D |-> x]]
              /\ pc' \in {"declare", "spoil"} /\ Rest
\* something of parameter `at` (0: of the return annotation) is not what it has to be
ChooseSpoil == /\ pc = "spoil" /\ \E at \in 0..Len(d.params), w \in Spoils : d' = [d EXCEPT !.spoil = [at |-> at, what |-> w]]
               /\ pc' = "declare" /\ Rest

Annotated == d.spoil.what = "nothing"
DefaultsAreParams == \A i \in DOMAIN Params : Params[i].def => Params[i].sp \in {None, "p"}
IsConversion == d.conv => /\ d.reg
                          /\ Cardinality(Input) = 1
                          /\ \A i \in Input : Params[i].cf # None
                          /\ d.ret.cf # None
WellFormed == Annotated /\ DefaultsAreParams /\ SymbolIsUsed /\ ConfigKnown /\ IsConversion

Edge(c) == LET i == CHOOSE j \in DOMAIN c.params : c.params[j].how \in {"pos", "var"} IN
           <<c.params[i].cf, c.ret.cf>>
\* what is reached from configuration s with the converters of the function cs
Edges(cs, h) == {Edge(h[cs[i]].d) : i \in {j \in DOMAIN cs : cs[j] # 0}}
RECURSIVE Closure(_, _)
Closure(S, es) == LET n == S \cup {e[2] : e \in {x \in es : x[1] \in S}} IN IF n = S THEN S ELSE Closure(n, es)

\* the space each argument of the composition has; defaults are left out
ArgSpace(p) == IF p.def THEN "omitted"
               ELSE CASE p.sp = "A" -> d.bind.A [] p.sp = "B" -> "p" [] p.sp = None -> (IF p.lit /\ p.how # "var" THEN "p" ELSE d.bind.D)
                      [] p.sp = "wd" -> "d" [] OTHER -> p.sp
Result == CASE d.ret.sp = "A" -> (IF \E i \in DOMAIN Params : Params[i].sp = "A" /\ ~Params[i].def THEN d.bind.A ELSE "open")
            [] d.ret.sp = "B" -> (IF \E i \in DOMAIN Params : Params[i].sp = "B" /\ ~Params[i].def THEN "p" ELSE "open")
            [] d.ret.sp = None -> "open" [] OTHER -> d.ret.sp

Declared(ok) ==
  LET n == Len(log) + 1
      ms == IF ok /\ d.reg THEN [methods EXCEPT ![d.id] = n] ELSE methods
      cs == IF ok /\ d.conv THEN [converters EXCEPT ![d.id] = n] ELSE converters
      es == Edges(cs, Append(log, [d |-> d]))
  IN /\ methods' = ms /\ converters' = cs
     /\ log' = Append(log, [d |-> d, ok |-> ok, args |-> [i \in DOMAIN Params |-> ArgSpace(Params[i])], result |-> Result,
                            methods |-> ms, converters |-> cs, reach |-> [c \in Configs |-> Closure({c}, es)]])
     /\ d' = Blank /\ pc' = "id"
Declare == /\ pc = "declare" /\ Declared(WellFormed)
Next == ChooseId \/ Enough \/ More \/ AddParam \/ ChooseRet \/ ChooseBind \/ ChooseSpoil \/ Declare
Spec == Init /\ [][Next]_vars

(* --- properties --------------------------------------------------------------------------------------------------------------- *)
At(i) == log[i]
RejectedChangesNothing == [][(Len(log') > Len(log) /\ ~log'[Len(log')].ok) => methods' = methods /\ converters' = converters]_vars
AcceptedResolves == \A i \in DOMAIN log : log[i].ok /\ log[i].d.reg => log[i].methods[log[i].d.id] = i
UnregisteredUnknown == \A i \in DOMAIN log : \A m \in DOMAIN methods : log[i].methods[m] # 0 => log[log[i].methods[m]].ok /\ log[log[i].methods[m]].d.reg
ConvertersAreMethods == \A c \in ConverterIds : converters[c] = methods[c]
ConvertersCanConvert == \A c \in ConverterIds : converters[c] # 0 => Edge(log[converters[c]].d)[1] # None /\ Edge(log[converters[c]].d)[2] # None
DeterminedResult == \A i \in DOMAIN log : log[i].ok /\ log[i].d.ret.sp # None => log[i].result # None
ReachIsTransitive == \A i \in DOMAIN log : \A a, b, c \in Configs : b \in log[i].reach[a] /\ c \in log[i].reach[b] => c \in log[i].reach[a]

Emit == (Len(log) = MaxDecls /\ pc = "id") => CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.OUT)
=============================================================================
