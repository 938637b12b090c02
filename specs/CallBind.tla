------------------------------- MODULE CallBind -------------------------------
(* How the arguments of a call are bound to the parameters of a method: positional parameters (the last NDef of them with a
   default), optionally a variadic one, keyword-only parameters with or without default. The binding is a sequence of steps,
   as Python defines it; the invariants state what a complete binding is. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxPos, MaxKw, MaxArgs

VARIABLES sig,     \* [pos: number of positional parameters, def: how many have defaults, var: BOOLEAN, kw: sequence of BOOLEAN (has default)]
          call,    \* [n: number of positional arguments, ks: set of names given by keyword]
          slot,    \* name -> what it is bound to
          rest,    \* positional arguments bound to the variadic parameter
          pc, i
vars == <<sig, call, slot, rest, pc, i>>

PosName(j) == "p" \o ToString(j)
KwName(j) == "k" \o ToString(j)
PosNames(s) == {PosName(j) : j \in 1..s.pos}
KwNames(s) == {KwName(j) : j \in 1..Len(s.kw)}
AllNames(s) == PosNames(s) \cup KwNames(s)
HasDefault(s, name) == (\E j \in 1..s.pos : name = PosName(j) /\ j > s.pos - s.def) \/ (\E j \in 1..Len(s.kw) : name = KwName(j) /\ s.kw[j])
Sigs == {[pos |-> p, def |-> d, var |-> v, kw |-> k] : p \in 0..MaxPos, d \in 0..MaxPos, v \in BOOLEAN, k \in UNION {[1..m -> BOOLEAN] : m \in 0..MaxKw}}
LegalSigs == {s \in Sigs : s.def <= s.pos /\ s.pos + Len(s.kw) + (IF s.var THEN 1 ELSE 0) > 0}
Free == <<"free">>
Positional(j) == <<"arg", j>>
Keyword == <<"kw">>
Default == <<"default">>

Init == /\ sig \in LegalSigs
        /\ call = [n |-> 0, ks |-> {}]
        /\ slot = <<>> /\ rest = <<>> /\ pc = "call" /\ i = 0
Call == /\ pc = "call"
        /\ \E n \in 0..MaxArgs, ks \in SUBSET (AllNames(sig) \cup {"unheard"} \cup (IF sig.var THEN {"rest"} ELSE {})) : call' = [n |-> n, ks |-> ks]
        /\ slot' = [name \in AllNames(sig) |-> Free]
        /\ pc' = "positional" /\ i' = 1
        /\ UNCHANGED <<sig, rest>>
BindPositional ==
  /\ pc = "positional"
  /\ IF i > call.n THEN pc' = "keyword" /\ UNCHANGED <<slot, rest, i>>
     ELSE IF i <= sig.pos THEN slot' = [slot EXCEPT ![PosName(i)] = Positional(i)] /\ i' = i + 1 /\ UNCHANGED <<rest, pc>>
     ELSE IF sig.var THEN rest' = Append(rest, i) /\ i' = i + 1 /\ UNCHANGED <<slot, pc>>
     ELSE pc' = "rejected" /\ UNCHANGED <<slot, rest, i>>
  /\ UNCHANGED <<sig, call>>
BindKeyword ==
  /\ pc = "keyword"
  /\ IF \E k \in call.ks : k \notin AllNames(sig) \/ slot[k] # Free
     THEN pc' = "rejected" /\ UNCHANGED slot
     ELSE slot' = [name \in AllNames(sig) |-> IF name \in call.ks THEN Keyword ELSE slot[name]] /\ pc' = "defaults"
  /\ UNCHANGED <<sig, call, rest, i>>
FillDefaults ==
  /\ pc = "defaults"
  /\ IF \E name \in AllNames(sig) : slot[name] = Free /\ ~HasDefault(sig, name)
     THEN pc' = "rejected" /\ UNCHANGED slot
     ELSE slot' = [name \in AllNames(sig) |-> IF slot[name] = Free THEN Default ELSE slot[name]] /\ pc' = "bound"
  /\ UNCHANGED <<sig, call, rest, i>>
Next == Call \/ BindPositional \/ BindKeyword \/ FillDefaults
Spec == Init /\ [][Next]_vars

(* --- what a binding has to be, independently of the steps ------------------------------------------------------------ *)
GivenTwice == \E j \in 1..sig.pos : j <= call.n /\ PosName(j) \in call.ks
Acceptable == /\ call.n > sig.pos => sig.var
              /\ call.ks \subseteq AllNames(sig)
              /\ ~GivenTwice
              /\ \A name \in AllNames(sig) : HasDefault(sig, name) \/ name \in call.ks \/ \E j \in 1..sig.pos : name = PosName(j) /\ j <= call.n
AcceptedIffAcceptable == (pc = "bound" => Acceptable) /\ (pc = "rejected" => ~Acceptable)
EveryArgumentUsedOnce == pc = "bound" =>
   /\ \A j \in 1..call.n : Cardinality({name \in AllNames(sig) : slot[name] = Positional(j)}) + (IF \E l \in 1..Len(rest) : rest[l] = j THEN 1 ELSE 0) = 1
   /\ \A k \in call.ks : slot[k] = Keyword
EverySlotFilled == pc = "bound" => \A name \in AllNames(sig) : slot[name] # Free /\ (slot[name] = Default => HasDefault(sig, name) /\ name \notin call.ks)

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Emit == pc \in {"bound", "rejected"} =>
  CSVWrite("%1$s", <<ToJson([sig |-> sig, n |-> call.n, ks |-> SetToSeq(call.ks), accepted |-> pc = "bound",
                             pos |-> [j \in 1..sig.pos |-> slot[PosName(j)]], kw |-> [j \in 1..Len(sig.kw) |-> slot[KwName(j)]], rest |-> rest])>>, IOEnv.OUT)
=============================================================================
