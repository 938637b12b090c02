------------------------------ MODULE ConvGraph ------------------------------
(* Conversion: registered converters are edges between configs; converting searches a chain from the config of the recipe to the
   target, level by level. Registrations and conversions alternate: a conversion only sees what is registered by then. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Configs, MaxEdges, MaxConversions, MinEdges

VARIABLES edges, src, tgt, level, dist, phase, history
vars == <<edges, src, tgt, level, dist, phase, history>>

Succ(S) == {e[2] : e \in {edges[i] : i \in {j \in 1..Len(edges) : edges[j][1] \in S}}}
Init == edges = <<>> /\ src = 0 /\ tgt = 0 /\ level = {} /\ dist = 0 /\ phase = "idle" /\ history = <<>>
Register == /\ phase = "idle" /\ Len(edges) < MaxEdges
            /\ \E a, b \in Configs : edges' = Append(edges, <<a, b>>)
            /\ UNCHANGED <<src, tgt, level, dist, phase, history>>
RegisterNext == /\ phase = "idle" /\ Len(edges) < MaxEdges      \* (more often, so that long chains are frequent)
                /\ \E a, b \in Configs : b = (a % Cardinality(Configs)) + 1 /\ edges' = Append(edges, <<a, b>>)
                /\ UNCHANGED <<src, tgt, level, dist, phase, history>>
RegisterLine == /\ phase = "idle" /\ edges = <<>> /\ MaxEdges >= Cardinality(Configs)     \* (a library of one long line of converters)
                /\ edges' = [i \in 1..(Cardinality(Configs) - 1) |-> <<i, i + 1>>]
                /\ UNCHANGED <<src, tgt, level, dist, phase, history>>
Far == {p \in Configs \X Configs : p[1] # p[2] /\ <<p[1], p[2]>> \notin {edges[i] : i \in 1..Len(edges)}}
Convert(Pairs) ==
           /\ phase = "idle" /\ Len(history) < MaxConversions /\ Len(edges) >= MinEdges
           /\ \E p \in Pairs : LET a == p[1] b == p[2] IN src' = a /\ tgt' = b /\ level' = {a}
           /\ dist' = 0 /\ phase' = "search" /\ UNCHANGED <<edges, history>>
Outcome(d) == /\ phase' = "idle" /\ history' = Append(history, [n |-> Len(edges), src |-> src, tgt |-> tgt, dist |-> d])
              /\ UNCHANGED <<edges, src, tgt, level, dist>>
Search == /\ phase = "search"
          /\ IF tgt \in level THEN Outcome(<<dist>>)
             ELSE IF dist > Cardinality(Configs) THEN Outcome(<<>>)
             ELSE /\ level' = Succ(level) /\ dist' = dist + 1 /\ UNCHANGED <<edges, src, tgt, phase, history>>
Next == Register \/ RegisterNext \/ RegisterLine \/ Convert(Configs \X Configs) \/ Convert(Far) \/ Search
Spec == Init /\ [][Next]_vars /\ WF_vars(Search)

(* --- what chains are ------------------------------------------------------------------------------------------------------- *)
Known(n) == {edges[i] : i \in 1..n}
RECURSIVE Chain(_, _, _, _)
Chain(n, a, b, k) == IF k = 0 THEN a = b ELSE \E c \in Configs : <<a, c>> \in Known(n) /\ Chain(n, c, b, k - 1)
Shortest == \A i \in 1..Len(history) :
  LET h == history[i] IN
  IF h.dist = <<>> THEN \A k \in 0..Cardinality(Configs) : ~Chain(h.n, h.src, h.tgt, k)
  ELSE Chain(h.n, h.src, h.tgt, h.dist[1]) /\ \A k \in 0..(h.dist[1] - 1) : ~Chain(h.n, h.src, h.tgt, k)
Nothing == \A i \in 1..Len(history) : history[i].src = history[i].tgt <=> history[i].dist = <<0>>
Monotone == \A i, j \in 1..Len(history) :      \* more converters never make a chain longer
  i < j /\ history[i].src = history[j].src /\ history[i].tgt = history[j].tgt /\ history[i].dist # <<>> =>
  history[j].dist # <<>> /\ history[j].dist[1] <= history[i].dist[1]
Terminates == (phase = "search") ~> (phase = "idle")
Bounded == Cardinality(Configs) >= dist - 1

Complete == phase = "idle" /\ Len(history) = MaxConversions
Emit == Complete => CSVWrite("%1$s", <<ToJson([edges |-> edges, history |-> history])>>, IOEnv.OUT)
=============================================================================
