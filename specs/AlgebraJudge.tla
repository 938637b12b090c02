---------------------------- MODULE AlgebraJudge ----------------------------
(* Results of the code for methods that drop entries at random: which of them have a behaviour of Algebra that gives them. *)
EXTENDS Algebra
VARIABLE id
Cases == ndJsonDeserialize(IOEnv.TRACES)
JInit == \E c \in 1..Len(Cases) : /\ id = c /\ pc = "drop" /\ m = Cases[c].m /\ o = Cases[c].o /\ n = Cases[c].n /\ args = Cases[c].args /\ outs = {} /\ kept = Cases[c].args /\ elected = <<>>
JNext == (Drop \/ Share \/ Trim \/ Elect \/ Agree) /\ UNCHANGED id
JSpec == JInit /\ [][JNext]_<<vars, id>>
Explained == (Done /\ \E s \in outs : \A i \in 1..n : Eq(s[i], Cases[id].got[i])) => CSVWrite("%1$s", <<ToString(id)>>, IOEnv.OUT)
=============================================================================
