---------------------------- MODULE CombineFilesMC ----------------------------
EXTENDS CombineFiles, TLC
CONSTANTS MaxLen, NFiles
Evs(n) == {e \in [1 .. n -> 0 .. 2] : \A q \in 1 .. n - 1 : e[q] <= e[q + 1]}
EvTabs == UNION {{[q \in 1 .. n |-> <<e[q], q>>] : e \in Evs(n)} : n \in 0 .. MaxLen}
Plains == UNION {{[q \in 1 .. n |-> <<-1, q>>]} : n \in 0 .. MaxLen}
Files == {("A" :> a) : a \in EvTabs} \cup {("B" :> b) : b \in Plains} \cup {("A" :> a) @@ ("B" :> b) : a \in {<<>>, <<<<1, 1>>>>}, b \in Plains}
MCSpec == CInit([1 .. NFiles -> Files], [1 .. NFiles -> {NoOff, 0, 5}], {{}, {"A"}, {"B"}}) /\ [][CNext]_cvars
=============================================================================
