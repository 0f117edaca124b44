------------------------------ MODULE EventMatch ------------------------------
(* Sweep over two sorted sequences of event numbers (property C02): one action per   *)
(* event computes what all event matching primitives owe for this event.             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES a, b,     \* the two event number sequences
          i, j,     \* numbers of rows already swept
          uni,      \* union with the larger multiplicity
          com,      \* common events, each once
          mem,      \* membership of the rows of a in b
          prs,      \* pairs <<row of a, row of b>> of the same event, in order
          slot      \* per row of a: row of b mapped on it, 0 if none
mvars == <<a, b, i, j, uni, com, mem, prs, slot>>

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
RowsOf(s, e) == {n \in DOMAIN s : s[n] = e}
Mult(s, e) == Cardinality(RowsOf(s, e))
Rep(e, n) == [k \in 1 .. n |-> e]

MInit(x, y) == a = x /\ b = y /\ i = 0 /\ j = 0 /\ uni = <<>> /\ com = <<>> /\ mem = <<>> /\ prs = <<>> /\ slot = <<>>
Pending == i < Len(a) \/ j < Len(b)
NextEvent == IF i = Len(a) THEN b[j + 1] ELSE IF j = Len(b) THEN a[i + 1] ELSE Min2(a[i + 1], b[j + 1])

(* all pairs of na rows behind i with nb rows behind j, row of a running slower *)
Pairs(na, nb) == [k \in 1 .. na * nb |-> <<i + 1 + ((k - 1) \div nb), j + 1 + ((k - 1) % nb)>>]

Sweep == LET e == NextEvent
             na == Mult(a, e)
             nb == Mult(b, e) IN
         /\ Pending
         /\ uni' = uni \o Rep(e, Max2(na, nb))
         /\ com' = IF na > 0 /\ nb > 0 THEN Append(com, e) ELSE com
         /\ mem' = mem \o Rep(IF nb > 0 THEN 1 ELSE 0, na)
         /\ prs' = prs \o Pairs(na, nb)
         /\ slot' = slot \o [k \in 1 .. na |-> IF k <= nb THEN j + k ELSE 0]
         /\ i' = i + na /\ j' = j + nb
         /\ UNCHANGED <<a, b>>

-----------------------------------------------------------------------------
Sorted(s) == \A k \in 1 .. Len(s) - 1 : s[k] <= s[k + 1]
Evs == {a[k] : k \in DOMAIN a} \cup {b[k] : k \in DOMAIN b}
Swept == {e \in Evs : \A n \in DOMAIN a : a[n] = e => n <= i} \cap {e \in Evs : \A n \in DOMAIN b : b[n] = e => n <= j}
UnionExact == /\ Sorted(uni)
              /\ \A e \in Swept : Mult(uni, e) = Max2(Mult(a, e), Mult(b, e))
              /\ \A k \in DOMAIN uni : uni[k] \in Swept
CommonExact == /\ \A k \in 1 .. Len(com) - 1 : com[k] < com[k + 1]
               /\ {com[k] : k \in DOMAIN com} = {e \in Swept : Mult(a, e) > 0 /\ Mult(b, e) > 0}
MemberExact == Len(mem) = i /\ \A k \in DOMAIN mem : (mem[k] = 1) <=> (Mult(b, a[k]) > 0)
PairsExact == /\ {prs[k] : k \in DOMAIN prs} = {p \in (1 .. i) \X (1 .. j) : a[p[1]] = b[p[2]]}
              /\ Cardinality({prs[k] : k \in DOMAIN prs}) = Len(prs)
              /\ \A k \in 1 .. Len(prs) - 1 : prs[k][1] < prs[k + 1][1] \/ (prs[k][1] = prs[k + 1][1] /\ prs[k][2] < prs[k + 1][2])
\* the k-th cluster of an event sits on the k-th row of this event
SlotExact == Len(slot) = i /\ \A k \in DOMAIN slot :
               LET nth == Cardinality({n \in 1 .. k : a[n] = a[k]}) IN
               IF nth <= Mult(b, a[k])
               THEN slot[k] # 0 /\ b[slot[k]] = a[k] /\ Cardinality({n \in 1 .. slot[k] : b[n] = a[k]}) = nth
               ELSE slot[k] = 0
MInv == UnionExact /\ CommonExact /\ MemberExact /\ PairsExact /\ SlotExact
=============================================================================
