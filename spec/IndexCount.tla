------------------------------ MODULE IndexCount ------------------------------
(* Counting machines (property C02): index histograms, correlation of hits a given   *)
(* number of events apart, and index lookup; one action per entry.                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES inp,   \* [op, xs, shape, ...]
          n,     \* entries consumed
          bag,   \* sequence of counted entries (bins resp. pairs)
          ok     \* no entry was out of range so far
cvars == <<inp, n, bag, ok>>
CInit(x) == inp = x /\ n = 0 /\ bag = <<>> /\ ok = TRUE

InShape(p, s) == \A k \in DOMAIN p : 0 <= p[k] /\ p[k] < s[k]
(* "hist": inp.xs sequence of index tuples, inp.shape *)
CountHist == /\ inp.op = "hist" /\ ok /\ n < Len(inp.xs)
             /\ IF InShape(inp.xs[n + 1], inp.shape)
                THEN bag' = Append(bag, inp.xs[n + 1]) /\ ok' = TRUE
                ELSE ok' = FALSE /\ UNCHANGED bag
             /\ n' = n + 1 /\ UNCHANGED inp
(* "range": inp.xs event numbers, inp.range: pairs of every hit with all hits of the  *)
(* inp.range events before                                                             *)
Before(k) == {m \in 1 .. k - 1 : inp.xs[m] < inp.xs[k] /\ inp.xs[m] >= inp.xs[k] - inp.range}
SeqOf(S) == [k \in 1 .. Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1]
CountRange == /\ inp.op = "range" /\ n < Len(inp.xs)
              /\ LET B == SeqOf(Before(n + 1)) IN bag' = bag \o [k \in DOMAIN B |-> <<B[k], n + 1>>]
              /\ n' = n + 1 /\ UNCHANGED <<inp, ok>>
(* "lookup": positions of the elements of inp.xs found in inp.ys *)
Lookup == /\ inp.op = "lookup" /\ n < Len(inp.xs)
          /\ bag' = IF \E m \in DOMAIN inp.ys : inp.ys[m] = inp.xs[n + 1] THEN Append(bag, <<n + 1>>) ELSE bag
          /\ n' = n + 1 /\ UNCHANGED <<inp, ok>>
CNext == CountHist \/ CountRange \/ Lookup
CDone == n = Len(inp.xs) \/ ~ok

CountOf(p) == Cardinality({k \in DOMAIN bag : bag[k] = p})
HistExact == inp.op = "hist" /\ ok => \A k \in 1 .. n : CountOf(inp.xs[k]) = Cardinality({m \in 1 .. n : inp.xs[m] = inp.xs[k]})
HistRejects == inp.op = "hist" => (ok <=> \A k \in 1 .. n : InShape(inp.xs[k], inp.shape))
RangeExact == inp.op = "range" =>
   \A p, q \in 1 .. n : CountOf(<<p, q>>) = IF inp.xs[q] - inp.xs[p] >= 1 /\ inp.xs[q] - inp.xs[p] <= inp.range THEN 1 ELSE 0
LookupExact == inp.op = "lookup" =>
   \A k \in 1 .. n : (CountOf(<<k>>) = 1) <=> (\E m \in DOMAIN inp.ys : inp.ys[m] = inp.xs[k])
CInv == HistExact /\ HistRejects /\ RangeExact /\ LookupExact
=============================================================================
