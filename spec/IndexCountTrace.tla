---------------------------- MODULE IndexCountTrace ----------------------------
EXTENDS IndexCount, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
T == Traces[c]
TInit == CInit(Traces[1].inp) /\ c = 1
NextCase == /\ c' = c + 1 /\ inp' = (IF c < Len(Traces) THEN Traces[c + 1].inp ELSE inp) /\ n' = 0 /\ bag' = <<>> /\ ok' = TRUE
\* sparse histogram h = sequence of <<bin, count>> of the tuples f(bag)
Exact(h, bins) == /\ \A k \in DOMAIN h : h[k][2] = Cardinality({m \in DOMAIN bins : bins[m] = h[k][1]})
                  /\ {h[k][1] : k \in DOMAIN h} = {bins[m] : m \in DOMAIN bins}
                  /\ Cardinality({h[k][1] : k \in DOMAIN h}) = Len(h)
Via(f) == [k \in DOMAIN bag |-> <<f[bag[k][1]], f[bag[k][2]]>>]
Fails ==
  CASE T.r.exc # "" -> IF inp.op = "hist" /\ ~ok /\ T.r.exc = "IndexError" THEN {} ELSE {"a counting primitive failed"}
    [] inp.op = "hist" -> IF ~ok THEN {"an index outside of the histogram was not rejected"}
                          ELSE IF Exact(T.r.h, bag) THEN {} ELSE {"the index histogram"}
    [] inp.op = "range" -> IF Exact(T.r.hx, Via(T.x)) /\ Exact(T.r.hy, Via(T.y)) THEN {} ELSE {"the correlation of hits some events apart"}
    [] inp.op = "lookup" ->
         IF /\ T.r.idx1 = [k \in DOMAIN bag |-> bag[k][1]]
            /\ Len(T.r.idx2) = Len(bag)
            /\ \A k \in DOMAIN bag : T.r.idx2[k] \in DOMAIN inp.ys /\ inp.ys[T.r.idx2[k]] = inp.xs[T.r.idx1[k]]
            /\ Len(T.r.fill) = Len(inp.xs)
            /\ \A k \in DOMAIN inp.xs : IF CountOf(<<k>>) = 1 THEN T.r.fill[k] \in DOMAIN inp.ys /\ inp.ys[T.r.fill[k]] = inp.xs[k]
                                        ELSE T.r.fill[k] = -76
         THEN {} ELSE {"the index lookup"}
TNext == /\ c <= Len(Traces)
         /\ IF ~CDone THEN CNext /\ c' = c
            ELSE (\A f \in Fails : PrintT(<<"BAD", T.id, f>>)) /\ NextCase
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED cvars
TSpec == TInit /\ [][TNext \/ TFinal]_<<cvars, c>>
=============================================================================
