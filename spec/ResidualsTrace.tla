---------------------------- MODULE ResidualsTrace ----------------------------
(* Recordings: rows, lim as in Residuals (1 / 1000 um), exc, hists: records           *)
(* [name, res: edges, last, pos: edges (<<>>: none), plast, ent: [p, b, count] of the *)
(* bins that are not empty, nbad: bins with negative or broken content],              *)
(* one: everything was read at once, step / size: bin width asked for along the       *)
(* residual and the position axis (-1: automatic), maps: maps of the pixels           *)
(* [kind, ent], grid: edges of the pixels                                             *)
EXTENDS Residuals, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE c
tvars == <<rvars, c>>
T == Traces[c]
W(r, a) == (T.lim[a][1] = <<>> \/ r.hit[a] >= T.lim[a][1][1]) /\ (T.lim[a][2] = <<>> \/ r.hit[a] <= T.lim[a][2][1])
Sel(h, r) == Usable(r) /\ CASE PosAxis(h) = 0 -> W(r, 1) /\ W(r, 2)
                            [] PosAxis(h) = 1 -> W(r, 2)
                            [] OTHER -> W(r, 1)
CellF(h, H, r) == IF ~Sel(h, r) THEN <<0, 0>>
                  ELSE LET b == BinF(H.res, H.last, Res(h, r))
                           p == IF PosAxis(h) = 0 THEN 1 ELSE BinF(H.pos, H.plast, r.off[PosAxis(h)])
                       IN IF b = 0 \/ p = 0 THEN <<0, 0>> ELSE <<p, b>>
Asc(e) == Len(e) >= 2 /\ \A k \in 1 .. Len(e) - 1 : e[k] <= e[k + 1]
Steps(e, w) == w = -1 \/ \A k \in 1 .. Len(e) - 1 : e[k + 1] - e[k] - w \in -2 .. 2
HistFails(H) ==
  LET h == H.name
      C == [k \in DOMAIN T.rows |-> CellF(h, H, T.rows[k])]
      In == {k \in DOMAIN T.rows : C[k] # <<0, 0>>}
      RECURSIVE Sum(_)
      Sum(j) == IF j = 0 THEN 0 ELSE Sum(j - 1) + H.ent[j][3]
  IN IF ~Asc(H.res) \/ (PosAxis(h) # 0 /\ ~Asc(H.pos)) THEN {"edges " \o h}
     ELSE (IF H.nbad = 0 /\ Sum(Len(H.ent)) = Cardinality(In) /\ \A j \in DOMAIN H.ent : H.ent[j][3] = Cardinality({k \in In : C[k] = <<H.ent[j][1], H.ent[j][2]>>})
           THEN {} ELSE {"counts " \o h})
          \cup (IF Steps(H.res, T.step[ResAxis(h)]) /\ (PosAxis(h) = 0 \/ Steps(H.pos, T.size[PosAxis(h)])) THEN {} ELSE {"bin width " \o h})
          \cup (IF T.one /\ PosAxis(h) # 0 /\ \E r \in {T.rows[k] : k \in DOMAIN T.rows} : Usable(r) /\ BinF(H.pos, H.plast, r.off[PosAxis(h)]) = 0 THEN {"position range " \o h} ELSE {})
(* maps of the pixels: number of tracks, and their mean distance between hit and track *)
Pix(r) == LET p == BinF(T.grid[1].e, T.grid[1].last, r.off[1]) q == BinF(T.grid[2].e, T.grid[2].last, r.off[2])
          IN IF p = 0 \/ q = 0 THEN <<0, 0>> ELSE <<p, q>>
MapFails(M) ==
  LET P == [k \in DOMAIN T.rows |-> IF Usable(T.rows[k]) THEN Pix(T.rows[k]) ELSE <<0, 0>>]
      In == {k \in DOMAIN T.rows : P[k] # <<0, 0>>}
      At(x) == {k \in In : P[k] = <<x[1], x[2]>>}
      RECURSIVE Dist(_)
      Dist(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN T.rows[k].d + Dist(S \ {k})
      E == {M.ent[j] : j \in DOMAIN M.ent}
      Shown == {<<x[1], x[2]>> : x \in E}
      Occ == {P[k] : k \in In}
      (* a mean of zero may be left out *)
  IN IF ~(Shown \subseteq Occ) \/ \E x \in Occ \ Shown : M.kind = "count" \/ Dist(At(x)) # 0 THEN {"pixels of the map " \o M.kind}
     ELSE IF M.kind = "count" THEN IF \A x \in E : x[3] = Cardinality(At(x)) THEN {} ELSE {"map count"}
     ELSE IF \A x \in E : LET n == Cardinality(At(x)) IN x[3] * n - Dist(At(x)) \in -(2 * n) .. 2 * n THEN {} ELSE {"map mean"}
None == \A k \in DOMAIN T.rows : ~Usable(T.rows[k])
Fails == IF None THEN IF T.exc = "RuntimeError" THEN {} ELSE {"no track, not reported"}
         ELSE IF T.exc # "" THEN {"failed: " \o T.exc}
         ELSE (IF {T.hists[j].name : j \in DOMAIN T.hists} = Kinds /\ Len(T.hists) = 6 THEN {} ELSE {"histograms missing"})
              \cup UNION {HistFails(T.hists[j]) : j \in DOMAIN T.hists} \cup UNION {MapFails(T.maps[j]) : j \in DOMAIN T.maps}
TInit == c = 1 /\ RInit(<<>>, <<>>)
TNext == /\ c <= Len(Traces)
         /\ \A f \in Fails : PrintT(<<"BAD", T.id, f>>)
         /\ c' = c + 1 /\ UNCHANGED rvars
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ UNCHANGED rvars
TSpec == TInit /\ [][TNext \/ TFinal]_tvars
===============================================================================
