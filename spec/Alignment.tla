------------------------------- MODULE Alignment -------------------------------
(* Alignment of DUTs from tracks (property C24). A placement is a sequence of six     *)
(* integers: translations x, y, z, rotations alpha, beta, gamma. The groups of DUTs   *)
(* are aligned one after the other and the configuration file is written after each   *)
(* group. The tracks of a DUT are read in chunks; every chunk with usable tracks      *)
(* gives an estimate of the placement, the stored one is their average weighted with  *)
(* the numbers of tracks. Chunks without usable tracks say nothing.                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES inp, exist,  \* input configuration; output configuration that was there before (<<>>: none)
          truth, groups, pars,   \* groups: sequence of sequences of DUTs; pars: parameters to align, per group and DUT
          file, mem,   \* output configuration (<<>>: not yet); copy in memory
          g, i,        \* group, DUT in the group
          w, acc,      \* tracks so far, sum of estimate * tracks
          failed
avars == <<inp, exist, truth, groups, pars, file, mem, g, i, w, acc, failed>>
Par == 1 .. 6
Selected == UNION {{groups[k][j] : j \in DOMAIN groups[k]} : k \in DOMAIN groups}
(* the DUTs that will be aligned start from the input, the others are kept as they were *)
Base == [d \in DOMAIN inp |-> IF exist # <<>> /\ d \notin Selected THEN exist[d] ELSE inp[d]]
AInit(p, e, t, gs, ps) == /\ inp = p /\ exist = e /\ truth = t /\ groups = gs /\ pars = ps
                          /\ file = e /\ mem = <<>> /\ g = 0 /\ i = 0 /\ w = 0 /\ acc = [p6 \in Par |-> 0] /\ failed = FALSE
Prepare == /\ g = 0 /\ file' = Base /\ mem' = Base /\ g' = 1 /\ i' = 1
           /\ UNCHANGED <<inp, exist, truth, groups, pars, w, acc, failed>>
Active == g \in 1 .. Len(groups) /\ i \in 1 .. Len(groups[g]) /\ ~failed
Dut == groups[g][i]
(* n usable tracks; without drift each chunk sees the true placement *)
Chunk(n) == /\ Active
            /\ w' = w + n
            /\ acc' = [p6 \in Par |-> acc[p6] + n * (IF p6 \in pars[g][i] THEN truth[Dut][p6] ELSE mem[Dut][p6])]
            /\ UNCHANGED <<inp, exist, truth, groups, pars, file, mem, g, i, failed>>
Store == /\ Active /\ w > 0
         /\ mem' = [mem EXCEPT ![Dut] = [p6 \in Par |-> acc[p6] \div w]]
         /\ w' = 0 /\ acc' = [p6 \in Par |-> 0] /\ i' = i + 1
         /\ UNCHANGED <<inp, exist, truth, groups, pars, file, g, failed>>
NoTracks == /\ Active /\ w = 0 /\ failed' = TRUE
            /\ UNCHANGED <<inp, exist, truth, groups, pars, file, mem, g, i, w, acc>>
Save == /\ g \in 1 .. Len(groups) /\ ~failed /\ i > Len(groups[g])
        /\ file' = mem /\ g' = g + 1 /\ i' = 1
        /\ UNCHANGED <<inp, exist, truth, groups, pars, mem, w, acc, failed>>
(* what is asked for *)
AlignedIn(n) == UNION {{groups[k][j] : j \in DOMAIN groups[k]} : k \in 1 .. n}
ParsOf(d) == LET k == CHOOSE k \in DOMAIN groups : \E j \in DOMAIN groups[k] : groups[k][j] = d
                 j == CHOOSE j \in DOMAIN groups[k] : groups[k][j] = d
             IN pars[k][j]
Want(d) == [p6 \in Par |-> IF p6 \in ParsOf(d) THEN truth[d][p6] ELSE inp[d][p6]]
After(n) == [d \in DOMAIN inp |-> IF d \in AlignedIn(n) THEN Want(d) ELSE Base[d]]
(* The rotations are stored as angles about x, then y, then z, and changed by turning *)
(* about the fixed axes: a single angle can be kept or changed alone only if          *)
Faithful(s, p) == LET R == s \cap (4 .. 6) IN
  \/ R = {} \/ R = {6} \/ R = 4 .. 6
  \/ R = {5} /\ p[6] = 0
  \/ R = {4} /\ p[5] = 0 /\ p[6] = 0
===============================================================================
