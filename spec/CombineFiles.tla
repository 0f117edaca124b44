----------------------------- MODULE CombineFiles -----------------------------
(* Combining the tables of several files (property C15). A file maps table names to        *)
(* sequences of rows <<event number, id>> (event number -1: the table has no event numbers). *)
(* The files are appended one after the other, chunk by chunk; the events of a table are    *)
(* shifted behind the last one stored for this table, or by the given offset.               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES files, offs, names, f, tname, pos, last, out, applied
cvars == <<files, offs, names, f, tname, pos, last, out, applied>>
NoOff == -1     \* no offset given
HasEv(s) == s # <<>> /\ s[1][1] # -1
Tables == UNION {DOMAIN files[i] : i \in DOMAIN files}
Wanted == IF names = {} THEN Tables ELSE names \cap Tables
CInit(FF, OO, NN) == /\ files \in FF /\ offs \in OO /\ names \in NN /\ Len(offs) = Len(files)
                     /\ f = 1 /\ tname = "" /\ pos = 0
                     /\ last = [t \in Tables |-> -1] /\ out = [t \in Tables |-> <<>>] /\ applied = [t \in Tables |-> <<>>]
Off(t) == IF offs[f] # NoOff THEN offs[f] ELSE last[t] + 1
(* tables of the current file that are still to be read *)
Todo == IF f > Len(files) THEN {} ELSE {t \in DOMAIN files[f] \cap Wanted : ~(\E g \in DOMAIN applied[t] : applied[t][g][1] = f)}
BeginTable == /\ f <= Len(files) /\ tname = ""
              /\ \E t \in Todo : tname' = t /\ pos' = 0 /\ applied' = [applied EXCEPT ![t] = Append(@, <<f, Off(t)>>)]
              /\ UNCHANGED <<files, offs, names, f, last, out>>
Shift(t, r) == <<IF r[1] = -1 THEN -1 ELSE r[1] + applied[t][Len(applied[t])][2], r[2]>>
AppendChunk == /\ tname # "" /\ pos < Len(files[f][tname])
               /\ \E hi \in pos + 1 .. Len(files[f][tname]) :
                    /\ out' = [out EXCEPT ![tname] = @ \o [q \in 1 .. hi - pos |-> Shift(tname, files[f][tname][pos + q])]]
                    /\ pos' = hi
               /\ UNCHANGED <<files, offs, names, f, tname, last, applied>>
EndTable == /\ tname # "" /\ pos = Len(files[f][tname])
            /\ last' = IF out[tname] = <<>> \/ out[tname][1][1] = -1 THEN last ELSE [last EXCEPT ![tname] = out[tname][Len(out[tname])][1]]
            /\ tname' = "" /\ UNCHANGED <<files, offs, names, f, pos, out, applied>>
NextFile == /\ f <= Len(files) /\ tname = "" /\ Todo = {} /\ f' = f + 1 /\ UNCHANGED <<files, offs, names, tname, pos, last, out, applied>>
CNext == BeginTable \/ AppendChunk \/ EndTable \/ NextFile
-----------------------------------------------------------------------------
(* what is to be found, without reference to the actions *)
RECURSIVE Cat(_, _, _)
Cat(F, t, i) == IF i = 0 THEN <<>> ELSE Cat(F, t, i - 1) \o (IF t \in DOMAIN F[i] THEN F[i][t] ELSE <<>>)
(* file of the k-th row of the combined table *)
RECURSIVE Owner(_, _, _)
Owner(F, t, i) == IF i = 0 THEN <<>> ELSE Owner(F, t, i - 1) \o [q \in 1 .. (IF t \in DOMAIN F[i] THEN Len(F[i][t]) ELSE 0) |-> i]
RowsOk(F, t, o) == LET w == Cat(F, t, Len(F)) IN Len(o) = Len(w) /\ \A q \in DOMAIN o : o[q][2] = w[q][2]
(* shift of each file is one constant: the given offset, or automatic *)
ShiftOk(F, O, t, o) == LET w == Cat(F, t, Len(F)) own == Owner(F, t, Len(F)) IN
  \A q \in DOMAIN o : w[q][1] # -1 =>
     LET s == o[q][1] - w[q][1] i == own[q] before == {p \in 1 .. q : own[p] < i} IN
       IF O[i] # NoOff THEN s = O[i] ELSE s = IF before = {} THEN 0 ELSE o[Cardinality(before)][1] + 1
Auto(O) == \A i \in DOMAIN O : O[i] = NoOff
NoShare(F, O, t, o) == Auto(O) => LET own == Owner(F, t, Len(F)) IN \A p, q \in DOMAIN o : p < q /\ o[p][1] # -1 /\ own[p] # own[q] => o[p][1] < o[q][1]
Ordered(O, o) == Auto(O) => \A q \in 2 .. Len(o) : o[q - 1][1] <= o[q][1]
Plain(o) == \A q \in DOMAIN o : TRUE
CDone == f > Len(files)
Exact == CDone => \A t \in Wanted : RowsOk(files, t, out[t]) /\ ShiftOk(files, offs, t, out[t]) /\ NoShare(files, offs, t, out[t]) /\ Ordered(offs, out[t])
OnlyNamed == \A t \in Tables \ Wanted : out[t] = <<>>
=============================================================================
