--------------------------- MODULE TelescopeConfigMC ---------------------------
EXTENDS TelescopeConfig, FiniteSets, Json, IOUtils, SequencesExt
CONSTANTS Depth, OpLen
VARIABLES n, last
mvars == <<tvars, n, last>>
Ids == {0, 3}
Files == {"a", "b"}
P0 == [a \in Placement |-> <<IF a = "translation_z" THEN 8 ELSE 0>>]
G0 == Over(P0, [column_size |-> <<400>>, row_size |-> <<80>>, n_columns |-> <<8 * 5>>, n_rows |-> <<8 * 7>>])
Partial == Over(P0, [x_limit |-> <<80, -80>>])
Hand == {[has |-> FALSE, tel |-> << >>, duts |-> << >>, others |-> "o", extra |-> ""],
         [has |-> TRUE, tel |-> [rotation_beta |-> <<4>>], duts |-> (3 :> [type |-> "", at |-> G0]), others |-> "", extra |-> "e"],
         [has |-> TRUE, tel |-> << >>, duts |-> (0 :> [type |-> "FEI4", at |-> G0]), others |-> "", extra |-> ""]}
Ops == {[op |-> "add", id |-> i, type |-> "FEI4", at |-> Partial] : i \in Ids}
  \cup {[op |-> "add", id |-> 3, type |-> "RectangularPixelDut", at |-> G0], [op |-> "add", id |-> 0, type |-> "RectangularPixelDut", at |-> P0]}
  \cup {[op |-> "set", id |-> 3, a |-> a, v |-> <<24>>, ok |-> TRUE] : a \in {"rotation_gamma", "column_size"}}
  \cup {[op |-> "settel", a |-> "translation_x", v |-> <<16>>], [op |-> "remove", id |-> 3], [op |-> "from", id |-> 0, src |-> 3, type |-> "Mimosa26", at |-> [translation_y |-> <<9>>]]}
  \cup {[op |-> "save", f |-> f, keep |-> k] : f \in {"", "a"}, k \in BOOLEAN}
  \cup {[op |-> "load", f |-> f] : f \in {"", "a"}} \cup {[op |-> "new", f |-> "a"], [op |-> "fresh"]}
  \cup {[op |-> "write", f |-> "a", c |-> c] : c \in Hand}
Do(o) == CASE o.op = "add" -> Add(o.id, o.type, o.at)
           [] o.op = "set" -> Set(o.id, o.a, o.v, o.ok)
           [] o.op = "settel" -> SetTel(o.a, o.v)
           [] o.op = "remove" -> Remove(o.id)
           [] o.op = "from" -> IF o.src \in DOMAIN duts THEN FromDut(o.id, o.src, o.type, o.at) ELSE Fail
           [] o.op = "save" -> Save(o.f, o.keep)
           [] o.op = "load" -> Load(o.f)
           [] o.op = "new" -> New(o.f)
           [] o.op = "fresh" -> Fresh
           [] OTHER -> Write(o.f, o.c)
MInit == CInit(Files) /\ n = 0 /\ last = <<>>
MStep == n < Depth /\ \E o \in Ops : Do(o) /\ n' = n + 1 /\ last' = <<o>>
MSpec == MInit /\ [][MStep]_mvars
TypeOk == /\ DOMAIN tel = Placement
          /\ \A i \in DOMAIN duts : DOMAIN duts[i].at = Attrs(duts[i].type) /\ duts[i].type \in Types
          /\ \A i \in DOMAIN duts : \A a \in Pairs : duts[i].at[a] # <<>> => duts[i].at[a][1] <= duts[i].at[a][2]
(* what was saved is what a new telescope gets from the file *)
Saved == (last # <<>> /\ last[1].op = "save" /\ exc = "") =>
         LET c == file[cur][1] IN Readable(c) /\ c.tel = tel /\ c.duts = duts
           /\ [id \in DOMAIN c.duts |-> Made(TypeOf(c.duts[id]), id, c.duts[id].at)] = duts
(* saving again changes nothing; a failed operation changes nothing *)
Again == [][(last' # <<>> /\ last'[1].op = "save" /\ last # <<>> /\ last[1].op = "save" /\ exc = "" /\ Name(last'[1].f) = cur /\ (last'[1].keep \/ ~last[1].keep)) => file' = file]_mvars
FailSame == [][exc' = "error" => UNCHANGED <<duts, tel, file>>]_mvars
Kept == [][(last' # <<>> /\ last'[1].op = "save" /\ exc' = "" /\ last'[1].keep /\ file[cur'] # <<>>) => file'[cur'][1].others = file[cur'][1].others]_mvars
ESpec == CInit(Files) /\ n = 0 /\ last = <<>> /\ [][FALSE]_mvars
Seqs == UNION {[1 .. k -> Ops] : k \in 1 .. OpLen}
ASSUME IOEnv.OUT = "none" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({<<o>> : o \in Ops}))
===============================================================================
