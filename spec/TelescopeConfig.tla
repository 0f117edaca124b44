---------------------------- MODULE TelescopeConfig ----------------------------
(* Telescope object and its configuration files (property C19). Values are sequences: *)
(* <<>> is None, <<v>> a number (in eighths) or a text, <<a, b>> a pair.               *)
EXTENDS Integers, Sequences, TLC
VARIABLES duts,  \* id -> [type, at: attribute -> value]
          tel,   \* attribute -> value
          file,  \* file name -> <<>> or <<content>>; content: [has: there is a telescope, tel, duts, others, extra]
          cur,   \* file used by default, "" if none
          exc    \* outcome of the last operation: "" or "error"
tvars == <<duts, tel, file, cur, exc>>
Placement == {"translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma"}
Pairs == {"x_limit", "y_limit"}
Common == Placement \cup Pairs \cup {"name", "material_budget", "intrinsic_resolution"}
Geometry == {"column_size", "row_size", "n_columns", "n_rows"}
FreeTypes == {"RectangularPixelDut", "RectangularPixelDutWithDoubleColumns"}
DiamondTypes == {"Diamond3DpCVD", "DiamondPseudo3DpCVD"}
FixedTypes == {"FEI4", "RD53A", "RD53A_8x8", "ITkPix", "ITkPix_8x8", "TJMonopix1", "TJMonopix1_2x2", "PSI46", "Mimosa26", "DepfetH5z85", "DepfetH5z55", "Timepix3", "ScatteringPlane"}
Types == FreeTypes \cup DiamondTypes \cup FixedTypes
Attrs(t) == Common \cup (IF t \in FreeTypes THEN Geometry ELSE IF t \in DiamondTypes THEN {"sensor_position"} ELSE {})
Required(t) == Attrs(t) \ {"name", "x_limit", "y_limit", "material_budget", "intrinsic_resolution"}
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
Norm(a, v) == IF a \in Pairs /\ v # <<>> THEN <<Lo(v[1], v[2]), Hi(v[1], v[2])>>
              ELSE IF a = "material_budget" /\ v = <<>> THEN <<0>> ELSE v
Default(t, id, a) == CASE a = "name" -> <<"DUT" \o ToString(id)>>
                       [] a = "material_budget" -> <<0>>
                       [] a = "intrinsic_resolution" -> IF t = "Mimosa26" THEN <<28, 28>> ELSE <<>>
                       [] OTHER -> <<>>
(* a new DUT made of the given attributes *)
Valid(t, at) == t \in Types /\ DOMAIN at \subseteq Attrs(t) /\ Required(t) \subseteq DOMAIN at
Made(t, id, at) == [type |-> t, at |-> [a \in Attrs(t) |-> IF a \in DOMAIN at THEN Norm(a, at[a]) ELSE Default(t, id, a)]]
TypeOf(d) == IF d.type = "" THEN "RectangularPixelDut" ELSE d.type
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Zero == [a \in Placement |-> <<0>>]
CInit(fs) == duts = << >> /\ tel = Zero /\ file = [f \in fs |-> <<>>] /\ cur = "" /\ exc = ""
Fail == exc' = "error" /\ UNCHANGED <<duts, tel, file, cur>>
Add(id, t, at) == IF Valid(t, at)
                  THEN duts' = Over(duts, (id :> Made(t, id, at))) /\ exc' = "" /\ UNCHANGED <<tel, file, cur>>
                  ELSE Fail
(* only the attributes of the type can be set, and only to proper values *)
Set(id, a, v, proper) == IF id \in DOMAIN duts /\ a \in Attrs(duts[id].type) /\ proper
                  THEN duts' = [duts EXCEPT ![id].at[a] = Norm(a, v)] /\ exc' = "" /\ UNCHANGED <<tel, file, cur>>
                  ELSE Fail
SetTel(a, v) == tel' = [tel EXCEPT ![a] = v] /\ exc' = "" /\ UNCHANGED <<duts, file, cur>>
Remove(id) == IF id \in DOMAIN duts THEN duts' = [k \in DOMAIN duts \ {id} |-> duts[k]] /\ exc' = "" /\ UNCHANGED <<tel, file, cur>> ELSE Fail
(* another type with the same common properties; the given ones replace them *)
FromDut(id, src, t, at) ==
   LET common == [a \in Attrs(t) \cap Attrs(duts[src].type) |-> duts[src].at[a]]
       all == Over(common, at)
   IN IF src \in DOMAIN duts /\ Valid(t, all)
      THEN duts' = Over(duts, (id :> Made(t, id, all))) /\ exc' = "" /\ UNCHANGED <<tel, file, cur>>
      ELSE Fail
Name(f) == IF f = "" THEN cur ELSE f
Content(keep, old) == [has |-> TRUE, tel |-> tel, duts |-> duts,
                       others |-> IF keep /\ old # <<>> THEN old[1].others ELSE "",
                       extra |-> IF keep /\ old # <<>> /\ old[1].has THEN old[1].extra ELSE ""]
Save(f, keep) == IF Name(f) = "" THEN Fail
                 ELSE /\ cur' = Name(f) /\ exc' = "" /\ UNCHANGED <<duts, tel>>
                      /\ file' = [file EXCEPT ![Name(f)] = <<Content(keep, @)>>]
(* into an object: what the file holds replaces what the object has *)
Readable(c) == ~c.has \/ \A id \in DOMAIN c.duts : Valid(TypeOf(c.duts[id]), c.duts[id].at)
Loaded(f, d0, t0) ==
   LET c == file[f][1] IN
   IF ~c.has THEN duts' = d0 /\ tel' = t0
   ELSE /\ duts' = Over(d0, [id \in DOMAIN c.duts |-> Made(TypeOf(c.duts[id]), id, c.duts[id].at)])
        /\ tel' = [a \in Placement |-> IF a \in DOMAIN c.tel THEN c.tel[a] ELSE t0[a]]
CanLoad(f) == Name(f) # "" /\ file[Name(f)] # <<>> /\ Readable(file[Name(f)][1])
Load(f) == IF CanLoad(f) THEN Loaded(Name(f), duts, tel) /\ cur' = Name(f) /\ exc' = "" /\ UNCHANGED file
           ELSE Fail
New(f) == IF CanLoad(f) /\ f # "" THEN Loaded(f, << >>, Zero) /\ cur' = f /\ exc' = "" /\ UNCHANGED file
          ELSE Fail
Fresh == duts' = << >> /\ tel' = Zero /\ cur' = "" /\ exc' = "" /\ UNCHANGED file
(* written by hand *)
Write(f, c) == file' = [file EXCEPT ![f] = <<c>>] /\ exc' = "" /\ UNCHANGED <<duts, tel, cur>>
===============================================================================
