------------------------- MODULE TelescopeConfigTrace -------------------------
(* Recordings: steps [o: operation, obs: what is seen after it]. obs: exc, duts (in    *)
(* the order of iteration: [id, type, at]), tel, n, names, files: content of the files *)
EXTENDS TelescopeConfig, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, k
T == Traces[c]
S == T.steps[k]
Files == {"a", "b", "c"}
Fun(s) == [i \in {s[j].id : j \in DOMAIN s} |-> LET d == CHOOSE j \in DOMAIN s : s[j].id = i IN [type |-> s[d].type, at |-> s[d].at]]
Cont(x) == [has |-> x.has, tel |-> x.tel, duts |-> Fun(x.duts), others |-> x.others, extra |-> x.extra]
Do(o) == CASE o.op = "add" -> Add(o.id, o.type, o.at)
           [] o.op = "set" -> Set(o.id, o.a, o.v, o.ok)
           [] o.op = "settel" -> SetTel(o.a, o.v)
           [] o.op = "remove" -> Remove(o.id)
           [] o.op = "from" -> IF o.src \in DOMAIN duts THEN FromDut(o.id, o.src, o.type, o.at) ELSE Fail
           [] o.op = "save" -> Save(o.f, o.keep)
           [] o.op = "load" -> Load(o.f)
           [] o.op = "new" -> New(o.f)
           [] o.op = "fresh" -> Fresh
           [] OTHER -> Write(o.f, Cont(o.c))
EqF(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
EqD(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x].type = g[x].type /\ EqF(f[x].at, g[x].at)
FileOk(x, y) == IF x = <<>> \/ y = <<>> THEN x = <<>> /\ y = <<>>
                ELSE LET p == x[1] q == y[1] IN p.has = q.has /\ EqF(p.tel, q.tel) /\ EqD(p.duts, q.duts) /\ p.others = q.others /\ p.extra = q.extra
Lost(e) == e = "error" /\ S.o.op = "load"
Fails(d, t, fl, e) ==
  LET B == S.obs
      Ids == [j \in DOMAIN B.duts |-> B.duts[j].id]
  IN (IF B.exc = e THEN {} ELSE IF e = "" THEN {"failed: " \o S.o.op} ELSE {"accepted: " \o S.o.op})
     \cup (IF Lost(e) \/ B.exc # e THEN {} ELSE
           (IF EqD(Fun(B.duts), d) /\ Len(B.duts) = B.n /\ B.n = Len(B.names) THEN {} ELSE {"DUTs after " \o S.o.op})
           \cup (IF \A i, j \in DOMAIN Ids : i < j => Ids[i] < Ids[j] THEN {} ELSE {"order"})
           \cup (IF \A j \in DOMAIN Ids : j \in DOMAIN B.names /\ B.names[j] = B.duts[j].at["name"][1] THEN {} ELSE {"names"})
           \cup (IF EqF(B.tel, t) THEN {} ELSE {"telescope after " \o S.o.op})
           \cup (IF B.files = <<>> \/ \A j \in DOMAIN B.files : LET y == B.files[j] IN FileOk(fl[y.f], IF y.c = <<>> THEN <<>> ELSE <<Cont(y.c[1])>>) THEN {} ELSE {"file after " \o S.o.op})
           \cup (IF B.open = 1 THEN {} ELSE {"configuration opened"}))
TInit == c = 1 /\ k = 1 /\ CInit(Files)
Restart == duts' = << >> /\ tel' = Zero /\ file' = [f \in Files |-> <<>>] /\ cur' = "" /\ exc' = ""
TNext == /\ c <= Len(Traces)
         /\ IF T.exc # "" THEN PrintT(<<"BAD", T.id, T.exc>>) /\ c' = c + 1 /\ k' = 1 /\ Restart
            ELSE IF k <= Len(T.steps)
            THEN /\ Do(S.o)
                 /\ \A f \in Fails(duts', tel', file', exc') : PrintT(<<"BAD", T.id, f>>)
                 /\ c' = c /\ k' = k + 1
            ELSE c' = c + 1 /\ k' = 1 /\ Restart
TFinal == c = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ c' = c + 1 /\ k' = k /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext \/ TFinal]_<<tvars, c, k>>
===============================================================================
