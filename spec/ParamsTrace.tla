----------------------------- MODULE ParamsTrace -----------------------------
EXTENDS Params, TraceKit
B == INSTANCE Bitstream
VARIABLES i, s
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
None == New(<< >>, << >>, 0)
Of(id) == IF id \in DOMAIN s THEN s[id] ELSE None
Manager == /\ Is("manager") /\ E.ok = ~E.twice
           /\ s' = [k \in {E.els[n].id : n \in 1..Len(E.els)} |-> LET x == E.els[CHOOSE n \in 1..Len(E.els) : E.els[n].id = k] IN New(x.dm, x.rg, x.layers)]
AddDm == Is("adddm") /\ s' = [k \in DOMAIN s |-> AddDemixing(s[k], E.id, [start |-> E.start, end |-> E.end, mode |-> E.mode])]
AddRg == Is("addrg") /\ s' = [k \in DOMAIN s |-> AddRecon(s[k], E.id, [start |-> E.start, end |-> E.end, data |-> E.data])]
Set(id, v) == s' = IF id \in DOMAIN s THEN [s EXCEPT ![id] = v] ELSE s
GetDm == Is("getdm") /\ LET r == GetDemixing(Of(E.id)) IN Set(E.id, r.s) /\ E.ok = (r.v # << >>) /\ (E.ok => E.v = r.v[1]) = TRUE
GetRg == Is("getrg") /\ UNCHANGED s /\ LET r == GetRecon(Of(E.id), E.layers) IN E.ok = (r # << >>) /\ (E.ok => E.v = r[1]) = TRUE
UpdDm == Is("upddm") /\ LET r == UpdateDemixing(Of(E.id), E.t) IN Set(E.id, r.s) /\ E.ok = r.ok
UpdRg == Is("updrg") /\ LET r == UpdateRecon(Of(E.id), E.t) IN Set(E.id, r.s) /\ E.ok = r.ok
Has == Is("has") /\ UNCHANGED s /\ E.is = (Of(E.id).dm # << >>)
Whole == Is("whole") /\ UNCHANGED s /\ B!Agrees(E, TRUE) = TRUE
TraceSpec == i = 1 /\ s = << >> /\ [][Manager \/ AddDm \/ AddRg \/ GetDm \/ GetRg \/ UpdDm \/ UpdRg \/ Has \/ Whole]_<<i, s>>
TraceAccepted == Accepted
=============================================================================
