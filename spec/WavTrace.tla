------------------------------ MODULE WavTrace ------------------------------
EXTENDS Wav, TraceKit
VARIABLES l, files, rs
tv == <<l, files, rs>>
Create(ev) == /\ ev.ok = Valid(ev.files, ev.elements, ev.md)
              /\ files' = ev.files
              /\ rs' = (IF ev.ok THEN [i \in 1..Len(ev.md) |-> Reader(ev.elements, ev.md[i])] ELSE << >>)
Read(ev) == LET at == {i \in 1..Len(rs) : rs[i].m.id = ev.id} IN
  /\ ev.ok = (at # {}) /\ UNCHANGED files
  /\ IF at = {} THEN UNCHANGED rs
     ELSE LET i == CHOOSE x \in at : TRUE r == rs[i] f == files[r.m.file] IN
          /\ ev.exact /\ Len(ev.got) = Len(r.m.chs)
          /\ {<<ev.got[k].label, ev.got[k].s>> : k \in 1..Len(ev.got)} = Given(f, r)
          /\ rs' = [rs EXCEPT ![i] = After(f, r)] /\ ev.done = Done(f, After(f, r))
TraceInit == l = 1 /\ files = << >> /\ rs = << >>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET ev == Trace[l] IN CASE ev.e = "create" -> Create(ev) [] ev.e = "read" -> Read(ev) [] OTHER -> ev.e = "begin" /\ UNCHANGED <<files, rs>>
TraceSpec == TraceInit /\ [][TraceNext]_tv
TraceAccepted == Accepted
=============================================================================
