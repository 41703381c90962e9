---------------------------- MODULE NumericTrace ----------------------------
EXTENDS Numeric, TraceKit
VARIABLE l
Pad4(m) == m \o [i \in 1..(4 - Len(m)) |-> 0]
Add(ev) == /\ ev.e = "add"
           /\ LET r == AddM(ev.a, ev.b) IN
              IF r.carry = 0 THEN ev.ok /\ ev.r = r.m ELSE ~ev.ok
Cast(ev) == /\ ev.e = "cast"
            /\ IF Fits(ev.v, ev.to) THEN ev.ok /\ ev.r = ev.v ELSE ~ev.ok
CastAll(ev) == /\ ev.e = "castall"
               /\ IF Len(ev.v) = ev.room /\ \A i \in 1..Len(ev.v) : Fits(ev.v[i], ev.to)
                  THEN ev.ok /\ ev.r = ev.v ELSE ~ev.ok
SizeEq(ev) == /\ ev.e = "size" /\ ev.ok = (~ev.reported.n /\ ev.reported.m = ev.actual.m)
Q78(ev) == /\ ev.e = "q78"
           /\ LET r == IF ev.special # "" THEN {} ELSE FixedQ78(ev.num, ev.f) IN
              IF r = {} THEN ~ev.ok /\ ~ev.wok
              ELSE ev.ok /\ ev.r \in r /\ ev.wok /\ ev.wr = ev.r /\ ev.wback = ev.r
Q08(ev) == /\ ev.e = "q08"
           /\ LET r == IF ev.special # "" THEN {} ELSE FixedQ08(ev.num, ev.f) IN
              IF r = {} THEN ~ev.ok ELSE ev.ok /\ ev.r \in r
\* from fixed point: steps of 1/256, exactly
Q78Back(ev) == ev.e = "q78back" /\ ev.steps = ev.v /\ ev.wsteps = ev.v /\ ev.wq = ev.v
Q08Back(ev) == ev.e = "q08back" /\ ev.steps = ev.v
WritePcm(ev) == /\ ev.e = "writepcm"
                /\ IF ev.bits \in {8, 16, 24, 32}
                   THEN /\ ev.ok /\ ev.moved = ev.bits \div 8
                        /\ ev.out = Write(ev.s, ev.bits \div 8, ev.big)
                   ELSE ~ev.ok /\ ev.moved = 0
                /\ ev.around
ReadPcm(ev) == /\ ev.e = "readpcm"
               /\ IF Len(ev.b) \in 1..4 THEN ev.ok /\ ev.s = Read(ev.b, 4, ev.big) ELSE ~ev.ok
\* clipping of mag/2^f
ClipD(ev) == /\ ev.e = "clip"
             /\ CASE ev.special = "nan" -> ~ev.ok
                  [] ev.special = "+inf" -> ev.ok /\ ev.r = Clip32(FALSE, Lim("u64").hi)
                  [] ev.special = "-inf" -> ev.ok /\ ev.r = Clip32(TRUE, Lim("u64").hi)
                  [] OTHER -> ev.ok /\ ev.r = Norm(Clip32(ev.v.n, Shr(ev.v.m, ev.f)))
\* a normalized sample mag/2^f, f >= 31
ToInt(ev) == /\ ev.e = "toint"
             /\ IF ev.special # "" THEN ~ev.ok
                ELSE ev.ok /\ ev.r = Norm(Clip32(ev.v.n, Shr(ev.v.m, ev.f - 31)))
\* v/2^31: exact as a double; as a float within half a unit of its 24 bits
AbsDiff(x, y) == IF LeqM(x, y) THEN <<y, x>> ELSE <<x, y>>
ToNorm(ev) == /\ ev.e = "tonorm" /\ ev.exact /\ ev.d = ev.v
              /\ ev.back = ev.v
              /\ LET p == AbsDiff(ev.v.m, ev.fl.m)
                     lo == Pad4(<<64, 0>>) IN
                 /\ LeqM(p[1], AddM(p[2], lo).m)
                 /\ (ev.v.m[2] < 256 => ev.fl = ev.v)
                 /\ (~IsZero(ev.v.m) => ev.fl.n = ev.v.n)
Endian(ev) == ev.e = "endian" /\ ev.big = ev.native
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN \/ Add(ev) \/ Cast(ev) \/ CastAll(ev) \/ SizeEq(ev) \/ Q78(ev) \/ Q08(ev) \/ Q78Back(ev)
                                      \/ Q08Back(ev) \/ WritePcm(ev) \/ ReadPcm(ev) \/ ClipD(ev) \/ ToInt(ev) \/ ToNorm(ev) \/ Endian(ev)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
