------------------------- MODULE GenerateBlocksTrace -------------------------
EXTENDS GenerateBlocks, TraceKit
VARIABLES l, defs, over, todo, at
vars == <<l, defs, over, todo, at>>
Known(id) == SelectSeq(defs, LAMBDA d : d.id = id)
KindOf(id) == Known(id)[1].kind
\* the blocks of one kind in the order they came, each starting where the one before ended
Froms(q) == FoldLeft(LAMBDA z, m : LET t == z.at[m.parameter_id] IN [at |-> [z.at EXCEPT ![m.parameter_id] = Later(t, BlockDur(Known(m.parameter_id)[1], m))], from |-> Append(z.from, t)],
                     [at |-> at, from |-> << >>], q)
Begin(ev) == /\ ev.ok = (\A i \in 1..Len(ev.defs) : ev.defs[i].kind # "ext")
             /\ defs' = ev.defs /\ over' = ev.over /\ todo' = << >> /\ at' = [id \in {ev.defs[i].id : i \in 1..Len(ev.defs)} |-> <<0, 0, 0, 0>>]
Add(ev) == /\ ev.ok = (Known(ev.m.parameter_id) # << >>)
           /\ todo' = (IF ev.ok THEN Append(todo, ev.m) ELSE todo) /\ UNCHANGED <<defs, over, at>>
Gen(ev) == LET mine == SelectSeq(todo, LAMBDA m : KindOf(m.parameter_id) = ev.kind) z == TLCEval(Froms(mine)) n == Len(mine)
               D(i) == Known(mine[i].parameter_id)[1]
               valid == \A i \in 1..n : BlockSaid(D(i), mine[i], z.from[i], over)
               open == \E i \in 1..n : BlockOpen(D(i), mine[i]) IN
           /\ (IF valid THEN ev.ok \/ open ELSE ~ev.ok) = TRUE
           /\ (ev.ok => Len(ev.blocks) = n /\ \A i \in 1..n : ev.blocks[i] = GBlock(D(i), mine[i], z.from[i])) = TRUE
           /\ todo' = SelectSeq(todo, LAMBDA m : KindOf(m.parameter_id) # ev.kind) /\ at' = z.at /\ UNCHANGED <<defs, over>>
Fits(ev) ==
  CASE ev.e = "back" -> ev.ok = BackOk(ev.kind, ev.v) /\ (ev.ok => SaysBack(ev.kind, ev.v, ev.dur, ev.m[1]))
    [] ev.e = "head" -> ev.ok /\ HeadBack(ev.h, ev.m[1])
    [] ev.e = "seqback" -> ev.ok = (ev.p # 255 /\ ev.a # 255) /\ (ev.ok => ev.m[1].p = ev.p + 1 /\ ev.m[1].a = ev.a + 1 /\ HeadBack(ev.h, ev.m[1].h))
    [] ev.e = "extra" -> ev.ok = All(ev.m, ExtraSaid) /\ (ev.ok => ev.y = Each(ev.m, GExtra))
    [] ev.e = "meta" -> ev.ok = All(ev.m, MetaSaid) /\ (ev.ok => ev.y = Each(ev.m, GMeta))
    [] OTHER -> ev.e = "begin"
TraceInit == l = 1 /\ defs = << >> /\ over = FALSE /\ todo = << >> /\ at = << >>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET ev == Trace[l] IN CASE ev.e = "start" -> Begin(ev) [] ev.e = "add" -> Add(ev) [] ev.e = "gen" -> Gen(ev) [] OTHER -> (Fits(ev) = TRUE) /\ UNCHANGED <<defs, over, todo, at>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == Accepted
=============================================================================
