----------------------------- MODULE Descriptors -----------------------------
(* What a parser of descriptors finds in the first n bytes of a sequence of
   OBUs. OBU: k (hdr, cc, ae, mix, skip, tu, or bad for an illegal header),
   r (redundant copy), ok (legal contents), id, ref(s), tag (its identity), and
   at, need, end: where it starts, where its size is known, where it ends. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Nothing == [h |-> << >>, red |-> FALSE, cc |-> << >>, ae |-> << >>, mix |-> << >>]
Has(list, id) == \E i \in 1..Len(list) : list[i].id = id
Named(list, id) == list[CHOOSE i \in 1..Len(list) : list[i].id = id]
\* what the parser knows after one more descriptor: the first of each identified object, only
\* elements whose codec config is known, only mixes whose elements are
Learn(d, o) ==
  CASE o.k = "hdr" -> [d EXCEPT !.h = <<[p |-> o.p, a |-> o.a]>>, !.red = o.r]
    [] o.k = "cc" /\ o.ok /\ ~Has(d.cc, o.id) -> [d EXCEPT !.cc = Append(@, [id |-> o.id, tag |-> o.tag])]
    [] o.k = "ae" /\ o.ok /\ ~Has(d.ae, o.id) /\ Has(d.cc, o.ref) ->
         [d EXCEPT !.ae = Append(@, [id |-> o.id, tag |-> o.tag, cc |-> Named(d.cc, o.ref).tag])]
    [] o.k = "mix" /\ o.ok /\ (\A i \in 1..Len(o.refs) : Has(d.ae, o.refs[i])) -> [d EXCEPT !.mix = Append(@, [id |-> o.id, tag |-> o.tag])]
    [] OTHER -> d
\* s.go: still reading
Read(s, o, n, exact) ==
  IF ~s.go THEN s
  ELSE IF n < o.need THEN [s EXCEPT !.go = FALSE, !.st = "more"]
  ELSE IF o.k = "tu" THEN (IF exact THEN [s EXCEPT !.go = FALSE, !.st = "bad", !.back = TRUE]
                           ELSE [s EXCEPT !.go = FALSE, !.st = IF s.d.h = << >> THEN "bad" ELSE "ok", !.pos = o.at])
  ELSE IF n < o.end THEN [s EXCEPT !.go = FALSE, !.st = "more"]
  ELSE IF o.k = "bad" \/ (o.k = "hdr" /\ ~o.ok) \/ (o.k # "hdr" /\ s.d.h = << >>)
    THEN IF o.k = "hdr" /\ s.d.h # << >> /\ ~o.r /\ ~s.d.red THEN [s EXCEPT !.go = FALSE, !.st = "ok", !.pos = o.at]
         ELSE [s EXCEPT !.go = FALSE, !.st = "bad"]
  ELSE IF o.k = "hdr" /\ s.d.h # << >> /\ ~o.r /\ ~s.d.red THEN [s EXCEPT !.go = FALSE, !.st = "ok", !.pos = o.at]
  ELSE LET d == Learn(s.d, o) IN
       IF exact /\ n = o.end THEN [s EXCEPT !.go = FALSE, !.st = "ok", !.pos = o.end, !.d = d] ELSE [s EXCEPT !.d = d]
Parse(obus, n, exact) ==
  LET s == FoldLeft(LAMBDA a, o : TLCEval(Read(a, o, n, exact)), [go |-> TRUE, st |-> "more", pos |-> 0, back |-> FALSE, d |-> Nothing], obus)
  IN IF s.go THEN [s EXCEPT !.st = "more"] ELSE s
=============================================================================
