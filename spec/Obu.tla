--------------------------------- MODULE Obu ---------------------------------
(* The frame around every OBU: the header and its size, the payload of the
   kinds that belong to no descriptor, and the bytes that follow the part of
   the payload that is understood. *)
EXTENDS Format
MaxObu == 2097152
IsFrame(t) == t \in 5..23
Trims(h) == IsFrame(h.type) /\ h.flag
Legal(h) == /\ h.red => ~(IsFrame(h.type) \/ h.type \in {3, 4})
            /\ h.flag => IsFrame(h.type) \/ h.type \in {2, 4}
TemporalUnitType(t) == IsFrame(t) \/ t \in {3, 4}

(* --- reading: h has type, red, flag, te, ts, has_ext, ext; r.n is the size of the payload --- *)
RHeader(d, p) ==
  LET a == Run(d, Start(p), <<<<"type", "u", 5>>, <<"red", "u", 1>>, <<"flag", "u", 1>>, <<"has_ext", "u", 1>>, <<"size", "leb", 0>>>>, -1)
      sz(s) == (s.p - p) \div 8 - 1
      big(s) == ~IsSmall(s.r.size) \/ Small(s.r.size) > MaxObu - 1 - sz(s)
      after(s, q) == (q - s.p) \div 8
  IN Bind(a, LAMBDA s :
       IF big(s) THEN Fail("INVALID")
       ELSE LET b == IF IsFrame(s.r.type) /\ s.r.flag = 1 THEN Run(d, s, <<<<"te", "leb", 0>>, <<"ts", "leb", 0>>>>, -1)
                     ELSE Set(Set(s, "te", <<0, 0>>), "ts", <<0, 0>>)
                c == IF s.r.has_ext = 1 THEN Run(d, b, <<<<"extn", "leb", 0>>>>, -1) ELSE IF b.st = "OK" THEN Set(b, "extn", <<0, 0>>) ELSE b
            IN Bind(c, LAMBDA x :
                 IF ~IsSmall(x.r.extn) \/ Small(s.r.size) - after(s, x.p) - Small(x.r.extn) < 0 THEN Fail("INVALID")
                 ELSE LET y == Run(d, x, <<<<"ext", "bytes", Small(x.r.extn)>>>>, -1)
                          h(z) == [type |-> z.r.type, red |-> z.r.red = 1, flag |-> z.r.flag = 1, te |-> z.r.te, ts |-> z.r.ts,
                                   has_ext |-> z.r.has_ext = 1, ext |-> z.r.ext]
                      IN Bind(y, LAMBDA z : IF ~Legal(h(z)) THEN Fail("INVALID")
                                            ELSE [st |-> "OK", p |-> z.p, r |-> [h |-> h(z), n |-> Small(s.r.size) - after(s, z.p)]])))
\* type and size of the whole OBU, without consuming anything
Peek(d, p) == Bind(Run(d, Start(p), <<<<"type", "u", 5>>, <<"x", "u", 3>>, <<"size", "leb", 0>>>>, -1),
                   LAMBDA s : [st |-> "OK", p |-> p, r |-> [type |-> s.r.type, total |-> PairAdd(s.r.size, <<0, (s.p - p) \div 8>>)]])

(* --- writing: n is the size of the payload, a pair; ok: can it be written ? --- *)
\* extn: number of extension bytes; a negative number when there is no extension
After(h, extn, mode) == (IF Trims(h) THEN Len(LebOut(h.te, mode)) + Len(LebOut(h.ts, mode)) ELSE 0)
                        + (IF extn >= 0 THEN Len(LebOut(Pair(extn), mode)) + extn ELSE 0)
WOk(h, extn, n, mode) ==
  /\ Legal(h)
  /\ Trims(h) => LebFits(h.te, mode) /\ LebFits(h.ts, mode)
  /\ extn >= 0 => LebFits(Pair(extn), mode)
  /\ Leq2(n, Pair(MaxObu))
  /\ LET size == Small(n) + After(h, extn, mode) IN
       LebFits(Pair(size), mode) /\ size + Len(LebOut(Pair(size), mode)) + 1 <= MaxObu
B2N(b) == IF b THEN 1 ELSE 0
WHeader(h, n, mode) ==
  LET extn == IF h.has_ext THEN Len(h.ext) ELSE -1 size == Small(n) + After(h, extn, mode) IN
  <<h.type * 8 + B2N(h.red) * 4 + B2N(h.flag) * 2 + B2N(h.has_ext)>> \o LebOut(Pair(size), mode)
  \o (IF Trims(h) THEN LebOut(h.te, mode) \o LebOut(h.ts, mode) ELSE << >>)
  \o (IF h.has_ext THEN LebOut(Pair(extn), mode) \o h.ext ELSE << >>)

(* --- payloads: what is written for each kind --- *)
SeqCat(q) == LET f(a, x) == a \o x IN FoldLeft(f, << >>, q)
FrameType(id) == IF id[1] = 0 /\ id[2] <= 17 THEN 6 + id[2] ELSE 5
FrameOk(id, mode) == FrameType(id) = 5 => LebFits(id, mode)
FrameOut(id, audio, mode) == (IF FrameType(id) = 5 THEN LebOut(id, mode) ELSE << >>) \o audio
MetaOk(m, mode) == CASE m.type = <<0, 2>> -> Len(m.tags) <= 255 /\ \A i \in 1..Len(m.tags) : StrFits(m.tags[i][1]) /\ StrFits(m.tags[i][2])
                     [] m.type = <<0, 1>> -> m.cc = 255 => m.has_cx
                     [] OTHER -> LebFits(m.type, mode)
MetaOut(m, mode) == LebOut(m.type, mode) \o
  (CASE m.type = <<0, 2>> -> <<Len(m.tags)>> \o SeqCat([i \in 1..Len(m.tags) |-> m.tags[i][1] \o <<0>> \o m.tags[i][2] \o <<0>>])
     [] m.type = <<0, 1>> -> <<m.cc>> \o (IF m.cc = 255 THEN <<m.cx>> ELSE << >>) \o m.payload
     [] OTHER -> << >>)

(* --- payloads: reading n bytes of them at the start of d. What is left of
   the n bytes is the footer; a reader that passed their end has failed. --- *)
Finish(d, s, n) == IF s.st # "OK" THEN s
                   ELSE IF s.p > 8 * n THEN Fail("INVALID")
                   ELSE IF n > Len(d) THEN Fail("EXHAUSTED")
                   ELSE [s EXCEPT !.p = 8 * n, !.r = ("footer" :> SubSeq(d, (s.p \div 8) + 1, n)) @@ s.r]
RFrame(d, type, n) ==
  LET a == IF type = 5 THEN Run(d, Start(0), <<<<"id", "leb", 0>>>>, -1) ELSE Set(Start(0), "id", <<0, type - 6>>)
      b == Bind(a, LAMBDA s : IF 8 * n < s.p THEN Fail("INVALID") ELSE Run(d, s, <<<<"audio", "bytes", n - (s.p \div 8)>>>>, -1))
  IN Finish(d, b, n)
RMeta(d, n) ==
  LET a == Run(d, Start(0), <<<<"type", "leb", 0>>>>, -1)
      tags(s) == List(s, "tags", s.r.k, LAMBDA t : Run(d, t, <<<<"n", "str", 0>>, <<"v", "str", 0>>>>, -1))
      b == Bind(a, LAMBDA s :
             CASE s.r.type = <<0, 1>> ->
                    LET c == Run(d, s, <<<<"cc", "u", 8>>>>, -1)
                        e == Bind(c, LAMBDA x : IF x.r.cc = 255 THEN Run(d, x, <<<<"cx", "u", 8>>>>, -1) ELSE x)
                    IN Bind(e, LAMBDA x : IF 8 * n < x.p THEN Fail("INVALID") ELSE Run(d, x, <<<<"payload", "bytes", n - (x.p \div 8)>>>>, -1))
               [] s.r.type = <<0, 2>> -> Bind(Run(d, s, <<<<"k", "u", 8>>>>, -1), tags)
               [] OTHER -> s)
  IN Finish(d, b, n)
=============================================================================
