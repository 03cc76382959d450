-------------------------------- MODULE Zone --------------------------------
(* The zone file reader (libmy/zonefile.h): a file is opened if it begins with
   an SOA record; reading hands out that record and every record after it,
   once each and in order, until the end of the file or the next SOA.
   The syntax of single lines is that of the library underneath, of which the
   harness holds a stand-in; what a line means depends on the $ORIGIN, the $TTL
   and the owner before it, and carrying those along is the reader's part.
     pos      lines taken          handed   records handed out or found
     origin, prev, ttl             what lines leave out
     soa      the SOA record       ended    the end was seen                  *)
EXTENDS Bytes
NONE == <<0 - 1>>
LOCAL Blank(c) == c \in {32, 9}
LOCAL Words(s) ==
  LET f == FoldLeft(LAMBDA acc, c : IF Blank(c) THEN [out |-> IF acc.cur = <<>> THEN acc.out ELSE Append(acc.out, acc.cur), cur |-> <<>>]
                                    ELSE [acc EXCEPT !.cur = Append(@, c)], [out |-> <<>>, cur |-> <<>>], s)
  IN IF f.cur = <<>> THEN f.out ELSE Append(f.out, f.cur)
LOCAL Before(s, c) == LET k == SelectInSeq(s, LAMBDA x : x = c) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
LOCAL Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
LOCAL Absolute(s) == s[Len(s)] = DOT
ROOT == <<DOT>>
ZOrigin == S("$ORIGIN")
ZTtl == S("$TTL")
ZSoa == S("SOA")
ZTypes == {S("A"), ZSoa}
(* a file is its lines; the last may lack its end *)
FileLines(text) ==
  LET f == FoldLeft(LAMBDA acc, c : IF c = NL THEN [out |-> Append(acc.out, acc.cur), cur |-> <<>>] ELSE [acc EXCEPT !.cur = Append(@, c)],
                    [out |-> <<>>, cur |-> <<>>], text)
  IN IF f.cur = <<>> THEN f.out ELSE Append(f.out, f.cur)

Started == [pos |-> 0, origin |-> NONE, prev |-> NONE, ttl |-> <<48>>, soa |-> <<>>, domain |-> NONE, serial |-> NONE, count |-> 0, ended |-> FALSE]
(* one line: kind "none", "error" or a record's type *)
Line(z, raw) ==
  LET s == TLCEval(Before(raw, 59))
      w == TLCEval(Words(s))
      blank == s # <<>> /\ Blank(s[1])
      k == IF blank THEN 0 ELSE 1
      own == Len(w) > k /\ Digits(w[k + 1])
      j == IF own THEN k + 1 ELSE k
      o == IF z.origin = NONE THEN ROOT ELSE z.origin
      owner == IF blank THEN z.prev
               ELSE IF w[1] = <<64>> THEN o
               ELSE IF Absolute(w[1]) THEN w[1]
               ELSE w[1] \o <<DOT>> \o (IF o = ROOT THEN <<>> ELSE o)
      zz == [z EXCEPT !.pos = @ + 1]
      rr == [kind |-> w[j + 1], owner |-> owner, ttl |-> IF own THEN w[k + 1] ELSE z.ttl, value |-> w[j + 2]]
  IN IF w = <<>> THEN [z |-> zz, kind |-> "none"]
     ELSE IF ~blank /\ w[1] = ZOrigin
          THEN (IF Len(w) = 2 /\ Absolute(w[2]) THEN [z |-> [zz EXCEPT !.origin = w[2]], kind |-> "none"] ELSE [z |-> zz, kind |-> "error"])
     ELSE IF ~blank /\ w[1] = ZTtl
          THEN (IF Len(w) = 2 /\ Digits(w[2]) THEN [z |-> [zz EXCEPT !.ttl = w[2]], kind |-> "none"] ELSE [z |-> zz, kind |-> "error"])
     ELSE IF Len(w) # j + 2 \/ w[j + 1] \notin ZTypes \/ ~Digits(w[j + 2]) \/ (blank /\ z.prev = NONE) THEN [z |-> zz, kind |-> "error"]
     ELSE [z |-> [zz EXCEPT !.prev = rr.owner], kind |-> IF rr.kind = ZSoa THEN "soa" ELSE "rr", rr |-> rr]
(* on to the next record, mistake or end *)
RECURSIVE NextRecord(_, _)
NextRecord(z, lines) ==
  IF z.pos >= Len(lines) THEN [z |-> z, kind |-> "end"]
  ELSE LET x == TLCEval(Line(z, lines[z.pos + 1])) IN IF x.kind = "none" THEN NextRecord(x.z, lines) ELSE x

(* the SOA's owner is what names are relative to, unless the file has said otherwise *)
OpenZone(lines) ==
  LET x == TLCEval(NextRecord(Started, lines)) IN
  IF x.kind # "soa" THEN [ok |-> FALSE, z |-> Started]
  ELSE [ok |-> TRUE, z |-> [x.z EXCEPT !.soa = <<x.rr>>, !.count = 1, !.domain = x.rr.owner, !.serial = x.rr.value,
                                       !.origin = IF @ = NONE THEN x.rr.owner ELSE @]]
(* a read: what it hands out ("over": another SOA, after which nothing is promised) *)
ReadZone(z, lines) ==
  IF z.soa # <<>> THEN [z |-> [z EXCEPT !.soa = <<>>], out |-> "soa", rr |-> z.soa[1]]
  ELSE IF z.ended THEN [z |-> z, out |-> "end"]
  ELSE LET x == TLCEval(NextRecord(z, lines)) IN
       CASE x.kind = "end" -> [z |-> [x.z EXCEPT !.ended = TRUE], out |-> "end"]
         [] x.kind = "error" -> [z |-> x.z, out |-> "error"]
         [] x.kind = "soa" -> [z |-> x.z, out |-> "over"]
         [] OTHER -> [z |-> [x.z EXCEPT !.count = @ + 1], out |-> "rr", rr |-> x.rr]

LOCAL Res(k, x, y, w) == <<Dec(k), x, y, w>>
NoZerosZ(d) == LET k == SelectInSeq(d, LAMBDA c : c # 48) IN IF k = 0 THEN <<48>> ELSE SubSeq(d, k, Len(d))
LOCAL RRes(k, rr) == Res(k, rr.owner, NoZerosZ(rr.ttl), rr.value)
ANYRES == <<>>
(* what a script of calls sees *)
Script(lines, calls) ==
  LET o == TLCEval(OpenZone(lines))
      step(acc, c) ==
        IF acc.any THEN [acc EXCEPT !.out = Append(@, ANYRES)]
        ELSE CASE c = 115 -> [acc EXCEPT !.out = Append(@, Res(4, NoZerosZ(acc.z.serial), <<>>, <<>>))]
               [] c = 100 -> [acc EXCEPT !.out = Append(@, Res(5, acc.z.domain, <<>>, <<>>))]
               [] c = 114 -> (LET r == TLCEval(ReadZone(acc.z, lines)) IN
                              [z |-> r.z, any |-> r.out = "over",
                               out |-> Append(acc.out, CASE r.out = "soa" -> RRes(3, r.rr) [] r.out = "rr" -> RRes(1, r.rr)
                                                         [] r.out = "error" -> Res(2, <<>>, <<>>, <<>>) [] OTHER -> Res(0, <<>>, <<>>, <<>>))])
               [] OTHER -> [acc EXCEPT !.out = Append(@, Res(6, Dec(acc.z.count), <<>>, <<>>))]
  IN IF ~o.ok THEN [ok |-> FALSE, out |-> <<>>]
     ELSE [ok |-> TRUE, out |-> FoldLeft(LAMBDA acc, c : TLCEval(step(acc, c)), [z |-> o.z, any |-> FALSE, out |-> <<>>], calls).out]
=============================================================================
