-------------------------------- MODULE Zone --------------------------------
(* The zone-file reader (C47).  A zone file is a sequence of items:         *)
(*   [k |-> "skip"]            blank line or comment                         *)
(*   [k |-> "ttl", n]          $TTL                                          *)
(*   [k |-> "origin", name]    $ORIGIN, absolute                             *)
(*   [k |-> "bad"]             a malformed record                            *)
(*   [k |-> "rr", own, ttl, type, rd]   own and the names inside rd are      *)
(*       [m |-> "abs"|"rel"|"at"|"same", l |-> labels]; ttl -1 when absent   *)
(* Names are sequences of labels, labels sequences of bytes.                 *)
EXTENDS Integers, Sequences
SOA == 6
Complete(nm, org, prev) ==
  CASE nm.m = "abs" -> nm.l [] nm.m = "rel" -> nm.l \o org [] nm.m = "at" -> org [] OTHER -> prev
RECURSIVE Wire(_)
Wire(ls) == IF ls = <<>> THEN <<0>> ELSE <<Len(ls[1])>> \o ls[1] \o Wire(Tail(ls))
Part(p, org) == IF p.k = "n" THEN Wire(Complete(p.name, org, <<>>))
                ELSE IF p.k = "s" THEN <<Len(p.b)>> \o p.b ELSE p.b
RECURSIVE Parts(_, _)
Parts(ps, org) == IF ps = <<>> THEN <<>> ELSE Part(ps[1], org) \o Parts(Tail(ps), org)
(* ttl 0: neither the record nor a $TTL line gave one; then it is not judged *)
Rec(it, z) == [st |-> "rr", owner |-> Wire(Complete(it.own, z.org, z.prev)),
               ttl |-> IF it.ttl >= 0 THEN it.ttl ELSE z.ttl, type |-> it.type, rd |-> Parts(it.rd, z.org)]
END == [st |-> "end"]
ERR == [st |-> "err"]
(* the reader: at = position in the file, phase = new | open | refused | done *)
ZInit == [at |-> 1, org |-> <<>>, prev |-> <<>>, ttl |-> 0, phase |-> "new", soa |-> <<>>, count |-> 0, domain |-> <<>>, serial |-> <<>>]
(* skip to the next record or malformed line, taking in the directives *)
RECURSIVE Skip(_, _)
Skip(f, z) ==
  IF z.at > Len(f) \/ f[z.at].k \in {"rr", "bad"} THEN z
  ELSE LET it == f[z.at] n == [z EXCEPT !.at = @ + 1] IN
       Skip(f, CASE it.k = "ttl" -> [n EXCEPT !.ttl = it.n] [] it.k = "origin" -> [n EXCEPT !.org = it.name] [] OTHER -> n)
Open(f) ==
  LET z == Skip(f, ZInit) IN
  IF z.at > Len(f) \/ f[z.at].k = "bad" \/ f[z.at].type # SOA THEN [z EXCEPT !.phase = "refused"]
  ELSE LET it == f[z.at] o == Complete(it.own, z.org, z.prev) IN
       [z EXCEPT !.at = @ + 1, !.phase = "open", !.soa = <<Rec(it, z)>>, !.count = 1,
                 !.domain = o, !.org = o, !.prev = o, !.serial = it.rd[3].b]
(* one read: <<reader, answer>> *)
Read(f, z0) ==
  IF z0.phase = "done" THEN <<z0, END>>
  ELSE IF z0.soa # <<>> THEN <<[z0 EXCEPT !.soa = <<>>], z0.soa[1]>>
  ELSE LET z == Skip(f, z0) IN
    IF z.at > Len(f) THEN <<[z EXCEPT !.phase = "done"], END>>
    ELSE IF f[z.at].k = "bad" THEN <<[z EXCEPT !.at = @ + 1], ERR>>
    ELSE IF f[z.at].type = SOA THEN <<[z EXCEPT !.phase = "done"], END>>
    ELSE <<[z EXCEPT !.at = @ + 1, !.count = @ + 1, !.prev = Complete(f[z.at].own, z.org, z.prev)], Rec(f[z.at], z)>>
=============================================================================
