------------------------------ MODULE LifeTrace ------------------------------
(* Recorded lives of the library's objects against Life.  After every event  *)
(* the memory and the open files in use are recorded: whenever nothing is    *)
(* held, they are what they were when nothing was held before.  The first    *)
(* round of a life may set things up that stay (Case.warm events).           *)
EXTENDS Life, CaseCheck
VARIABLES pos, s, base
vars == <<pos, s, base>>
Ev == Case.ev[pos + 1]
Deps(ev) == CASE ev.e = "ask" -> {Rd, Qu(ev.n)} [] ev.e = "scan" -> {Rd} [] OTHER -> {}
Handle(ev) == CASE ev.e \in {"open", "shut"} -> Rd
                [] ev.e \in {"def", "drop", "set"} -> Qu(ev.k)
                [] ev.e \in {"ask", "scan", "close"} -> It(ev.k)
                [] ev.e \in {"next", "look", "free", "dec"} -> En(ev.k)
                [] OTHER -> Tx(ev.k)
Takes(ev) == ev.e \in {"open", "def", "ask", "scan", "dec", "text"} \/ (ev.e = "next" /\ ev.out.got = 1)
Gives(ev) == ev.e \in {"shut", "drop", "close", "free", "untext"}
Legal(ev) == CASE ev.e \in {"open", "def", "ask", "scan"} -> MayTake(s, Handle(ev), Deps(ev))
               [] ev.e = "dec" -> ~Holds(s, Handle(ev))
               [] ev.e = "next" -> ~Holds(s, Handle(ev)) /\ Holds(s, It(ev.n))
               [] ev.e = "text" -> ~Holds(s, Handle(ev))
               [] OTHER -> TRUE
(* giving back, or looking at, what there is not does nothing *)
Absent(ev) == (Gives(ev) \/ ev.e \in {"look", "text", "textlook"}) /\ ev.out.none = 1
Content(ev) == IF ev.e \in {"next", "dec", "text"} THEN ev.out.c ELSE 0
After(ev) == IF Absent(ev) THEN s
             ELSE IF ev.e = "dec" /\ ev.out.got = 0 THEN s
             ELSE IF Takes(ev) THEN Take(s, Handle(ev), Deps(ev), Content(ev))
             ELSE IF Gives(ev) THEN Give(s, Handle(ev)) ELSE s
EvOk(ev, ns) ==
  /\ Legal(ev)
  /\ Absent(ev) => IF ev.e = "text" THEN ~Holds(s, En(ev.n)) ELSE ~Holds(s, Handle(ev))
  /\ (Gives(ev) /\ ~Absent(ev)) => MayGive(s, Handle(ev))
  /\ (ev.e \in {"look", "textlook"} /\ ~Absent(ev)) => /\ Holds(s, Handle(ev)) /\ ev.out.c = Reads(s, Handle(ev))
  /\ (ns.held = {} /\ base # <<>>) => <<ev.out.mem, ev.out.fds>> = base
Init == CCInit /\ pos = 0 /\ s = LInit /\ base = <<>>
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED vars
     ELSE IF pos = Len(Case.ev) THEN st' = (IF s.held = {} THEN "ok" ELSE "bad") /\ UNCHANGED vars
     ELSE \E ns \in {After(Ev)} :
          /\ pos' = pos + 1 /\ s' = ns
          /\ base' = (IF base = <<>> /\ ns.held = {} /\ pos + 1 >= Case.warm THEN <<Ev.out.mem, Ev.out.fds>> ELSE base)
          /\ st' = IF EvOk(Ev, ns) THEN "todo" ELSE "bad"
=============================================================================
