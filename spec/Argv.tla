-------------------------------- MODULE Argv --------------------------------
(* Command-line parsing (C43).  An option table is a sequence of entries     *)
(*   [sh |-> byte (0 none), lo |-> bytes (<<>> none), role |-> "opt" | "mand" *)
(*    | "maybe" | "or" | "xor", ty |-> type, arr |-> 0..1, must |-> 0..1]     *)
(* Arguments are byte strings.  Values: words of 64 bits for every numeric,  *)
(* flag and character type (floating point in thousandths), byte strings     *)
(* for strings.  A parse is a fold over the arguments of the state           *)
(*   val[e]   the values given to entry e so far, oldest first               *)
(*   used[e]  whether it was named                                           *)
(*   q        entries named and still waiting for a value, oldest first      *)
(*            (0: the name of an arguments file)                             *)
(*   ok       nothing has been refused                                       *)
(*   vague    a malformed number, or a value given to several options at     *)
(*            once with "=", was used: what then happens is not claimed      *)
EXTENDS Words, Integers, FiniteSets
W(n) == IF n >= 0 THEN OfNat(4, n) ELSE WSub(Zeros(4), OfNat(4, -n))
RECURSIVE MulAdd(_, _, _)
MulAdd(w, b, d) == IF w = <<>> THEN <<d, <<>>>> ELSE   \* <<carry, limbs>>
  LET z == MulAdd(Tail(w), b, d)  x == Head(w) * b + z[1] IN <<x \div 65536, <<x % 65536>> \o z[2]>>
Times(w, b) == MulAdd(w, b, 0)[2]
INC == <<-1>>    \* one more than before
NoArg == {"bool", "boolneg", "incr", "boolint", "boolintneg"}
HasArg(e) == e.ty \notin NoArg
Negatable == {"short", "int", "long", "float", "double"}
Digit(c) == c >= 48 /\ c <= 57
HexV(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
RECURSIVE Num(_, _, _)
Num(s, b, w) == IF s = <<>> \/ HexV(Head(s)) >= b THEN w ELSE Num(Tail(s), b, MulAdd(w, b, HexV(Head(s)))[2])
Neg(s) == s # <<>> /\ Head(s) = 45
Unsign(s) == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
Signed(s, w) == IF Neg(s) THEN WSub(Zeros(4), w) ELSE w
Dec(s) == Signed(s, Num(Unsign(s), 10, Zeros(4)))
(* ddd[.d[d[d]]] in thousandths *)
Point(s) == IF \E i \in 1..Len(s) : s[i] = 46 THEN CHOOSE i \in 1..Len(s) : s[i] = 46 /\ \A j \in 1..(i - 1) : s[j] # 46 ELSE 0
Milli(s) == LET u == Unsign(s) p == Point(u)
                i == IF p = 0 THEN u ELSE SubSeq(u, 1, p - 1)
                f == IF p = 0 THEN <<>> ELSE SubSeq(u, p + 1, Len(u))
                f3 == SubSeq(f \o <<48, 48, 48>>, 1, 3) IN
            Signed(s, Num(i \o f3, 10, Zeros(4)))
Suffix(s) == LET u == Unsign(s) r == SelectSeq(u, LAMBDA c : ~Digit(c)) IN IF r = <<>> THEN 98 ELSE Head(r)
Size(s) == LET w == Dec(s) k == Suffix(s) IN
  CASE k \in {107, 75} -> Times(w, 1024) [] k \in {109, 77} -> Times(Times(w, 1024), 1024)
    [] k \in {103, 71} -> Times(Times(Times(w, 1024), 1024), 1024) [] OTHER -> w
Hex(s) == IF Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {120, 88} THEN Num(SubSeq(s, 3, Len(s)), 16, Zeros(4)) ELSE Num(s, 16, Zeros(4))
Truth(s) == IF s # <<>> /\ Head(s) \in {116, 84, 121, 89, 49} THEN W(1) ELSE W(0)
Value(ty, s) ==
  CASE ty \in {"bool", "boolneg", "boolarg", "boolint", "boolintneg", "boolintarg"} -> Truth(s)
    [] ty = "char" -> W(IF s = <<>> THEN 0 ELSE Head(s))
    [] ty = "string" -> s
    [] ty \in {"short", "ushort", "int", "uint", "long", "ulong", "incr"} -> Dec(s)
    [] ty \in {"float", "double"} -> Milli(s)
    [] ty = "bin" -> Num(s, 2, Zeros(4)) [] ty = "oct" -> Num(s, 8, Zeros(4)) [] ty = "hex" -> Hex(s)
    [] ty \in {"size", "usize"} -> Size(s)
(* the texts whose value is claimed: numbers in full and within the type's range *)
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
Dgs(s, k) == Len(s) \in 1..k /\ All(s, Digit)
Max64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49>>
U64(s) == Dgs(s, 19) \/ (Dgs(s, 20) /\ SubSeq(s, 1, 19) = Max64 /\ s[20] <= 53)
Unit(c) == c \in {98, 66, 107, 75, 109, 77, 103, 71}
Sized(s, k) == Dgs(s, k) \/ (s # <<>> /\ Unit(s[Len(s)]) /\ Dgs(SubSeq(s, 1, Len(s) - 1), k))
Real(s, k) == LET p == Point(s) IN IF p = 0 THEN Dgs(s, k) ELSE Dgs(SubSeq(s, 1, p - 1), k) /\ Dgs(SubSeq(s, p + 1, Len(s)), 3)
Clear(ty, s) ==
  CASE ty = "short" -> Dgs(Unsign(s), 4) [] ty = "ushort" -> Dgs(s, 4)
    [] ty \in {"int", "incr"} -> Dgs(Unsign(s), 9) [] ty = "long" -> Dgs(Unsign(s), 18)
    [] ty = "uint" -> Dgs(s, 9) \/ (Dgs(s, 10) /\ WLe(Dec(s), <<0, 0, 65535, 65535>>))
    [] ty = "ulong" -> U64(s) [] ty = "size" -> Sized(Unsign(s), 9) [] ty = "usize" -> Sized(s, 9) \/ U64(s)
    [] ty = "float" -> Real(Unsign(s), 3) [] ty = "double" -> Real(Unsign(s), 9)
    [] ty = "bin" -> Len(s) \in 1..31 /\ All(s, LAMBDA c : c \in {48, 49})
    [] ty = "oct" -> Len(s) \in 1..10 /\ All(s, LAMBDA c : c >= 48 /\ c <= 55)
    [] ty = "hex" -> LET h == IF Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {120, 88} THEN SubSeq(s, 3, Len(s)) ELSE s IN
                     Len(h) \in 1..7 /\ All(h, LAMBDA c : HexV(c) < 16)
    [] OTHER -> TRUE
(* ---- is the table itself acceptable ---- *)
Link(e) == e.role \in {"or", "xor"}
TableOk(t) ==
  /\ \A i \in 1..Len(t) :
       /\ t[i].role = "mand" => \A j \in 1..(i - 1) : ~(t[j].role = "maybe") /\ ~(t[j].role = "mand" /\ t[j].arr = 1)
       /\ t[i].role = "maybe" => \A j \in 1..(i - 1) : ~(t[j].role \in {"mand", "maybe"} /\ t[j].arr = 1)
       /\ t[i].arr = 1 => HasArg(t[i])
       /\ Link(t[i]) => i > 1 /\ i < Len(t) /\ ~Link(t[i - 1])
(* ---- groups of options of which at most (or: exactly) one may be given ---- *)
Joined(t, i, j) == LET a == IF i < j THEN i ELSE j b == IF i < j THEN j ELSE i IN
                   (b - a) % 2 = 0 /\ \A k \in a..b : (k - a) % 2 = 1 => Link(t[k])
(* groups that mix the two kinds or contain positional arguments have no stated meaning *)
Odd(t) == \E i \in 2..(Len(t) - 1) : Link(t[i]) /\
             (t[i - 1].role # "opt" \/ t[i + 1].role # "opt" \/ (i + 2 <= Len(t) /\ Link(t[i + 2]) /\ t[i + 2].role # t[i].role))
(* ---- the parse ---- *)
Init0(t) == [val |-> [e \in 1..Len(t) |-> <<>>], used |-> [e \in 1..Len(t) |-> FALSE], q |-> <<>>, ok |-> TRUE, vague |-> FALSE]
Give(s, e, v) == [s EXCEPT !.val[e] = Append(@, v)]
Take(t, s, e, x) == [Give(s, e, Value(t[e].ty, x)) EXCEPT !.vague = @ \/ ~Clear(t[e].ty, x)]
Fail(s) == [s EXCEPT !.ok = FALSE]
(* an option is named; close: <<>> or <<value>> *)
Name(t, cfg, s, e, close) ==
  LET twice == cfg.multi = 0 /\ s.used[e] /\ t[e].arr = 0 /\ t[e].ty # "incr"
      clash == \E j \in 1..Len(t) : j # e /\ s.used[j] /\ Joined(t, e, j)
      s1 == [s EXCEPT !.used[e] = TRUE, !.ok = @ /\ ~twice /\ ~clash] IN
  IF close # <<>> THEN Take(t, s1, e, close[1])
  ELSE IF ~HasArg(t[e]) THEN Give(s1, e, CASE t[e].ty \in {"bool", "boolint"} -> W(1) [] t[e].ty \in {"boolneg", "boolintneg"} -> W(0) [] OTHER -> INC)
  ELSE [s1 EXCEPT !.q = Append(@, e)]
Prefix(p, x) == Len(p) <= Len(x) /\ SubSeq(x, 1, Len(p)) = p
Eq(a) == IF \E i \in 1..Len(a) : a[i] = 61 THEN CHOOSE i \in 1..Len(a) : a[i] = 61 /\ \A j \in 1..(i - 1) : a[j] # 61 ELSE 0
Body(cfg, a) == IF cfg.close = 1 /\ Eq(a) > 0 THEN SubSeq(a, 1, Eq(a) - 1) ELSE a
Close(cfg, a) == IF cfg.close = 1 /\ Eq(a) > 0 THEN <<SubSeq(a, Eq(a) + 1, Len(a))>> ELSE <<>>
FileOpt == <<97, 114, 103, 118, 45, 102, 105, 108, 101>>   \* argv-file
Builtin == {<<117, 115, 97, 103, 101>>, <<104, 101, 108, 112>>, <<118, 101, 114, 115, 105, 111, 110>>,
            <<117, 115, 97, 103, 101, 45, 115, 104, 111, 114, 116>>, <<117, 115, 97, 103, 101, 45, 108, 111, 110, 103>>,
            <<117, 115, 97, 103, 101, 45, 97, 108, 108>>, <<97, 114, 103, 118, 45, 100, 105, 115, 112, 108, 97, 121>>}
NumText(a) == \A i \in 1..Len(a) : Digit(a[i]) \/ a[i] \in {43, 45, 46}
Free(t, s, role) == {e \in 1..Len(t) : t[e].role = role /\ (~s.used[e] \/ t[e].arr = 1)}
Least(S) == CHOOSE e \in S : \A f \in S : e <= f
(* the files an arguments-file option may name: [path, lines], lines <<>> and "missing" = 1 when unreadable *)
RECURSIVE Args(_, _, _, _, _), Arg1(_, _, _, _), Shorts(_, _, _, _, _, _), FileArgs(_, _, _, _)
FileArgs(t, cfg, s, path) ==
  IF ~\E i \in 1..Len(cfg.files) : cfg.files[i].path = path THEN Fail(s)
  ELSE LET f == cfg.files[CHOOSE i \in 1..Len(cfg.files) : cfg.files[i].path = path] IN
       Args(t, cfg, s, SelectSeq(f.lines, LAMBDA l : l # <<>>), FALSE)
Shorts(t, cfg, s, a, i, close) ==     \* characters i.. of the group a (a[1] is the dash)
  IF i > Len(a) THEN s ELSE
  LET M == {e \in 1..Len(t) : t[e].role = "opt" /\ t[e].sh = a[i]} IN
  IF M # {} THEN Shorts(t, cfg, Name(t, cfg, s, Least(M), close), a, i + 1, close)
  ELSE IF a[i] = 63 THEN Shorts(t, cfg, s, a, i + 1, close)
  ELSE IF i = 2 /\ NumText(a) /\ s.q # <<>> /\ Head(s.q) # 0 /\ t[Head(s.q)].ty \in Negatable
       THEN [Take(t, s, Head(s.q), a) EXCEPT !.q = Tail(@)]
  ELSE Shorts(t, cfg, Fail(s), a, i + 1, close)
Long(t, cfg, s, nm, close) ==
  LET X == {e \in 1..Len(t) : t[e].lo # <<>> /\ t[e].lo = nm}
      P == {e \in 1..Len(t) : t[e].lo # <<>> /\ Prefix(nm, t[e].lo)} IN
  IF nm = <<>> THEN Fail(s)
  ELSE IF X # {} THEN Name(t, cfg, s, Least(X), close)
  ELSE IF Cardinality(P) > 1 THEN Fail(s)
  ELSE IF P # {} THEN Name(t, cfg, s, Least(P), close)
  ELSE IF Prefix(nm, FileOpt) THEN IF close # <<>> THEN FileArgs(t, cfg, s, close[1]) ELSE [s EXCEPT !.q = Append(@, 0)]
  ELSE IF \E b \in Builtin : Prefix(nm, b) THEN s
  ELSE Fail(s)
Plain(t, cfg, s, a) ==
  IF s.q # <<>> THEN
    LET e == Head(s.q) s1 == [s EXCEPT !.q = Tail(@)] IN
    IF e = 0 THEN FileArgs(t, cfg, s1, a) ELSE Take(t, s1, e, a)
  ELSE LET S == IF Free(t, s, "mand") # {} THEN Free(t, s, "mand") ELSE Free(t, s, "maybe") IN
       IF S = {} THEN Fail(s) ELSE Take(t, [s EXCEPT !.used[Least(S)] = TRUE], Least(S), a)
Arg1(t, cfg, s, a) ==
  LET b == Body(cfg, a) c == Close(cfg, a) IN
  IF Len(a) >= 2 /\ a[1] = 45 /\ a[2] = 45 THEN Long(t, cfg, s, SubSeq(b, 3, Len(b)), c)
  ELSE IF Len(a) >= 2 /\ a[1] = 45 THEN (IF Len(b) <= 1 THEN Fail(s)
    ELSE Shorts(t, cfg, [s EXCEPT !.vague = @ \/ (Len(b) > 2 /\ c # <<>>)], b, 2, c))
  ELSE Plain(t, cfg, s, a)
(* "--" ends the options; a second one is a value, or resumes them when toggling *)
Args(t, cfg, s, as, last) ==
  IF as = <<>> THEN s
  ELSE IF Head(as) = <<45, 45>> /\ (~last \/ cfg.toggle = 1) THEN Args(t, cfg, s, Tail(as), ~last)
  ELSE Args(t, cfg, IF last THEN Plain(t, cfg, s, Head(as)) ELSE Arg1(t, cfg, s, Head(as)), Tail(as), last)
Complete(t, s) ==
  /\ s.ok /\ s.q = <<>>
  /\ \A e \in 1..Len(t) : (t[e].role = "mand" \/ t[e].must = 1) => s.used[e]
  /\ \A e \in 1..Len(t) : t[e].role = "xor" => \E j \in 1..Len(t) : s.used[j] /\ ~Link(t[j]) /\ Joined(t, e - 1, j)
(* the program's environment variable holds further arguments, before or after *)
Parse(t, cfg, as) ==
  LET s0 == IF cfg.env = "before" THEN Args(t, cfg, Init0(t), cfg.envs, FALSE) ELSE Init0(t)
      s1 == Args(t, cfg, s0, as, FALSE)
      s2 == IF cfg.env = "after" THEN Args(t, cfg, s1, cfg.envs, FALSE) ELSE s1 IN
  IF ~TableOk(t) THEN [s0 EXCEPT !.ok = FALSE] ELSE [s2 EXCEPT !.ok = Complete(t, s2)]
(* what a variable holds: the last value given, counted from the default *)
RECURSIVE Held(_, _)
Held(def, vs) == IF vs = <<>> THEN def ELSE
  LET l == vs[Len(vs)] IN IF l = INC THEN WAdd(Held(def, SubSeq(vs, 1, Len(vs) - 1)), W(1)) ELSE l
=============================================================================
