------------------------------ MODULE Compose ------------------------------
(* Composing a batch of transitions for an invoice, from the state found on  *)
(* the outputs which are to be spent.                                        *)
(*   P01  the beneficiary gets exactly what is invoiced, the sender the rest *)
(*   P02  all other state on the outputs is kept                             *)
(*   P03  what can't be honoured is refused                                  *)
(*   P04  transitions of the batch are coherent                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE case

Suite == IOEnv.SUITE
Big   == IOEnv.TIER = "thorough"

RECURSIVE Seq_(_)
Seq_(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seq_(s \ {x})
RECURSIVE Sum(_, _)
Sum(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + Sum(f, s \ {x})
Opt(s, b) == IF b THEN s ELSE {}

------------------------------------------------------------------------------
(* Allocations of state: contract, output, closing method of the seal, type, *)
(* value. Types F and A are fungible, D are tokens, R rights, X attachments. *)
Al(c, o, m, ty, v) == [c |-> c, o |-> o, m |-> m, ty |-> ty, v |-> v]
Fungible == {"F", "A"}
\* operations and the type they assign by default
Default(op) == IF op = "other" THEN "none" ELSE "F"

(* The call                                                                  *)
(*   contract, iface, op, asg, st (kind and value), ben, exp: the invoice    *)
(*   prev: outputs to spend, m: closing method, bvout: output of the         *)
(*   beneficiary, alloc: allocator of outputs, blinder, prio                 *)
Call0 == [contract |-> "A", iface |-> "name", op |-> "none", asg |-> "none", st |-> <<"amount", 1>>, ben |-> "blind", exp |-> "none",
          prev |-> {1, 2}, m |-> "T", bvout |-> -1, alloc |-> "bytype", blinder |-> "fixed", prio |-> "max", unit |-> "one"]
\* amounts are counted in ones, or in units no more than three of which fit into one amount
Fits(x, n) == x.unit = "one" \/ n <= 3

TypeNo(ty) == CASE ty = "A" -> 1 [] ty = "F" -> 3 [] ty = "D" -> 4 [] ty = "R" -> 5 [] ty = "X" -> 6
\* the output the allocator offers, -1 if none
Offer(x, c, ty) ==
  CASE x.alloc = "bytype" -> TypeNo(ty)
    [] x.alloc = "bycontract" -> IF c = "A" THEN 1 ELSE 3
    [] x.alloc = "one" -> 1
    [] x.alloc = "two" -> 2
    [] x.alloc = "none" -> -1
    [] x.alloc = "onlyF" -> IF ty = "F" THEN 1 ELSE -1
    [] x.alloc = "notF" -> IF ty = "F" THEN -1 ELSE 1
    [] x.alloc = "onlyA" -> IF c = "A" THEN 1 ELSE -1

------------------------------------------------------------------------------
(* What is to come out                                                       *)
Of(l, x, c) == {i \in DOMAIN l : l[i].c = c /\ l[i].o \in x.prev}
Asked(x) == IF x.asg = "none" THEN Default(x.op) ELSE x.asg
Invoiced(l, x) == {i \in Of(l, x, "A") : l[i].ty = Asked(x)}
Vals(l) == [i \in DOMAIN l |-> l[i].v]
Total(l, x) == Sum(Vals(l), Invoiced(l, x))
Matching(l, x) == {i \in Invoiced(l, x) : l[i].ty = "D" /\ l[i].v = x.st[2]}
Others(l) == {l[i].c : i \in DOMAIN l} \ {"A"}
\* state which needs an output of the sender; of the tokens the one at `paid` goes to the beneficiary
Kept(l, x, paid) ==
  {i \in Of(l, x, "A") : l[i].ty # Asked(x) \/ (x.st[1] # "amount" /\ i # paid) \/ (x.st[1] = "amount" /\ Asked(x) \notin Fungible)} \cup UNION {Of(l, x, c) : c \in Others(l)}

Reasons(l, x) ==
  Opt({"expired"}, x.exp = "past")
    \cup Opt({"nocontract"}, x.contract = "none") \cup Opt({"unknown"}, x.contract = "unknown")
    \cup Opt({"noiface"}, x.iface = "none") \cup Opt({"unknown"}, x.iface = "unknown")
    \cup Opt({"noop"}, x.op = "bogus")
    \cup Opt({"noassign"}, x.op # "bogus" /\ Asked(x) \in {"none", "bogus"})
    \cup Opt({"benvout"}, x.ben = "blind" /\ x.bvout >= 0)
    \cup Opt({"nobenout"}, x.ben # "blind" /\ x.bvout < 0)
    \cup Opt({"unsupported"}, x.st[1] = "void")
    \cup (IF x.contract # "A" \/ x.op = "bogus" \/ Asked(x) \in {"none", "bogus"} THEN {}
          ELSE IF x.st[1] = "amount" THEN
                 Opt({"insufficient", "kind"}, Asked(x) \notin Fungible)
                   \cup Opt({"insufficient"}, (Asked(x) \in Fungible /\ Total(l, x) < x.st[2]) \/ Of(l, x, "A") = {})
                   \cup Opt({"nochange"}, (Total(l, x) > x.st[2] /\ Offer(x, "A", Asked(x)) < 0)
                                            \/ \E i \in Kept(l, x, 0) : Offer(x, l[i].c, l[i].ty) < 0)
               ELSE
                 Opt({"insufficient", "kind"}, x.st[1] = "data" /\ Asked(x) # "D")
                   \cup Opt({"insufficient"}, x.st[1] = "data" /\ Matching(l, x) = {})
                   \cup Opt({"nochange"}, \E i \in Kept(l, x, IF Matching(l, x) = {} THEN 0 ELSE CHOOSE i \in Matching(l, x) : TRUE) :
                                             Offer(x, l[i].c, l[i].ty) < 0))

Dest(x, c, ty) == <<Offer(x, c, ty), x.m>>
BenDest(x) == IF x.ben = "blind" THEN <<-1, "ben">> ELSE <<x.bvout, x.ben>>
OpName(x) == IF x.op = "none" THEN "move" ELSE x.op

\* the transition for state of the contract closed with some method
Tx(l, x, c, mth, paid) ==
  LET ins == {i \in Of(l, x, c) : l[i].m = mth} IN
  [c |-> c, op |-> IF c = "A" THEN OpName(x) ELSE "blank", m |-> mth, ins |-> ins, outs |-> {l[i].o : i \in ins},
   keep |-> {<<l[i].ty, l[i].v, Dest(x, c, l[i].ty), i>> : i \in ins \cap Kept(l, x, paid)}
              \cup {<<l[i].ty, l[i].v, BenDest(x), i>> : i \in ins \cap {paid}}]
Txs(l, x, paid) ==
  {t \in {Tx(l, x, c, mth, paid) : c \in {"A"} \cup Others(l), mth \in {"T", "O"}} : t.ins # {}}

\* sums assigned under the invoiced fungible type
Amounts(l, x) ==
  IF x.st[1] # "amount" THEN {}
  ELSE LET n == x.st[2]
           change == Total(l, x) - n
           d == Dest(x, "A", Asked(x)) IN
       IF Asked(x) \notin Fungible THEN {}
       ELSE IF BenDest(x) = d THEN Opt({<<d, n + change>>}, n + change > 0)
       ELSE Opt({<<BenDest(x), n>>}, n > 0) \cup Opt({<<d, change>>}, change > 0)

\* in JSON
KeepJ(k) == [j \in 1..Cardinality(k) |-> LET q == Seq_(k) IN <<q[j][1], q[j][2], q[j][3]>>]
TxJ(t) == [c |-> t.c, op |-> t.op, m |-> t.m, ins |-> Seq_(t.ins), outs |-> Seq_(t.outs), keep |-> KeepJ(t.keep)]
TxsJ(s) == [j \in 1..Cardinality(s) |-> TxJ(Seq_(s)[j])]
Batch(l, x, paid) == [ret |-> "ok", txs |-> TxsJ(Txs(l, x, paid)), amounts |-> Seq_(Amounts(l, x))]
Refusal(r) == [ret |-> r, txs |-> <<>>, amounts |-> <<>>]
Outcomes(l, x) ==
  LET rs == Reasons(l, x) IN
  IF rs # {} THEN {Refusal(r) : r \in rs}
  ELSE IF x.st[1] = "data" THEN {Batch(l, x, i) : i \in Matching(l, x)}
  ELSE {Batch(l, x, 0)}
Allowed(l, x) ==
  Outcomes(l, x) \cup
    \* what can't be added up may be refused
    Opt({Refusal("toomuch")}, x.st[1] = "amount" /\ Asked(x) \in Fungible /\ ~Fits(x, Total(l, x))) \cup
    \* paying nothing of what can't be counted may also be honoured
    Opt({Batch(l, x, 0)}, x.st = <<"amount", 0>> /\ Asked(x) \notin Fungible /\ Of(l, x, "A") # {}
                            /\ Reasons(l, x) \subseteq {"insufficient", "kind"})

------------------------------------------------------------------------------
(* Enumeration                                                               *)
Places == {<<1, "T">>, <<1, "O">>, <<2, "T">>, <<2, "O">>}
Seals(c, tvs) == {Al(c, p[1], p[2], tv[1], tv[2]) : p \in Places, tv \in tvs}
Alphabet ==
  CASE Suite = "P01" -> Seals("A", {<<"F", 1>>, <<"F", 2>>, <<"A", 3>>, <<"D", 1>>, <<"D", 2>>})
    [] Suite \in {"P02", "P04"} ->
         Seals("A", {<<"F", 2>>, <<"A", 1>>, <<"D", 1>>, <<"D", 2>>, <<"R", 0>>, <<"X", 7>>})
           \cup Seals("B", {<<"F", 1>>, <<"D", 1>>, <<"R", 0>>}) \cup Seals("C", {<<"A", 4>>})
           \cup {Al("A", 3, "T", "F", 4), Al("B", 3, "O", "F", 4)}
    [] OTHER -> {}
\* layouts are multisets: an order of the alphabet
Order == Seq_(Alphabet)
Longest == CASE Suite = "P01" -> IF Big THEN 4 ELSE 3
             [] Suite = "P02" -> IF Big THEN 4 ELSE 3
             [] Suite = "P04" -> IF Big THEN 3 ELSE 2
             [] OTHER -> 0
Start ==
  CASE Suite = "P01" -> {<<>>}
    [] Suite \in {"P02", "P04"} -> {<<Al("A", 1, "T", "F", 2)>>, <<Al("A", 1, "O", "D", 1)>>}
    [] OTHER ->
         {<<>>, <<Al("A", 1, "T", "F", 2)>>, <<Al("A", 1, "T", "F", 2), Al("A", 2, "O", "F", 1)>>, <<Al("A", 1, "T", "F", 2), Al("A", 1, "T", "A", 1)>>,
          <<Al("A", 1, "T", "F", 2), Al("B", 1, "T", "F", 1)>>, <<Al("A", 1, "O", "D", 1), Al("A", 1, "T", "R", 0)>>,
          <<Al("A", 1, "T", "D", 1), Al("A", 1, "T", "D", 2)>>, <<Al("A", 1, "T", "D", 1), Al("B", 1, "O", "A", 1), Al("A", 2, "T", "F", 1)>>,
          <<Al("B", 1, "T", "F", 5)>>}

\* ways of paying: beneficiary, its output, allocator, blinder
Ways == {<<"blind", -1, "bytype", "fixed">>, <<"blind", -1, "one", "fresh">>, <<"T", 2, "one", "fixed">>, <<"O", 2, "two", "fixed">>,
         <<"T", 2, "bycontract", "fresh">>, <<"T", 2, "two", "fixed">>}
Few  == {<<"blind", -1, "one", "fixed">>, <<"T", 2, "bytype", "fresh">>}
Wishes(l) ==
  CASE Suite = "P01" ->
         {<<"none", <<"amount", n>>>> : n \in 0..6} \cup {<<"A", <<"amount", n>>>> : n \in {2, 3, 6}} \cup {<<"D", <<"data", v>>>> : v \in {1, 2}}
    [] Suite = "P02" -> {<<"F", <<"amount", 1>>>>, <<"F", <<"amount", 2>>>>, <<"D", <<"data", 1>>>>}
    [] OTHER -> {<<"F", <<"amount", 1>>>>, <<"D", <<"data", 1>>>>}
Honoured(l, x) == Reasons(l, x) = {}

Small(l) == Len(l) <= 2
Calls(l) ==
  {[Call0 EXCEPT !.asg = w[1], !.st = w[2], !.ben = y[1], !.bvout = y[2], !.alloc = y[3], !.blinder = y[4], !.prev = p, !.m = m, !.prio = r, !.unit = u] :
     w \in Wishes(l), y \in IF Small(l) \/ Big THEN Ways ELSE Few, p \in IF Small(l) THEN {{1}, {1, 2}} ELSE {{1, 2}},
     u \in IF Suite = "P01" /\ Len(l) > 0 /\ l[1].ty \in Fungible THEN {"one", "huge"} ELSE {"one"},
     m \in IF Small(l) \/ Big THEN {"T", "O"} ELSE {"T"}, r \in IF Suite = "P04" THEN {"max", "0", "7"} ELSE {"max"}}

\* deviations from the basic call
Fields == {"contract", "iface", "op", "asg", "st", "ben", "exp", "bvout", "alloc", "m", "prev", "blinder"}
Values(f) ==
  CASE f = "contract" -> {"A", "none", "unknown"}
    [] f = "iface" -> {"name", "none", "unknown"}
    [] f = "op" -> {"none", "move", "other", "bogus"}
    [] f = "asg" -> {"none", "F", "A", "D", "R", "bogus"}
    [] f = "st" -> {<<"amount", 0>>, <<"amount", 1>>, <<"amount", 2>>, <<"amount", 3>>, <<"amount", 4>>, <<"data", 1>>, <<"data", 2>>,
                    <<"data", 3>>, <<"void", 0>>}
    [] f = "ben" -> {"blind", "T", "O"}
    [] f = "exp" -> {"none", "past", "future"}
    [] f = "bvout" -> {-1, 2}
    [] f = "alloc" -> {"bytype", "none", "onlyF", "notF", "onlyA"}
    [] f = "m" -> {"T", "O"}
    [] f = "prev" -> {{}, {1}, {2}, {1, 2}, {3}}
    [] f = "blinder" -> {"fixed", "fresh"}
Deviate == IF Big THEN 4 ELSE 3
Changed(x) == {f \in Fields : x[f] # Call0[f]}

Layouts == {[s |-> "layout", l |-> l, k |-> 1, x |-> Call0] : l \in Start}
\* a fascia has one or two bundles of each of its contracts
Shapes == UNION {[cs -> {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}] : cs \in SUBSET {"A", "B", "C"} \ {{}}}
\* closing methods put together one after another
MethodLists == UNION {[1..n -> {"T", "O"}] : n \in 1..5}

Init ==
  \/ case \in Layouts
  \/ Suite = "P04" /\ \E b \in Shapes : case = [s |-> "fascia", b |-> b]
  \/ Suite = "P04" /\ \E q \in MethodLists : case = [s |-> "methods", q |-> q]

Place ==
  /\ case.s = "layout" /\ Len(case.l) < Longest
  /\ \E j \in case.k..Len(Order) : case' = [case EXCEPT !.l = Append(@, Order[j]), !.k = j]
Choose_ ==
  /\ case.s = "layout" /\ Suite # "P03"
  /\ \E x \in Calls(case.l) :
       \* attachments only come with a transition, amounts of nothing but fungible types
       /\ Suite \in {"P02", "P04"} => Honoured(case.l, x)
       /\ x.st[1] = "amount" => Fits(x, x.st[2])
       /\ case' = [case EXCEPT !.s = "call", !.x = x]
Change ==
  /\ Suite = "P03" /\ case.s \in {"layout", "call"} /\ Cardinality(Changed(case.x)) < Deviate
  /\ \E f \in Fields \ Changed(case.x) : \E v \in Values(f) \ {Call0[f]} : case' = [case EXCEPT !.s = "call", !.x[f] = v]
Next == Place \/ Choose_ \/ Change

Call(x) == [f \in DOMAIN x |-> IF f = "prev" THEN Seq_(x.prev) ELSE x[f]]
Range(q) == {q[j] : j \in DOMAIN q}
Pairs(b) == UNION {{<<c, n>> : n \in Range(b[c])} : c \in DOMAIN b}
Out ==
  CASE case.s = "fascia" -> [f |-> "compose.fascia", b |-> case.b, out |-> <<Seq_(Pairs(case.b))>>]
    [] case.s = "methods" -> [f |-> "compose.methods", q |-> case.q, out |-> <<Seq_(Range(case.q))>>]
    [] OTHER -> [f |-> "compose.call", suite |-> Suite, l |-> case.l, x |-> Call(case.x), out |-> Seq_(Allowed(case.l, case.x))]
Emit == case.s = "layout" \/ PrintT(ToJson(Out))

------------------------------------------------------------------------------
(* Laws of the specification: nothing is lost or made up                     *)
RECURSIVE SumKeep(_)
SumKeep(k) == IF k = {} THEN 0 ELSE LET q == CHOOSE q \in k : TRUE IN q[2] + SumKeep(k \ {q})
RECURSIVE SumAmounts(_)
SumAmounts(k) == IF k = {} THEN 0 ELSE LET q == CHOOSE q \in k : TRUE IN q[2] + SumAmounts(k \ {q})
Laws ==
  case.s = "call" /\ Reasons(case.l, case.x) = {} =>
    LET l == case.l
        x == case.x
        paids == IF x.st[1] = "data" THEN Matching(l, x) ELSE {0}
        spent == {i \in DOMAIN l : l[i].o \in x.prev} IN
    \A paid \in paids :
      LET txs == Txs(l, x, paid) IN
      /\ UNION {t.ins : t \in txs} = spent
      /\ \A t, u \in txs : t # u => t.ins \cap u.ins = {}
      /\ \A t \in txs : \A i \in t.ins : l[i].m = t.m
      /\ LET kept == UNION {t.keep : t \in txs} IN
         /\ {q[4] : q \in kept} = spent \ (IF x.st[1] = "amount" THEN Invoiced(l, x) ELSE {})
         /\ \A q \in kept : l[q[4]].ty = q[1] /\ l[q[4]].v = q[2]
         /\ x.st[1] = "data" => Cardinality({q \in kept : q[3] = BenDest(x) /\ q[4] = paid}) = 1
      /\ x.st[1] = "amount" => SumAmounts(Amounts(l, x)) = Total(l, x) /\ Asked(x) \in Fungible
=============================================================================
