-------------------------------- MODULE Amount --------------------------------
(* Amounts, coin amounts with a decimal precision, owned fractions of tokens *)
(* and token allocations: arithmetic (a machine accumulating a value), text  *)
(* forms and stored bytes.  Outcomes are sets: where the meaning of a text   *)
(* is debatable several outcomes are allowed.                                *)
EXTENDS Num, Json, IOUtils

Suite == IOEnv.SUITE
Big   == IOEnv.TIER # "quick"

Refused == "refused"
Panic   == "panic"
None    == "none"

N(n) == Digits(n)
D18 == Shl(N(1), 18)
\* boundaries: of bytes, of decimal places, of the type
Vals ==
  {N(0), N(1), N(2), N(9), N(10), N(49), N(50), N(99), N(100), N(255), N(256), N(65535), N(65536), N(1000000007),
   U32Max, Add(U32Max, N(1)), Sub(D18, N(1)), D18, Add(D18, N(1)), Shl(N(5), 17), Shl(N(10), 18), Shl(N(18), 18),
   Shr(U64Max, 1), Add(Shr(U64Max, 1), N(1)), Shr(U64Max, 18), FromBytes(<<0, 0, 0, 0, 0, 0, 0, 128>>),
   FromBytes(<<255, 255, 255, 255, 255, 255, 255, 127>>), FromBytes(<<1, 0, 0, 0, 0, 0, 1, 0>>),
   FromBytes(<<1, 2, 3, 4, 5, 6, 7, 8>>), Sub(U64Max, N(10)), Sub(U64Max, N(1)), U64Max,
   Shl(N(4360819), 7), Shl(N(10005), 5)}
Few == {N(0), N(1), N(255), Add(Shr(U64Max, 1), N(1)), FromBytes(<<0, 0, 0, 0, 0, 0, 0, 128>>), Sub(U64Max, N(1)), U64Max}
Precisions == 0..18

------------------------------------------------------------------------------
\* Arithmetic
VARIABLES ty, acc, last, n

Max == IF ty = "index" THEN U32Max ELSE U64Max
Fits(x) == Leq(x, Max)

ArithOps == {"checked_add", "checked_sub", "saturating_add", "saturating_sub", "add", "sub"}
Assigning == {"checked_add_assign", "checked_sub_assign", "saturating_add_assign", "saturating_sub_assign",
              "add_assign", "sub_assign"}
\* <<what is returned, the new value>>
Effect(op, x) ==
  LET sum == Add(acc, x)
      over == ~ Fits(sum)
      under == Less(acc, x)
  IN CASE op \in {"checked_add", "checked_add_assign"} -> IF over THEN <<None, acc>> ELSE <<"ok", sum>>
       [] op \in {"checked_sub", "checked_sub_assign"} -> IF under THEN <<None, acc>> ELSE <<"ok", Sub(acc, x)>>
       [] op \in {"saturating_add", "saturating_add_assign", "sum"} -> <<"ok", IF over THEN Max ELSE sum>>
       [] op \in {"saturating_sub", "saturating_sub_assign"} -> <<"ok", IF under THEN Zero ELSE Sub(acc, x)>>
       [] op \in {"add", "add_assign"} -> IF over THEN <<Panic, acc>> ELSE <<"ok", sum>>
       [] op \in {"sub", "sub_assign"} -> IF under THEN <<Panic, acc>> ELSE <<"ok", Sub(acc, x)>>

Types == IF Suite = "V03" THEN {"amount"} ELSE {"fraction", "index"}
OpsOf(t) == IF t = "amount" THEN ArithOps \cup Assigning \cup {"sum"}
            ELSE IF t = "fraction" THEN ArithOps \cup Assigning
            ELSE {"add", "sub", "add_assign", "sub_assign"}
Operands == IF n = 0 THEN Vals ELSE Few

InitArith ==
  /\ ty \in Types
  /\ acc \in {v \in Vals : Fits(v)}
  /\ last = [f |-> "init"]
  /\ n = 0
NextArith ==
  /\ n < (IF Big THEN 2 ELSE 1)
  /\ \E op \in OpsOf(ty), x \in {v \in Operands : Fits(v)} :
       LET e == Effect(op, x) IN
       /\ acc' = e[2]
       /\ last' = [f |-> ty \o "." \o op, a |-> Dec(acc), b |-> Dec(x), out |-> <<[ret |-> e[1], val |-> Dec(e[2])]>>]
       /\ n' = n + 1
       /\ UNCHANGED ty
\* the type is never left, and adding then is exact or says it is not
InType == Fits(acc)
EmitArith == PrintT(ToJson(last'))
ViewArith == <<ty, acc, IF n = 0 THEN 0 ELSE 1>>

------------------------------------------------------------------------------
\* Text of amounts: bytes, the least significant first without trailing zeros, in base 32
Alphabet == <<"a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "n", "A", "B", "C", "D", "E", "F", "G", "H", "K", "M",
              "N", "P", "Q", "R", "S", "T", "V", "W", "X", "Y", "Z">>
RECURSIVE TrimBytes(_)
TrimBytes(b) == IF Len(b) > 1 /\ b[Len(b)] = 0 THEN TrimBytes(SubSeq(b, 1, Len(b) - 1)) ELSE b
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bits(b) == [i \in 1..(8 * Len(b)) |-> (b[(i - 1) \div 8 + 1] \div Pow2[8 - ((i - 1) % 8)]) % 2]
Bit(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0
Group(bits, k) == 16 * Bit(bits, 5 * k - 4) + 8 * Bit(bits, 5 * k - 3) + 4 * Bit(bits, 5 * k - 2)
                  + 2 * Bit(bits, 5 * k - 1) + Bit(bits, 5 * k)
Base32(b) == LET bits == Bits(b) IN [k \in 1..((Len(bits) + 4) \div 5) |-> Alphabet[Group(bits, k) + 1]]
AmountText(a) == Base32(TrimBytes(Bytes(a, 8)))

CharNo(c) == IF \E i \in 1..32 : Alphabet[i] = c THEN (CHOOSE i \in 1..32 : Alphabet[i] = c) - 1 ELSE 99
TextBits(s) == [i \in 1..(5 * Len(s)) |-> (CharNo(s[(i - 1) \div 5 + 1]) \div Pow2[5 - ((i - 1) % 5)]) % 2]
Byte(bits, k) == LET b(j) == bits[8 * k - 8 + j] IN
  128 * b(1) + 64 * b(2) + 32 * b(3) + 16 * b(4) + 8 * b(5) + 4 * b(6) + 2 * b(7) + b(8)
\* allowed outcomes of reading the text of an amount
ReadAmount(s) ==
  IF \E i \in 1..Len(s) : CharNo(s[i]) = 99 THEN {Refused}
  ELSE LET bits == TextBits(s)
           n8 == Len(bits) \div 8
           spare == {i \in (8 * n8 + 1)..Len(bits) : bits[i] = 1}
           bytes == [k \in 1..n8 |-> Byte(bits, k)]
           val == Concat(Dec(FromBytes(bytes)))
       IN IF Len(s) % 8 \in {1, 3, 6} THEN {Refused}
          ELSE IF s = <<>> THEN {Refused, "0"}
          ELSE IF \E k \in 9..n8 : bytes[k] # 0 THEN {Refused}
          ELSE IF n8 > 8 \/ spare # {} THEN {Refused, val}
          ELSE {val}

StringsUpTo(A, k) == UNION {[1..j -> A] : j \in 0..k}
AmountTexts ==
  {AmountText(v) : v \in Vals}
    \cup StringsUpTo({"a", "b", "Z", "1", "B"}, IF Big THEN 6 ELSE 5)
    \cup {AmountText(v) \o <<c>> : v \in Vals, c \in {"a", "b", "o", "=", "+"}}
    \cup {AmountText(v) \o <<"a", "a", "a">> : v \in Vals}
    \cup {Tail(AmountText(v)) : v \in Vals}
    \cup {Base32(Bytes(v, 8)) : v \in Vals}
    \cup {Base32(Bytes(v, 8) \o <<x>>) : v \in Vals, x \in {0, 1}}

\* Precision
RoundInc(v, p) == IF p = 0 THEN 0 ELSE IF Pad(Low(v, p), p)[1] >= 5 THEN 1 ELSE 0
PrecCase(v, p) ==
  LET full == Shl(v, p)
      ov == ~ Leq(full, U64Max)
      s(x) == Concat(Dec(x))
  IN [f |-> "amount.precision", v |-> Dec(v), p |-> p,
      out |-> <<[split |-> <<s(Shr(v, p)), s(Low(v, p))>>, floor |-> s(Shr(v, p)), rem |-> s(Low(v, p)),
                 ceil |-> s(IF Low(v, p) = Zero THEN Shr(v, p) ELSE Add(Shr(v, p), N(1))),
                 round |-> s(Add(Shr(v, p), N(RoundInc(v, p)))),
                 with |-> IF ov THEN Panic ELSE s(full),
                 checked |-> IF ov THEN None ELSE s(full),
                 saturating |-> IF ov THEN s(U64Max) ELSE s(full)]>>]

Outs(S) == LET RECURSIVE q(_)
               q(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o q(T \ {x})
           IN q(S)

V03Cases ==
  {[k |-> "print", v |-> v] : v \in Vals} \cup {[k |-> "read", s |-> s] : s \in AmountTexts}
    \cup {[k |-> "prec", v |-> v, p |-> p] : v \in Vals, p \in Precisions}
V03Out(c) ==
  IF c.k = "print" THEN [f |-> "amount.print", v |-> Dec(c.v),
                         out |-> <<[text |-> Concat(AmountText(c.v)), bytes |-> Bytes(c.v, 8)]>>]
  ELSE IF c.k = "read" THEN [f |-> "amount.read", s |-> Concat(c.s), out |-> Outs(ReadAmount(c.s))]
  ELSE PrecCase(c.v, c.p)

------------------------------------------------------------------------------
\* Coin amounts
RECURSIVE GroupBy3(_, _)
\* digits grouped from the right
GroupBy3(s, fill) ==
  IF Len(s) <= 3 THEN s
  ELSE GroupBy3(SubSeq(s, 1, Len(s) - 3), fill) \o <<fill>> \o SubSeq(s, Len(s) - 2, Len(s))
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # <<>> /\ s[Len(s)] = "0" THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s

CoinText(int, fract, p) ==
  Dec(int) \o (IF fract = Zero THEN <<>> ELSE <<".">> \o TrimEnd(Dec(Pad(fract, p)))) \o <<"~">> \o Dec(N(p))
CoinAlt(int, fract, p, fill) ==
  GroupBy3(Dec(int), fill) \o (IF p = 0 THEN <<>> ELSE <<".">> \o GroupBy3(Dec(Pad(fract, p)), fill))

Coin(int, fract, p) == [int |-> Concat(Dec(int)), fract |-> Concat(Dec(fract)), p |-> p]

NoCoin == [int |-> Refused, fract |-> Refused, p |-> 0]

\* A number is `digits[.digits][~digits]`, spaces and underscores do not matter.
\* A plus sign before the whole part or the precision is tolerated.
Unsign(s) == IF s # <<>> /\ s[1] = "+" THEN Tail(s) ELSE s
Signed(s) == s # <<>> /\ s[1] = "+"
\* value of at most two digits
Undec2(d) == IF Len(d) = 1 THEN d[1] ELSE 10 * d[1] + d[2]
ReadCoin(text) ==
  LET s == Without(text, {" ", "_"})
      body == IF Has(s, "~") THEN Before(s, "~") ELSE s
      pr == IF Has(s, "~") THEN After(s, "~") ELSE <<>>
      int == IF Has(body, ".") THEN Before(body, ".") ELSE body
      fr == IF Has(body, ".") THEN After(body, ".") ELSE <<>>
      wellFormed ==
        /\ Unsign(int) # <<>> /\ AllDigits(Unsign(int))
        /\ Has(body, ".") => fr # <<>>
        /\ AllDigits(fr)
        /\ Has(s, "~") /\ pr # <<>> => Unsign(pr) # <<>> /\ AllDigits(Unsign(pr))
      debatable == Signed(int) \/ Signed(pr) \/ (Has(s, "~") /\ pr = <<>>)
      ps == IF pr # <<>> THEN {Undec(Unsign(pr))}
            ELSE IF Has(body, ".") THEN {N(Len(fr))} ELSE {N(0), N(1)}
      results ==
        {LET pv == IF Len(p) > 2 THEN 99 ELSE Undec2(p) IN
         IF pv > 18 THEN NoCoin
         ELSE IF Len(TrimEnd(fr)) > pv THEN NoCoin
         ELSE Coin(Undec(Unsign(int)), Undec([i \in 1..pv |-> IF i <= Len(fr) THEN fr[i] ELSE "0"]), pv)
         : p \in ps}
      over == \E p \in ps :
                /\ Len(p) <= 2 /\ Undec2(p) <= 18 /\ Len(TrimEnd(fr)) <= Undec2(p)
                /\ ~ Leq(Add(Shl(Undec(Unsign(int)), Undec2(p)),
                             Undec([i \in 1..Undec2(p) |-> IF i <= Len(fr) THEN fr[i] ELSE "0"])), U64Max)
      long == Len(fr) # Len(TrimEnd(fr)) /\ \E p \in ps : Len(p) <= 2 /\ Len(fr) > Undec2(p)
  IN IF ~ wellFormed THEN {NoCoin}
     ELSE IF ~ Leq(Undec(Unsign(int)), U64Max) THEN {NoCoin}
     ELSE IF debatable \/ over \/ long THEN results \cup {NoCoin}
     ELSE results

CoinAlphabet == {"0", "1", "5", ".", "~", "_", "+", "x"}
WholeParts == {<<>>, <<"0">>, <<"1", "0">>, <<"1", "_", "0", "0", "0">>, Dec(U64Max), Dec(U64Max) \o <<"0">>, <<"-", "1">>, <<"+", "7">>}
Fracts == {<<>>, <<".">>, <<".", "5">>, <<".", "0", "0", "5">>, <<".", "5", "0", "0">>,
           <<".", "4", "3", " ", "6", "0", "8", " ", "1", "9", "5">>, <<".", "+", "5">>, <<".", "-", "5">>,
           <<".", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "1">>,
           <<".", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "1">>,
           <<".", "1", ".", "1">>}
PrecTexts == {<<>>, <<"~">>} \cup {<<"~">> \o Dec(N(p)) : p \in {0, 1, 2, 3, 8, 9, 17, 18, 19, 20, 255, 256, 264}}
               \cup {<<"~", "-", "1">>, <<"~", "2", "~", "2">>, <<"~", "8", ".", "5">>, <<"~", "0", "8">>}
CoinTexts == {a \o b \o c : a \in WholeParts, b \in Fracts, c \in PrecTexts}
               \cup StringsUpTo(CoinAlphabet, IF Big THEN 6 ELSE 5)
               \cup {CoinText(Shr(v, p), Low(v, p), p) : v \in Vals, p \in Precisions}
               \cup {CoinAlt(Shr(v, p), Low(v, p), p, " ") : v \in Vals, p \in Precisions}
Decimals == {N(0), N(1), N(9), N(10), N(99), N(100), Sub(D18, N(1)), D18, U64Max}
V04Cases ==
  {[k |-> "print", v |-> v, p |-> p] : v \in Vals, p \in Precisions}
    \cup {[k |-> "read", s |-> s] : s \in CoinTexts}
    \cup {[k |-> "with", int |-> i, fract |-> d, p |-> p] : i \in Vals, d \in Decimals, p \in {0, 1, 2, 8, 17, 18}}
    \cup {[k |-> "approx", int |-> i, q |-> q, p |-> p] : i \in {0, 1, 9, 99, 1000}, q \in 0..3, p \in Precisions}
V04Out(c) ==
  IF c.k = "print" THEN
    LET i == Shr(c.v, c.p) d == Low(c.v, c.p) IN
    [f |-> "coin.print", v |-> Dec(c.v), p |-> c.p,
     out |-> <<[coin |-> Coin(i, d, c.p), text |-> Concat(CoinText(i, d, c.p)),
                space |-> Concat(CoinAlt(i, d, c.p, " ")), under |-> Concat(CoinAlt(i, d, c.p, "_"))]>>]
  ELSE IF c.k = "approx" THEN
    \* quarters, which are exact in binary; those not fitting the precision are rounded
    LET h == (c.int * 4 + c.q) * 25    \* hundredths
        hi == Add(Shr(N(h), 2 - c.p), N(1))
        val == IF c.p >= 2 THEN {Shl(N(h), c.p - 2)}
               ELSE IF Low(N(h), 2 - c.p) = Zero THEN {Shr(N(h), 2 - c.p)}
               ELSE {Shr(N(h), 2 - c.p), hi}
    IN [f |-> "coin.approx", hundredths |-> h, p |-> c.p,
        out |-> Outs(IF h = 0 THEN {Refused}
                     ELSE {IF Leq(v, U64Max) THEN Concat(Dec(v)) ELSE Refused : v \in val})]
  ELSE IF c.k = "read" THEN [f |-> "coin.read", s |-> Concat(c.s), out |-> Outs(ReadCoin(c.s))]
  ELSE LET bad == Len(c.fract) > c.p /\ c.fract # Zero
           sum == Add(Shl(c.int, c.p), c.fract)
           fits == Leq(sum, U64Max)
           val == Concat(Dec(sum))
       IN [f |-> "coin.with", int |-> Dec(c.int), fract |-> Dec(c.fract), p |-> c.p,
           out |-> IF bad THEN <<[coin |-> Refused, amount |-> Refused]>>
                   ELSE IF fits THEN <<[coin |-> Coin(c.int, c.fract, c.p), amount |-> val]>>
                   ELSE <<[coin |-> Refused, amount |-> Refused],
                          [coin |-> Coin(c.int, c.fract, c.p), amount |-> Refused]>>]

------------------------------------------------------------------------------
\* Token allocations and fractions: text `fraction@index`, bytes of the state
ReadNum(s, max) ==
  IF Unsign(s) = <<>> \/ ~ AllDigits(Unsign(s)) \/ ~ Leq(Undec(Unsign(s)), max) THEN {Refused}
  ELSE (IF Signed(s) THEN {Refused} ELSE {}) \cup {Concat(Dec(Undec(Unsign(s))))}
NoAlloc == [index |-> Refused, fraction |-> Refused]
ReadAlloc(s) ==
  IF ~ Has(s, "@") THEN {NoAlloc}
  ELSE LET fs == ReadNum(Before(s, "@"), U64Max)
           is == ReadNum(After(s, "@"), U32Max)
       IN {IF Refused \in {a, b} THEN NoAlloc ELSE [index |-> b, fraction |-> a] : a \in fs, b \in is}
V32 == {v \in Vals : Leq(v, U32Max)}
AllocText(i, d) == Dec(d) \o <<"@">> \o Dec(i)
AllocTexts == {AllocText(i, d) : i \in Vals, d \in Vals}
                \cup StringsUpTo({"0", "1", "9", "@", "+", "-", "x", " "}, IF Big THEN 6 ELSE 5)
                \cup {AllocText(i, d) \o <<c>> : i \in V32, d \in Few, c \in {"0", "@", " ", "x"}}
NumTexts == StringsUpTo({"0", "1", "9", "+", "-", "x", " "}, 3) \cup {Dec(v) : v \in Vals}
              \cup {Dec(v) \o <<"0">> : v \in Vals} \cup {<<"0">> \o Dec(v) : v \in Vals}
V05Cases ==
  {[k |-> "print", i |-> i, d |-> d] : i \in V32, d \in Vals}
    \cup {[k |-> "read", s |-> s] : s \in AllocTexts}
    \cup {[k |-> t, s |-> s] : t \in {"fraction", "index"}, s \in NumTexts}
V05Out(c) ==
  IF c.k = "print" THEN
    [f |-> "alloc.print", i |-> Dec(c.i), d |-> Dec(c.d),
     out |-> <<[text |-> Concat(AllocText(c.i, c.d)), bytes |-> Bytes(c.i, 4) \o Bytes(c.d, 8),
                index |-> Concat(Dec(c.i)), fraction |-> Concat(Dec(c.d))]>>]
  ELSE IF c.k = "read" THEN [f |-> "alloc.read", s |-> Concat(c.s), out |-> Outs(ReadAlloc(c.s))]
  ELSE [f |-> c.k \o ".read", s |-> Concat(c.s), out |-> Outs(ReadNum(c.s, IF c.k = "index" THEN U32Max ELSE U64Max))]

------------------------------------------------------------------------------
Cases == CASE Suite = "V03" -> V03Cases [] Suite = "V04" -> V04Cases [] Suite = "V05" -> V05Cases
Out(c) == CASE Suite = "V03" -> V03Out(c) [] Suite = "V04" -> V04Out(c) [] Suite = "V05" -> V05Out(c)
InitCases == ty = "case" /\ acc \in Cases /\ last = "" /\ n = 0
NextCases == FALSE /\ UNCHANGED <<ty, acc, last, n>>
EmitCase == PrintT(ToJson(Out(acc)))

\* Laws of the specification itself: texts denote what was printed, parts recombine
Laws ==
  CASE Suite = "V03" /\ acc.k = "print" ->
         /\ ReadAmount(AmountText(acc.v)) = {Concat(Dec(acc.v))}
         /\ FromBytes(Bytes(acc.v, 8)) = acc.v
    [] Suite = "V03" /\ acc.k = "prec" -> Add(Shl(Shr(acc.v, acc.p), acc.p), Low(acc.v, acc.p)) = acc.v
    [] Suite = "V04" /\ acc.k = "print" ->
         LET i == Shr(acc.v, acc.p) d == Low(acc.v, acc.p) IN
         /\ Coin(i, d, acc.p) \in ReadCoin(CoinText(i, d, acc.p))
         /\ ReadCoin(CoinText(i, d, acc.p)) \subseteq {NoCoin, Coin(i, d, acc.p)}
         /\ Coin(i, d, acc.p) \in ReadCoin(CoinAlt(i, d, acc.p, "_"))
    [] Suite = "V05" /\ acc.k = "print" ->
         ReadAlloc(AllocText(acc.i, acc.d)) = {[index |-> Concat(Dec(acc.i)), fraction |-> Concat(Dec(acc.d))]}
    [] OTHER -> TRUE
=============================================================================
