--------------------------------- MODULE Num ---------------------------------
(* Natural numbers of arbitrary size as sequences of decimal digits, the     *)
(* most significant first, without leading zeros (TLC integers have 32 bits).*)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Zero == <<0>>
RECURSIVE Trim(_)
Trim(d) == IF d = <<>> THEN Zero ELSE IF Len(d) > 1 /\ d[1] = 0 THEN Trim(Tail(d)) ELSE d
Zeros(n) == [i \in 1..n |-> 0]
Pad(d, n) == IF Len(d) >= n THEN d ELSE Zeros(n - Len(d)) \o d

RECURSIVE LessDigits(_, _)
LessDigits(a, b) ==
  IF a = <<>> THEN FALSE
  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessDigits(Tail(a), Tail(b))
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessDigits(a, b)
Leq(a, b) == ~ Less(b, a)

RECURSIVE AddDigits(_, _, _)
\* digits from the least significant, the carry is c
AddDigits(a, b, c) ==
  IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[Len(a)] + b[Len(b)] + c
           r == AddDigits(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1), s \div 10)
       IN Append(r, s % 10)
Add(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
  IN Trim(AddDigits(Pad(a, n), Pad(b, n), 0))

RECURSIVE SubDigits(_, _, _)
SubDigits(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET y == b[Len(b)] + c
           s == IF a[Len(a)] >= y THEN a[Len(a)] - y ELSE a[Len(a)] + 10 - y
           r == SubDigits(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1), IF a[Len(a)] >= y THEN 0 ELSE 1)
       IN Append(r, s)
\* for b <= a
Sub(a, b) == Trim(SubDigits(a, Pad(b, Len(a)), 0))

\* Multiplication, division and remainder by a power of ten are shifts of digits.
Shl(a, p) == Trim(a \o Zeros(p))
Shr(a, p) == IF Len(a) <= p THEN Zero ELSE SubSeq(a, 1, Len(a) - p)
Low(a, p) == IF p = 0 THEN Zero ELSE Trim(SubSeq(Pad(a, p), Len(Pad(a, p)) - p + 1, Len(Pad(a, p))))

RECURSIVE DivSmall(_, _, _)
\* <<quotient digits, remainder>> of division by a small number
DivSmall(a, m, r) ==
  IF a = <<>> THEN <<<<>>, r>>
  ELSE LET x == r * 10 + a[1]
           t == DivSmall(Tail(a), m, x % m)
       IN <<<<x \div m>> \o t[1], t[2]>>
RECURSIVE Bytes(_, _)
\* n lower bytes, the least significant first
Bytes(a, n) ==
  IF n = 0 THEN <<>>
  ELSE LET d == DivSmall(a, 256, 0) IN <<d[2]>> \o Bytes(Trim(d[1]), n - 1)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
RECURSIVE Mul256(_)
MulSmallAdd(a, m, c) == \* a * m + c for small m, by repeated addition of digit products
  LET RECURSIVE go(_, _)
      go(d, carry) == IF d = <<>> THEN Digits(carry)
                      ELSE LET x == d[Len(d)] * m + carry
                           IN Append(go(SubSeq(d, 1, Len(d) - 1), x \div 10), x % 10)
  IN Trim(go(a, c))
Mul256(a) == MulSmallAdd(a, 256, 0)
RECURSIVE FromBytes(_)
FromBytes(b) == IF b = <<>> THEN Zero ELSE MulSmallAdd(FromBytes(Tail(b)), 256, b[1])

U64Max == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
U32Max == <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>

\* Text is a sequence of one-character strings.
DigitChar == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Dec(a) == [i \in 1..Len(a) |-> DigitChar[a[i] + 1]]
IsDigit(c) == \E i \in 1..10 : DigitChar[i] = c
DigitOf(c) == (CHOOSE i \in 1..10 : DigitChar[i] = c) - 1
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
Undec(s) == Trim([i \in 1..Len(s) |-> DigitOf(s[i])])
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN "" ELSE s[1] \o Concat(Tail(s))
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
IndexOf(s, c) == CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
Before(s, c) == SubSeq(s, 1, IndexOf(s, c) - 1)
After(s, c) == SubSeq(s, IndexOf(s, c) + 1, Len(s))
Without(s, cs) == SelectSeq(s, LAMBDA c : c \notin cs)
=============================================================================
