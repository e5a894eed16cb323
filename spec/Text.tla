-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Literals and formats.  A text is a TLA+ string; characters are strings  *)
(* of length one.                                                          *)
(***************************************************************************)
EXTENDS BitVec

At(t, i) == SubSeq(t, i, i)
Chars(t) == Force([i \in 1..Len(t) |-> At(t, i)])
Str(cs) == FoldLeft(LAMBDA acc, c : acc \o c, "", cs)
Rep(c, n) == FoldLeft(LAMBDA acc, i : acc \o c, "", Idx(n))

(* Printable ASCII in code order, from the space (32); a byte 0 is written ^  *)
(* in recorded texts.                                                        *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiChars == Chars(Ascii)
Code(c) == IF c = "^" THEN 0 ELSE 31 + (CHOOSE i \in 1..Len(AsciiChars) : AsciiChars[i] = c)
CharOf(n) == IF n = 0 THEN "^" ELSE AsciiChars[n - 31]

DigitVal == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f",
                    "A","B","C","D","E","F"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
    [] c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
    [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] c \in {"f","F"} -> 15]
DecDigits == {"0","1","2","3","4","5","6","7","8","9"}

Stride(base) == CASE base \in {"b","B"} -> 1 [] base \in {"o","O"} -> 3
                  [] base \in {"h","H","x","X"} -> 4 [] base \in {"s","S"} -> 8

(*-------------------------------------------------------------------------*)
(* Parsing: [size]'<base><digits>, or a string without a quote              *)
(*-------------------------------------------------------------------------*)
QuotePos(t) == LET Q == {i \in 1..Len(t) : At(t, i) = "'"}
               IN IF Q = {} THEN 0 ELSE CHOOSE i \in Q : \A j \in Q : i <= j
DigitBits(c, stride) ==
  IF c \in {"x", "X"} THEN Fill(stride, X)
  ELSE IF c \in {"z", "Z"} THEN Fill(stride, Z)
  ELSE FromNat(DigitVal[c], stride)

(* digits of a decimal number to n bits                                      *)
DecBits(cs, n) ==
  FoldLeft(LAMBDA acc, c :
             LET ten == Add(Low(<<0, 0, 0>> \o acc, n), Low(<<0>> \o acc, n))
             IN Add(ten, Low(FromNat(DigitVal[c], 4) \o Zeros(n), n)),
           Zeros(n), cs)

Reverse_(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Parse(t, w) ==
  LET q == QuotePos(t)
  IN IF q = 0
     THEN LET bytes == FoldLeft(LAMBDA acc, c : acc \o FromNat(Code(c), 8), << >>,
                                Reverse_(Chars(t)))
          IN Resize(bytes \o <<0>>, FALSE, w)
     ELSE LET base == At(t, q + 1)
              cs == SelectSeq(Chars(SubSeq(t, q + 2, Len(t))), LAMBDA c : c # "_")
          IN IF base \in {"d", "D"} THEN DecBits(cs, w)
             ELSE LET bits == FoldLeft(LAMBDA acc, c : acc \o DigitBits(c, Stride(base)), << >>,
                                       Reverse_(cs))
                  IN Resize(bits \o <<0>>, FALSE, w)

(* an unquoted string given as the hexadecimal codes of its bytes             *)
ParseBytes(t, w) ==
  Resize(FoldLeft(LAMBDA acc, c : acc \o DigitBits(c, 4), << >>, Reverse_(Chars(t))) \o <<0>>, FALSE, w)

(*-------------------------------------------------------------------------*)
(* Formatting: [size]<base>                                                 *)
(*-------------------------------------------------------------------------*)
HexDigit == << "0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f" >>
(* one digit made of the (one or more) bits d                               *)
DigitChar(d) ==
  IF ~HasXZ(d) THEN HexDigit[ToNat(d) + 1]
  ELSE IF \A i \in 1..Len(d) : d[i] = X THEN "x"
  ELSE IF \A i \in 1..Len(d) : d[i] = Z THEN "z"
  ELSE IF \E i \in 1..Len(d) : d[i] = X THEN "X" ELSE "Z"

CeilDiv(a, b) == (a + b - 1) \div b
Groups(b, stride) ==   \* least significant group first
  [g \in 1..CeilDiv(Len(b), stride) |->
     SubSeq(b, (g - 1) * stride + 1, MinN(Len(b), g * stride))]

(* known bits to decimal digits, least significant first, by long division    *)
RECURSIVE DecDigitsOf(_)
Div10(b) ==
  FoldLeft(LAMBDA acc, k :
             LET r == 2 * acc[2] + b[Len(b) + 1 - k]
             IN IF r >= 10 THEN << <<1>> \o acc[1], r - 10 >> ELSE << <<0>> \o acc[1], r >>,
           << << >>, 0 >>, Idx(Len(b)))
(* drop leading zeros of the quotient to keep the recursion short             *)
Trim(b) == LET T == {i \in 1..Len(b) : b[i] = 1}
           IN IF T = {} THEN << >> ELSE Low(b, CHOOSE i \in T : \A j \in T : j <= i)
DecDigitsOf(b) ==
  LET qr == Div10(b)
      q == Trim(qr[1])
  IN << HexDigit[qr[2] + 1] >> \o (IF q = << >> THEN << >> ELSE DecDigitsOf(q))

(* number of decimal digits of 2^n - 1: the natural width of a decimal         *)
DecWidth(n) == IF n > 128 THEN n ELSE Len(DecDigitsOf(Fill(n, 1)))

FmtParts(fmt) ==       \* << requested size as a sequence of digits, base >>
  LET n == CHOOSE n \in 0..Len(fmt) :
             /\ \A i \in 1..n : At(fmt, i) \in DecDigits
             /\ n < Len(fmt) /\ At(fmt, n + 1) \notin DecDigits
  IN << n, FoldLeft(LAMBDA v, i : 10 * v + DigitVal[At(fmt, i)], 0, Idx(n)), At(fmt, n + 1) >>

PadLeft(t, n, c) == Rep(c, n - Len(t)) \o t
Format(b, sgn, fmt) ==
  LET f == FmtParts(fmt)
      requested == f[1] > 0
      base == f[3]
      n == Len(b)
      pad(t, natural, c) ==
        IF requested /\ f[2] = 0 THEN t
        ELSE PadLeft(t, MaxN(natural, IF requested THEN f[2] ELSE 0), c)
  IN IF base \in {"d", "D"}
     THEN LET neg == sgn /\ b[n] = 1 /\ ~HasXZ(b)
              digits == IF HasXZ(b)
                        THEN IF \A i \in 1..n : b[i] = X THEN "x"
                             ELSE IF \A i \in 1..n : b[i] = Z THEN "z"
                             ELSE IF \E i \in 1..n : b[i] = X THEN "X" ELSE "Z"
                        ELSE Str(Reverse_(DecDigitsOf(IF neg THEN Neg(b) ELSE b)))
          IN IF neg
             THEN IF requested /\ f[2] = 0 THEN "-" \o digits
                  ELSE PadLeft("-" \o digits, 1 + MaxN(DecWidth(n), IF requested THEN f[2] ELSE 0), " ")
             ELSE pad(digits, DecWidth(n), " ")
     ELSE IF base \in {"b", "B"}
     THEN pad(Str(Reverse_([i \in 1..n |-> CASE b[i] = 0 -> "0" [] b[i] = 1 -> "1"
                                             [] b[i] = 2 -> "x" [] b[i] = 3 -> "z"])), n, "0")
     ELSE IF base \in {"s", "S"}
     THEN LET g == Groups(b, 8)
          IN pad(Str(Reverse_([i \in 1..Len(g) |-> CharOf(ToNat(g[i]))])), Len(g), " ")
     ELSE LET g == Groups(b, Stride(base))
          IN pad(Str(Reverse_([i \in 1..Len(g) |-> DigitChar(g[i])])), Len(g), "0")

(* as a string, given as the hexadecimal codes of its bytes; a space is 20      *)
FormatBytes(b, fmt) ==
  LET f == FmtParts(fmt)
      g == Groups(b, 8)
      hex(d) == LET n == ToNat(d) IN HexDigit[(n \div 16) + 1] \o HexDigit[(n % 16) + 1]
      width == IF f[1] > 0 THEN f[2] ELSE 0
  IN Rep("20", width - Len(g)) \o Str(Reverse_([i \in 1..Len(g) |-> hex(g[i])]))
=============================================================================
