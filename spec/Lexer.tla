------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The words of the assembly language.  A text is a string, a position in  *)
(* it is [p, ln, cl]: the index of the next character, and its line and    *)
(* column, both from 0.  A tab is four columns.                            *)
(*                                                                         *)
(* A token of type "bad" is one that no program may contain: the assembler *)
(* stops there.  "any" is left open by this specification.                 *)
(***************************************************************************)
EXTENDS Numbers, FiniteSets

Digits     == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
HexDigits  == DOMAIN HexVal
OctDigits  == {"0", "1", "2", "3", "4", "5", "6", "7"}
Signs      == {"+", "-"}
Blanks     == {" ", "\t", "\r", "\n"}
Operators  == {"+", "-", "~", "|", "[", "]", "@", ",", ";"}
Separators == Blanks \cup Operators \cup {".", ""}      \* "" is the end of the text
NumChars   == HexDigits \cup Signs \cup {"x", "X"}
HexOnly    == (HexDigits \ Digits) \cup {"x", "X"}
UpperAlpha == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
               "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
LowerAlpha == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
               "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Alpha      == UpperAlpha \cup LowerAlpha
WordChars  == Alpha \cup Digits \cup {"_"}

Ch(s, p) == IF p > Len(s) THEN "" ELSE SubSeq(s, p, p)

(* The first position from p on that is past the end or satisfies P.  TLC  *)
(* tries the numbers of an interval in order, so it need not look further; *)
(* a recursive definition costs it the square of the distance.             *)
First(s, p, P(_)) == CHOOSE q \in p..(Len(s) + 1) : q > Len(s) \/ P(q)

(* the first position from p on whose character is not in C *)
While(s, p, C) == IF p > Len(s) THEN p
                  ELSE LET P(q) == SubSeq(s, q, q) \notin C IN First(s, p, P)

(* the first position from p on whose character is in C or is the end *)
Until(s, p, C) == IF p > Len(s) THEN p
                  ELSE LET P(q) == SubSeq(s, q, q) \in C IN First(s, p, P)

(* blanks: a line feed starts a line, a tab is four columns *)
SkipBlanks(s, at) ==
  IF Ch(s, at.p) \notin Blanks THEN at
  ELSE LET q == While(s, at.p, Blanks)
           feeds == Cardinality({x \in at.p..(q - 1) : SubSeq(s, x, x) = "\n"})
           (* the blanks after the last line feed; again the smallest number *)
           tail == CHOOSE x \in 0..(q - at.p) : x = q - at.p \/ SubSeq(s, q - 1 - x, q - 1 - x) = "\n"
           start == q - tail
           tabs == Cardinality({x \in start..(q - 1) : SubSeq(s, x, x) = "\t"})
       IN [p |-> q, ln |-> at.ln + feeds,
           cl |-> (IF feeds = 0 THEN at.cl ELSE 0) + tail + 3 * tabs]

(***************************************************************************)
(* Literals.                                                               *)
(***************************************************************************)
AllIn(s, C) == While(s, 1, C) > Len(s)

(* an integer literal without its sign *)
IntLiteral(body, neg) ==
  LET hex == Len(body) > 2 /\ SubSeq(body, 1, 1) = "0" /\ SubSeq(body, 2, 2) \in {"x", "X"}
      bin == Len(body) > 1 /\ SubSeq(body, 1, 1) = "0" /\ SubSeq(body, 2, 2) \in {"b", "B"}
      oct == SubSeq(body, 1, 1) = "0"
      digits == IF hex THEN SubSeq(body, 3, Len(body)) ELSE body
      C == IF hex THEN HexDigits ELSE IF oct THEN OctDigits ELSE Digits
  IN IF bin THEN [t |-> "any"]      \* binary literals depend on the C library
     ELSE IF ~AllIn(digits, C) THEN [t |-> "bad"]
     ELSE LET M == Magnitude(digits, IF hex THEN 16 ELSE IF oct THEN 8 ELSE 10)
              fits == IF neg THEN M = {63} \/ M \subseteq 0..62 ELSE M \subseteq 0..62
          IN IF fits THEN [t |-> "int", neg |-> neg /\ M # {}, m |-> M] ELSE [t |-> "bad"]

Number(s, p) ==                       \* <<token, position after it>>
  LET q == While(s, p, NumChars)
      signed == Ch(s, p) \in Signs
      neg == Ch(s, p) = "-"
      body == SubSeq(s, IF signed THEN p + 1 ELSE p, q - 1)
  IN IF Ch(s, q) = "."
     THEN LET r == While(s, q + 1, Digits)
          IN IF ~AllIn(body, Digits) \/ Ch(s, r) \notin Separators
             THEN <<[t |-> "bad"], r>>
             ELSE <<[t |-> "flt", neg |-> neg, v |-> Literal(body, SubSeq(s, q + 1, r - 1))], r>>
     ELSE IF Ch(s, q) \notin Separators THEN <<[t |-> "bad"], q>>
     ELSE <<IntLiteral(body, neg), q>>

(***************************************************************************)
(* One token.                                                              *)
(***************************************************************************)
At(tok, a) == tok @@ [ln |-> a.ln, cl |-> a.cl]

RECURSIVE Lex(_, _)
Lex(s, from) ==                       \* [tok, at]
  LET a == SkipBlanks(s, from)
      p == a.p
      c == Ch(s, p)
      d == Ch(s, p + 1)
      Done(tok, q) == [tok |-> At(tok, a) @@ [p |-> p, e |-> q], at |-> [p |-> q, ln |-> a.ln, cl |-> a.cl + (q - p)]]
      (* what is not a predicate, a number or a register: a name, and a   *)
      (* name that ends in a colon is a label, which is not part of any   *)
      (* statement                                                        *)
      Name == LET q == Until(s, p + 1, Separators)
              IN IF Ch(s, q - 1) = ":"
                 THEN Lex(s, [p |-> q, ln |-> a.ln, cl |-> a.cl + (q - p)])
                 ELSE Done([t |-> "id", s |-> SubSeq(s, p, q - 1)], q)
      Predicate == LET k == IF c = "!" THEN p + 2 ELSE p + 1
                       x == Ch(s, k)
                   IN IF c = "!" /\ d \notin {"P", "p"} THEN Done([t |-> "bad"], p + 1)
                      ELSE IF x \in {"T", "t"} \cup Digits /\ Ch(s, k + 1) \in Separators
                      THEN IF x \in {"T", "t"} THEN Done([t |-> "pred", n |-> 7, neg |-> c = "!"], k + 1)
                           ELSE IF HexVal[x] > 6 THEN Done([t |-> "bad"], k + 1)
                           ELSE Done([t |-> "pred", n |-> HexVal[x], neg |-> c = "!"], k + 1)
                      ELSE Name
      Register == IF d = "Z"
                  THEN IF Ch(s, p + 2) \in Separators THEN Done([t |-> "reg", n |-> 255], p + 2)
                       ELSE Done([t |-> "bad"], p + 2)
                  ELSE LET q == While(s, p + 1, Digits)
                       IN IF q = p + 1 \/ Ch(s, q) \notin Separators THEN Name
                          ELSE LET n == StripZeros(SubSeq(s, p + 1, q - 1), 1)
                               IN IF Len(n) > 3 \/ SmallVal(n, 1, 10, 0) > 254
                                  THEN Done([t |-> "bad"], q)
                                  ELSE Done([t |-> "reg", n |-> SmallVal(n, 1, 10, 0)], q)
  IN IF c = "" THEN Done([t |-> "none"], p)
     ELSE IF c \in Operators /\ ~(c \in Signs /\ d \in Digits) THEN Done([t |-> c], p + 1)
     ELSE IF c \in {"!", "P", "p"} THEN Predicate
     ELSE IF c \in Signs \/ (c \in Digits /\ d # "D")
     THEN LET r == Number(s, p) IN Done(r[1], r[2])
     ELSE IF c = "R" THEN Register
     ELSE Name

(***************************************************************************)
(* The tokens of one statement: up to its semicolon, the end of the text,  *)
(* or a token that stops the assembler.                                    *)
(***************************************************************************)
RECURSIVE LexStatement(_, _, _)
LexStatement(s, at, acc) ==           \* [toks, at]
  LET r == Lex(s, at)
      toks == Append(acc, r.tok)
  IN IF r.tok.t \in {";", "none", "bad", "any"} THEN [toks |-> toks, at |-> r.at]
     ELSE LexStatement(s, r.at, toks)

StartOfText == [p |-> 1, ln |-> 0, cl |-> 0]

(***************************************************************************)
(* The label pass.  A label is a word at the very start of a line, followed*)
(* by a colon.  LineAt describes the line that starts at p.                *)
(***************************************************************************)
LineAt(s, p) ==
  LET e == Until(s, p, {"\n"})        \* the line feed or the end
      w == IF Ch(s, p) \in Alpha THEN While(s, p, WordChars) ELSE p
      (* empty lines after it are passed over *)
      n == While(s, e + 1, {"\n"})
  IN [next |-> n,
      lines |-> n - e,
      label |-> IF w > p /\ Ch(s, w) = ":" THEN SubSeq(s, p, w - 1) ELSE "",
      semis |-> Cardinality({q \in p..(e - 1) : SubSeq(s, q, q) = ";"})]
============================================================================
