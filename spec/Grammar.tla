------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* The notation in which expressions are printed, and how it is read.      *)
(*                                                                         *)
(*   sum    := ["-"] term { (" + " | " + -" | " - ") term }                *)
(*   term   := factor { ("*" | "/" | nothing) factor }    left to right    *)
(*   factor := atom [ "^" atom ]                                           *)
(*   atom   := digits | pi | e | undef | name | "(" sum ")"                *)
(*           | function [ "^" atom ] "(" sum ")"                           *)
(*   function := name of a function | "log" [ digits | pi | "_" atom ]     *)
(*                                                                         *)
(* A text is a sequence of code points.  Reading yields <<term, position   *)
(* behind it>>; Bad marks a text that is not in the notation.              *)
(***************************************************************************)
EXTENDS Api

Bad == <<"bad">>
IsBad(p) == p[1] = Bad
cMinus == {45, 8722}
cMul == 183
cDiv == 47
cPow == 94
cOpen == 40
cClose == 41
cSpace == 32
cPi == 960
cE == 120046
cUndef == 8709
cUnder == 95
cPlus == 43

At0(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
IsDigit(c) == c >= 48 /\ c <= 57
IsLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
Letters == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Capitals == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Ch(c) == IF c >= 97 THEN Letters[c - 96] ELSE IF c >= 65 THEN Capitals[c - 64] ELSE ToString(c - 48)

RECURSIVE RunD(_, _)
RunD(s, p) == IF p <= Len(s) /\ IsDigit(s[p]) THEN RunD(s, p + 1) ELSE p
RECURSIVE RunL(_, _)
RunL(s, p) == IF p <= Len(s) /\ IsLetter(s[p]) THEN RunL(s, p + 1) ELSE p
RECURSIVE RunN(_, _)
RunN(s, p) == IF p <= Len(s) /\ (IsLetter(s[p]) \/ IsDigit(s[p])) THEN RunN(s, p + 1) ELSE p
Word(s, p, q) == FoldLeft(LAMBDA w, c : w \o Ch(c), "", SubSeq(s, p, q - 1))
SkipSp(s, p) == IF At0(s, p) = cSpace THEN p + 1 ELSE p

DigitsVal(s, p, q) == FoldLeft(LAMBDA n, c : 10 * n + (c - 48), 0, SubSeq(s, p, q - 1))
RECURSIVE LimbsOf(_, _, _)
LimbsOf(s, p, q) == IF q <= p THEN <<>> ELSE LET b == IF q - 4 < p THEN p ELSE q - 4 IN <<DigitsVal(s, b, q)>> \o LimbsOf(s, p, b)
NumberT(s, p, q) == IF q - p <= 9 THEN Q(DigitsVal(s, p, q), 1) ELSE <<"Q", 1, LimbsOf(s, p, q), <<1>>>>

FunNames == {"sin", "cos", "tan", "sec", "csc", "cot", "arcsin", "arccos", "arctan", "arcsec", "arccsc", "arccot", "ln", "log"}
ApplyFun(name, base, a) ==
    CASE name = "ln" -> <<"log", <<"e">>, a>>
      [] name = "log" -> <<"log", base, a>>
      [] OTHER -> Fn(name, a)

RECURSIVE PSum(_, _)
RECURSIVE PTerm(_, _)
RECURSIVE PFactor(_, _)
RECURSIVE PAtom(_, _)
RECURSIVE PSumRest(_, _)
RECURSIVE PTermRest(_, _)

Paren(s, p) == \* s[p] is an opening parenthesis
    LET r == PSum(s, p + 1) IN
    IF IsBad(r) \/ At0(s, r[2]) # cClose THEN <<Bad, p>> ELSE <<r[1], r[2] + 1>>

\* the base of a logarithm, behind its name
LogBase(s, p) ==
    LET c == At0(s, p) IN
    IF IsDigit(c) THEN LET q == RunD(s, p) IN <<NumberT(s, p, q), q>>
    ELSE IF c = cPi THEN <<<<"pi">>, p + 1>>
    ELSE IF c = cUnder /\ At0(s, p + 1) = cOpen THEN Paren(s, p + 1)
    ELSE <<Q(10, 1), p>>

PFun(s, p, name) ==
    LET b == IF name = "log" THEN LogBase(s, p) ELSE <<One, p>> IN
    IF IsBad(b) THEN b
    ELSE LET x == IF At0(s, b[2]) = cPow THEN PAtom(s, b[2] + 1) ELSE <<One, b[2]>> IN
         IF IsBad(x) \/ At0(s, x[2]) # cOpen THEN <<Bad, p>>
         ELSE LET a == Paren(s, x[2]) IN
              IF IsBad(a) THEN a
              ELSE LET f == ApplyFun(name, b[1], a[1]) IN
                   <<IF At0(s, b[2]) = cPow THEN PowT(f, x[1]) ELSE f, a[2]>>

PAtom(s, p) ==
    LET c == At0(s, p) IN
    IF IsDigit(c) THEN LET q == RunD(s, p) IN <<NumberT(s, p, q), q>>
    ELSE IF c = cPi THEN <<<<"pi">>, p + 1>>
    ELSE IF c = cE THEN <<<<"e">>, p + 1>>
    ELSE IF c = cUndef THEN <<Undef, p + 1>>
    ELSE IF c = cOpen THEN Paren(s, p)
    ELSE IF IsLetter(c)
    THEN LET q == RunL(s, p)
             w == Word(s, p, q)
         IN IF w \in FunNames THEN PFun(s, q, w)
            ELSE LET q2 == RunN(s, p) IN <<V(Word(s, p, q2)), q2>>
    ELSE <<Bad, p>>

PFactor(s, p) ==
    LET b == PAtom(s, p) IN
    IF IsBad(b) \/ At0(s, b[2]) # cPow THEN b
    ELSE LET x == PAtom(s, b[2] + 1) IN
         IF IsBad(x) \/ At0(s, x[2]) = cPow THEN <<Bad, p>> ELSE <<PowT(b[1], x[1]), x[2]>>

StartsFactor(c) == IsDigit(c) \/ IsLetter(c) \/ c \in {cPi, cE, cUndef, cOpen}
PTermRest(s, l) ==
    LET p == l[2]
        c == At0(s, p)
        with(q, op(_, _)) == LET r == PFactor(s, q) IN IF IsBad(r) THEN r ELSE PTermRest(s, <<op(l[1], r[1]), r[2]>>)
        mul(a, b) == ProdT(<<a, b>>)
    IN IF c = cMul THEN with(p + 1, mul)
       ELSE IF c = cSpace /\ At0(s, p + 1) = cMul THEN with(SkipSp(s, p + 2), mul)
       ELSE IF c = cDiv THEN with(p + 1, DivT)
       ELSE IF StartsFactor(c) THEN with(p, mul)
       ELSE l
PTerm(s, p) == LET f == PFactor(s, p) IN IF IsBad(f) THEN f ELSE PTermRest(s, f)

PSumRest(s, l) ==
    LET p == SkipSp(s, l[2])
        c == At0(s, p)
    IN IF c = cPlus \/ c \in cMinus
       THEN LET q == SkipSp(s, p + 1)
                neg == c = cPlus /\ At0(s, q) \in cMinus
                r == PTerm(s, IF neg THEN q + 1 ELSE q)
            IN IF IsBad(r) THEN r
               ELSE PSumRest(s, <<IF c = cPlus /\ ~neg THEN SumT(<<l[1], r[1]>>) ELSE SubT(l[1], r[1]), r[2]>>)
       ELSE l
PSum(s, p) ==
    IF At0(s, p) \in cMinus
    THEN LET r == PTerm(s, p + 1) IN IF IsBad(r) THEN r ELSE PSumRest(s, <<Neg(r[1]), r[2]>>)
    ELSE LET r == PTerm(s, p) IN IF IsBad(r) THEN r ELSE PSumRest(s, r)

Read(s) == LET r == PSum(s, 1) IN IF IsBad(r) \/ r[2] # Len(s) + 1 THEN Bad ELSE r[1]

------------------------------------------------------------------------------
\* operands that have no influence on the value need not be printed
JudgeDisp(a, x) ==
    LET t == Read(x.s) IN
       Check("C14", x.a, "expression-and-atom-printed-differently")
    \o IF t = Bad THEN Vd("C14", "not-readable")
       ELSE Vd("C14", Compat(a, t))
         \o Check("C14", Names(t) = Names(a), "printed-with-other-variables")
         \o Check("C14", HasUndef(t) = HasUndef(a), "undefined-not-printed")
=============================================================================
