-------------------------------- MODULE Terms --------------------------------
(***************************************************************************)
(* Expressions and their meaning.                                          *)
(*                                                                         *)
(* A term is a tagged tuple:                                               *)
(*   <<"U">>  <<"q",n,d>>  <<"Q",sign,nlimbs,dlimbs>>  <<"e">>  <<"pi">>    *)
(*   <<"v",name>>  <<"+",<<..>>>>  <<"*",<<..>>>>  <<"^",b,e>>             *)
(*   <<"f",name,arg>>  <<"log",base,arg>>                                  *)
(* and, only inside the specification,                                     *)
(*   <<"-",a,b>>  <<"/",a,b>>  <<"D",arg,var>>                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Fields

IsTag(e, t) == e[1] = t
IsRat(e) == e[1] \in {"q", "Q"}
IsSmall(e) == e[1] = "q"
IsInt(e) == IsSmall(e) /\ e[3] = 1
Q(n, d) == <<"q", n, d>>
Zero == Q(0, 1)
One == Q(1, 1)
Two == Q(2, 1)
MinusOne == Q(-1, 1)
Undef == <<"U">>
None == <<"none">>
V(name) == <<"v", name>>
SumT(args) == <<"+", args>>
ProdT(args) == <<"*", args>>
PowT(b, e) == <<"^", b, e>>
Fn(name, a) == <<"f", name, a>>
Neg(a) == ProdT(<<MinusOne, a>>)
SubT(a, b) == <<"-", a, b>>
DivT(a, b) == <<"/", a, b>>
NamedConst(e) == e[1] \in {"e", "pi"}
IsNumber(e) == IsRat(e) \/ NamedConst(e)

Args(e) ==
    CASE e[1] \in {"+", "*"} -> e[2]
      [] e[1] \in {"^", "-", "/"} -> <<e[2], e[3]>>
      [] e[1] \in {"f", "log"} -> <<e[3]>>
      [] e[1] = "D" -> <<e[2], e[3]>>
      [] OTHER -> <<>>

RECURSIVE Size(_)
Size(e) == FoldLeft(LAMBDA n, a : n + Size(a), 1, Args(e))


RECURSIVE Occurs(_, _)
\* syntactic occurrence of the variable name
Occurs(name, e) == \/ e[1] = "v" /\ e[2] = name
                   \/ \E i \in 1..Len(Args(e)) : Occurs(name, Args(e)[i])

\* the complete sub-expressions of e, in no particular order
RECURSIVE SubTerms(_)
SubTerms(e) == FoldLeft(LAMBDA s, a : s \o SubTerms(a), <<e>>, Args(e))

------------------------------------------------------------------------------
(* exact value <<n,d>> of a constant rational term, or <<>>                 *)
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
RLim == 20000
RNorm(n, d) ==
    IF d = 0 THEN <<>>
    ELSE LET g == GCD(Abs(n), Abs(d))
             s == IF d < 0 THEN -1 ELSE 1
             nn == s * (n \div g)  dd == (s * d) \div g
         IN IF Abs(nn) > RLim \/ dd > RLim THEN <<>> ELSE <<nn, dd>>
RAdd(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE RNorm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE RNorm(a[1] * b[1], a[2] * b[2])
RECURSIVE RPow(_, _)
RPow(a, n) == IF a = <<>> THEN <<>>
              ELSE IF n = 0 THEN (IF a[1] = 0 THEN <<>> ELSE <<1, 1>>)
              ELSE IF n < 0 THEN (IF a[1] = 0 THEN <<>> ELSE RPow(RNorm(a[2], a[1]), -n))
              ELSE IF n > 40 /\ Abs(a[1]) + a[2] > 2 THEN <<>>
              ELSE IF n = 1 THEN a
              ELSE IF Abs(a[1]) <= 1 /\ a[2] = 1 THEN (IF n % 2 = 0 THEN <<a[1] * a[1], 1>> ELSE a)
              ELSE RMul(a, RPow(a, n - 1))
RECURSIVE CR(_)
CR(e) ==
    CASE e[1] = "q" -> IF Abs(e[2]) > RLim \/ e[3] > RLim THEN <<>> ELSE RNorm(e[2], e[3])
      [] e[1] = "+" -> FoldLeft(LAMBDA s, a : IF s = <<>> THEN <<>> ELSE RAdd(s, CR(a)), <<0, 1>>, e[2])
      [] e[1] = "*" -> FoldLeft(LAMBDA s, a : IF s = <<>> THEN <<>> ELSE RMul(s, CR(a)), <<1, 1>>, e[2])
      [] e[1] = "^" -> LET x == CR(e[3]) IN
                       IF x = <<>> THEN <<>> ELSE IF x[2] # 1 THEN <<>> ELSE RPow(CR(e[2]), x[1])
      [] e[1] = "-" -> RAdd(CR(e[2]), RMul(<<-1, 1>>, CR(e[3])))
      [] e[1] = "/" -> RMul(CR(e[2]), RPow(CR(e[3]), -1))
      [] OTHER -> <<>>

------------------------------------------------------------------------------
(* meaning: the value of e at node i, sample point k (UD if undefined)      *)
RECURSIVE Ev(_, _, _)
RECURSIVE EvD(_, _, _, _)

\* an integer of any size as an exponent: what it is modulo the order of the multiplicative group
BigInt(x) == x[1] = "Q" /\ x[4] = <<1>>
EvBigPow(b, x, i, k) ==
    LET v == Ev(b, i, k)
        m == FoldRight(LAMBDA d, acc : (acc * 10000 + d) % (P(i) - 1), x[3], 0)
    IN IF v = 0 THEN (IF x[2] > 0 THEN 0 ELSE UD) ELSE FIPow(i, v, x[2] * m)
EvPow(b, x, i, k) ==
    LET c == IF x[1] = "q" THEN <<x[2], x[3]>> ELSE CR(x) IN
    IF c # <<>> /\ c[2] = 1 THEN FIPow(i, Ev(b, i, k), c[1])
    ELSE IF BigInt(x) THEN EvBigPow(b, x, i, k)
    ELSE IF Node[i].es = 0 THEN UD
    ELSE LET bv == Ev(b, i, k) IN
         IF bv = 0 /\ c # <<>>
         THEN IF c[1] > 0 THEN 0 ELSE UD          \* 0^(1/2) = 0
         ELSE IF ~IsPos(i, bv) THEN UD ELSE FPow(i, bv, Ev(x, Node[i].es, k))

\* natural logarithm of e as an element of node i
EvLn(e, i, k) ==
    LET j == Node[i].ep IN
    IF j = 0 THEN UD
    ELSE LET v == Ev(e, j, k) IN IF IsPos(j, v) THEN LogAt(j, v) ELSE UD

EvFn(name, a, i, k) ==
    IF name \in {"sin", "cos", "tan", "sec", "cot", "csc"} THEN
        IF Node[i].ts = 0 THEN UD
        ELSE LET u == Ev(a, Node[i].ts, k) IN
             CASE name = "sin" -> FSin(i, u)
               [] name = "cos" -> FCos(i, u)
               [] name = "tan" -> FDiv(i, FSin(i, u), FCos(i, u))
               [] name = "cot" -> FDiv(i, FCos(i, u), FSin(i, u))
               [] name = "sec" -> FInv(i, FCos(i, u))
               [] name = "csc" -> FInv(i, FSin(i, u))
    ELSE FOpaque(i, name, Ev(a, i, k))

Ev(e, i, k) ==
    CASE e[1] = "q" -> FRat(i, e[2], e[3])
      [] e[1] = "v" -> IF e[2] \in EnvVars THEN Env[e[2]][i][k] ELSE UD
      [] e[1] = "+" -> FoldLeft(LAMBDA s, a : IF s < 0 THEN UD ELSE FAdd(i, s, Ev(a, i, k)), 0, e[2])
      [] e[1] = "*" -> FoldLeft(LAMBDA s, a : IF s < 0 THEN UD ELSE FMul(i, s, Ev(a, i, k)), 1, e[2])
      [] e[1] = "^" -> EvPow(e[2], e[3], i, k)
      [] e[1] = "f" -> EvFn(e[2], e[3], i, k)
      [] e[1] = "log" -> IF e[2][1] = "e" THEN EvLn(e[3], i, k)
                         ELSE LET v == EvLn(e[3], i, k) IN
                              IF v < 0 THEN UD ELSE FDiv(i, v, EvLn(e[2], i, k))
      [] e[1] = "e" -> FE(i)
      [] e[1] = "pi" -> PiTab[i][k]
      [] e[1] = "Q" -> LET d == FLimbs(i, e[4]) IN
                       IF d = 0 THEN UD ELSE FDiv(i, (e[2] * FLimbs(i, e[3])) % P(i), d)
      [] e[1] = "-" -> FSub(i, Ev(e[2], i, k), Ev(e[3], i, k))
      [] e[1] = "/" -> FDiv(i, Ev(e[2], i, k), Ev(e[3], i, k))
      [] e[1] = "D" -> EvD(e[2], e[3][2], i, k)
      [] OTHER -> UD

(* the value of the derivative of e with respect to the variable named x    *)
EvD(e, x, i, k) ==
    IF ~Occurs(x, e) THEN (IF Ev(e, i, k) < 0 THEN UD ELSE 0)
    ELSE
    CASE e[1] = "v" -> 1
      [] e[1] = "+" -> FoldLeft(LAMBDA s, a : IF s < 0 THEN UD ELSE FAdd(i, s, EvD(a, x, i, k)), 0, e[2])
      [] e[1] = "*" ->
            \* product rule, without division
            LET vals == [j \in 1..Len(e[2]) |-> Ev(e[2][j], i, k)]
                ders == [j \in 1..Len(e[2]) |-> EvD(e[2][j], x, i, k)]
                term(j) == FoldLeft(LAMBDA s, m : FMul(i, s, IF m = j THEN ders[m] ELSE vals[m]),
                                    1, [m \in 1..Len(e[2]) |-> m])
            IN FoldLeft(LAMBDA s, j : FAdd(i, s, term(j)), 0, [j \in 1..Len(e[2]) |-> j])
      [] e[1] = "^" ->
            LET c == CR(e[3]) IN
            IF c # <<>> /\ c[2] = 1
            THEN IF c[1] = 0 THEN (IF Ev(e, i, k) < 0 THEN UD ELSE 0)
                 ELSE FMul(i, FMul(i, c[1] % P(i), IF c[1] = 1 THEN (IF Ev(e[2], i, k) < 0 THEN UD ELSE 1)
                                                   ELSE FIPow(i, Ev(e[2], i, k), c[1] - 1)),
                           EvD(e[2], x, i, k))
            ELSE \* u^w (w' ln u + w u'/u)
                 LET v == Ev(e, i, k) IN
                 IF v < 0 THEN UD
                 ELSE LET s1 == IF Occurs(x, e[3]) THEN FMul(i, EvD(e[3], x, i, k), EvLn(e[2], i, k)) ELSE 0
                          s2 == IF Occurs(x, e[2])
                                THEN FMul(i, Ev(e[3], i, k), FDiv(i, EvD(e[2], x, i, k), Ev(e[2], i, k)))
                                ELSE 0
                      IN FMul(i, v, FAdd(i, s1, s2))
      [] e[1] = "f" ->
            LET u == e[3]
                du == EvD(u, x, i, k)
                uv == Ev(u, i, k)
                f(n) == EvFn(n, u, i, k)
                u2 == FMul(i, uv, uv)
                isq(w) == \* w^(-1/2)
                          IF Node[i].es = 0 \/ ~IsPos(i, w) THEN UD ELSE FInv(i, FPow(i, w, FRat(Node[i].es, 1, 2)))
            IN (CASE e[2] = "sin" -> FMul(i, f("cos"), du)
                 [] e[2] = "cos" -> FNeg(i, FMul(i, f("sin"), du))
                 [] e[2] = "tan" -> FMul(i, FAdd(i, 1, FMul(i, f("tan"), f("tan"))), du)
                 [] e[2] = "cot" -> FNeg(i, FMul(i, FAdd(i, 1, FMul(i, f("cot"), f("cot"))), du))
                 [] e[2] = "sec" -> FMul(i, FMul(i, f("sec"), f("tan")), du)
                 [] e[2] = "csc" -> FNeg(i, FMul(i, FMul(i, f("csc"), f("cot")), du))
                 [] e[2] = "arcsin" -> FMul(i, du, isq(FSub(i, 1, u2)))
                 [] e[2] = "arccos" -> FNeg(i, FMul(i, du, isq(FSub(i, 1, u2))))
                 [] e[2] = "arctan" -> FDiv(i, du, FAdd(i, 1, u2))
                 [] e[2] = "arccot" -> FNeg(i, FDiv(i, du, FAdd(i, 1, u2)))
                 [] e[2] = "arcsec" -> FMul(i, FDiv(i, du, u2), isq(FSub(i, 1, FInv(i, u2))))
                 [] e[2] = "arccsc" -> FNeg(i, FMul(i, FDiv(i, du, u2), isq(FSub(i, 1, FInv(i, u2))))))
      [] e[1] = "log" ->
            LET lb == IF e[2][1] = "e" THEN 1 ELSE EvLn(e[2], i, k)
            IN FDiv(i, EvD(e[3], x, i, k), FMul(i, Ev(e[3], i, k), lb))
      [] e[1] = "-" -> FSub(i, EvD(e[2], x, i, k), EvD(e[3], x, i, k))
      [] e[1] = "/" -> LET b == Ev(e[3], i, k) IN
            FDiv(i, FSub(i, FMul(i, EvD(e[2], x, i, k), b), FMul(i, Ev(e[2], i, k), EvD(e[3], x, i, k))),
                 FMul(i, b, b))
      [] OTHER -> UD

At(e, k) == Ev(e, Home[k], k)
Pts == 1..K
Val(e) == TLCEval([k \in Pts |-> At(e, k)])      \* the denotation used for comparisons

------------------------------------------------------------------------------
(* agreement of a result with what it should denote                         *)

\* the two values agree wherever both are defined
AgreeV(a, b) == \A k \in Pts : a[k] < 0 \/ b[k] < 0 \/ a[k] = b[k]
DefinedV(a) == \E k \in Pts : a[k] >= 0
CountV(a) == Cardinality({k \in Pts : a[k] >= 0})
Agree(a, b) == AgreeV(Val(a), Val(b))
DefinedSomewhere(e) == DefinedV(Val(e))

RECURSIVE RationalTree(_)
\* built from numbers, variables, + and * and small integer powers: no logarithms or roots,
\* so that it can only be undefined by a division by zero
RationalTree(e) ==
    CASE e[1] \in {"q", "v"} -> TRUE
      [] e[1] \in {"+", "*"} -> \A j \in 1..Len(e[2]) : RationalTree(e[2][j])
      [] e[1] \in {"-", "/"} -> RationalTree(e[2]) /\ RationalTree(e[3])
      [] e[1] = "^" -> RationalTree(e[2]) /\ IsInt(e[3]) /\ Abs(e[3][2]) <= 9
      [] e[1] = "f" -> e[2] \in {"sin", "cos"} /\ RationalTree(e[3])
      [] OTHER -> FALSE

\* verdicts: "ok", "vacuous" (no common defined point), or what is wrong
CompatG(expected, got, strict) ==
    IF expected = got THEN "ok"
    ELSE LET x == Val(expected)
             g == Val(got)
         IN IF got[1] = "U" /\ DefinedV(x) THEN "undefined-result"
            ELSE IF ~AgreeV(x, g) THEN "different-value"
            ELSE IF strict /\ \E k \in Pts : x[k] >= 0 /\ g[k] < 0 THEN "undefined-at-a-point"
            ELSE IF \E k \in Pts : x[k] >= 0 /\ g[k] >= 0 THEN "ok"
            ELSE IF CountV(x) >= 6 /\ ~DefinedV(g) /\ RationalTree(expected) THEN "undefined-value"
            ELSE "vacuous"
Compat(expected, got) == CompatG(expected, got, FALSE)
\* the same, and wherever the expected value is defined, so is the result: no transformation that
\* keeps the value by arithmetic alone may split a power or take a root of something negative
CompatS(expected, got) == CompatG(expected, got, TRUE)

\* a sub-term denotes an undefined value by the letter
RECURSIVE HasUndef(_)
HasUndef(e) == e[1] = "U" \/ \E i \in 1..Len(Args(e)) : HasUndef(Args(e)[i])
=============================================================================
