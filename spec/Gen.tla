--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Generation of sessions.  A behaviour of this module is a session of     *)
(* calls of the library's public operations: the state is the program so   *)
(* far; register j is the result of the j-th call.  TLC enumerates the     *)
(* sessions 1..N of one property: the first ones go exhaustively through   *)
(* all small terms of the property's vocabulary, the others are drawn by   *)
(* a pseudo-random choice function that is part of the specification, so   *)
(* that (property, seed, number) determines the session.                   *)
(***************************************************************************)
EXTENDS Macro, IOUtils, Json

Prop == IOEnv.PROP
N == atoi(IOEnv.N)
Seed == atoi(IOEnv.SEED)
NExh == atoi(IOEnv.NEXH)          \* how many of the sessions are taken from the exhaustive part
MaxDepth == atoi(IOEnv.DEPTH)

------------------------------------------------------------------------------
(* the choice function: Wichmann-Hill, split along the paths of a term      *)
Step(r) == <<(171 * r[1]) % 30269, (172 * r[2]) % 30307, (170 * r[3]) % 30323>>
Split(r, j) == Step(Step(<<((r[1] + 7919 * j) % 30268) + 1,
                           ((r[2] * 5 + r[3] + 104 * j) % 30306) + 1,
                           ((r[3] * 3 + r[1] + 31 * j) % 30322) + 1>>))
Draw(r, j, n) == LET s == Split(r, j) IN ((s[1] * 7 + s[2] * 11 + s[3] * 13) \div 8) % n
Pick(s, r, j) == s[Draw(r, j, Len(s)) + 1]
Root(k) == Split(Split(Split(<<(Seed % 30000) + 1, ((Seed \div 30000) % 30000) + 1, 4711>>, k % 9973), k \div 9973),
                 Len(Prop))

------------------------------------------------------------------------------
(* vocabularies                                                             *)
X == V("x")  Y == V("y")  Z == V("z")  A == V("a")  B == V("b")  Nv == V("n")
E1 == <<"e">>
Pi == <<"pi">>
Ln(t) == <<"log", E1, t>>
Half == Q(1, 2)
T == <<"T">>        \* placeholder: a generated term

Six == <<"sin", "cos", "tan", "sec", "csc", "cot">>
AllFns == Six \o <<"sin", "cos", "tan", "arcsin", "arccos", "arctan", "arcsec", "arccsc", "arccot", "ln", "ln", "exp", "sqrt", "log10", "log2", "logpi">>

Voc ==
 [gen  |-> [leaves |-> <<X, Y, Z, X, Y, X, Q(2,1), Q(3,1), MinusOne, Half, Q(0,1), One, Q(-2,3), E1, Pi, Nv>>,
            kinds |-> <<"+", "+", "+", "*", "*", "*", "-", "/", "^", "^", "f">>,
            exps |-> <<Q(2,1), MinusOne, Q(3,1), Half, Q(-2,1), Q(3,2), Nv, T, T>>, fns |-> AllFns, leaf |-> 15],
  raw  |-> [leaves |-> <<X, Y, Z, X, Y, X, Q(2,1), Q(3,1), MinusOne, Half, Q(0,1), One, One, Q(-2,3), E1, Pi, Nv>>,
            kinds |-> <<"+", "+", "+", "*", "*", "*", "^", "^", "f">>,
            exps |-> <<Q(2,1), MinusOne, Q(3,1), Half, Q(-2,1), Q(0,1), One, Nv, T, T>>, fns |-> AllFns, leaf |-> 15],
  num  |-> [leaves |-> <<Q(2,1), Q(3,1), MinusOne, Half, Q(0,1), One, Q(-2,3), Q(4,1), Q(6,1), Q(5,4), Q(-3,1), Q(9,1), Q(12,1), Q(8,27), E1, Pi, X>>,
            kinds |-> <<"+", "*", "-", "/", "^", "^">>,
            exps |-> <<Q(2,1), MinusOne, Q(3,1), Half, Q(-2,1), Q(3,2), Q(-1,2), Q(1,3), Q(-5,2), Q(4,1), T>>, fns |-> AllFns, leaf |-> 20],
  alg  |-> [leaves |-> <<X, Y, Z, X, Y, X, A, B, Q(2,1), Q(3,1), MinusOne, Half, One, Q(-2,3)>>,
            kinds |-> <<"+", "+", "+", "*", "*", "*", "-", "^", "^">>,
            exps |-> <<Q(2,1), Q(2,1), Q(3,1), Q(3,1), Q(4,1)>>, fns |-> <<"sin">>, leaf |-> 12],
  rat  |-> [leaves |-> <<X, Y, Z, X, Y, X, A, B, Q(2,1), Q(3,1), MinusOne, Half, One, Q(-2,3), Q(6,1), Q(4,1)>>,
            kinds |-> <<"+", "+", "+", "*", "*", "/", "/", "-", "^", "^", "f">>,
            exps |-> <<Q(2,1), MinusOne, Q(3,1), Q(-2,1), Q(-1,1), Half, Q(-1,2), Q(3,2), Nv, MinusOne>>, fns |-> <<"sin", "exp", "ln">>, leaf |-> 12],
  trig |-> [leaves |-> <<X, Y, X, Y, Z, Q(2,1), Q(3,1), MinusOne, A, One, Half>>,
            kinds |-> <<"+", "*", "*", "^", "f", "f", "f", "f", "-", "/">>,
            exps |-> <<Q(2,1), Q(2,1), Q(3,1), Q(4,1), MinusOne, Q(5,1), Q(-2,1), Half, Nv>>,
            fns |-> <<"sin", "cos", "sin", "cos", "sin", "cos", "tan", "sec", "csc", "cot">>, leaf |-> 12],
  expl |-> [leaves |-> <<X, Y, X, Y, Z, Q(2,1), Q(3,1), MinusOne, A, One, E1, Half>>,
            kinds |-> <<"+", "*", "^", "f", "f", "f", "f", "-", "/", "^", "*">>,
            exps |-> <<Q(2,1), Q(3,1), MinusOne, Half, Nv, A, T, T, T>>, fns |-> <<"exp", "exp", "ln", "ln", "exp", "ln", "sqrt", "sin", "log10", "log2">>, leaf |-> 12],
  undef |-> [leaves |-> <<X, Y, Undef, X, Q(2,1), MinusOne, Q(0,1), Q(0,1), One, Half, Pi>>,
            kinds |-> <<"+", "+", "*", "*", "-", "/", "^", "^">>,
            exps |-> <<Q(2,1), MinusOne, Q(0,1), Half, T, T, Undef, Nv, Q(-2,1), Q(-1,2), Q(-5,3)>>, fns |-> AllFns, leaf |-> 20],
  disp |-> [leaves |-> <<X, Y, Q(2,1), Q(3,1), MinusOne, Half, Q(2,3), Q(-3,2), Q(-2,1), E1, Pi, Z, Q(10,1), Undef, Q(0,1), One, Q(1234567,1), <<"Q", 1, <<6667, 0, 1, 6668, 1>>, <<2, 6669, 2, 3>>>>>>,
            kinds |-> <<"+", "+", "*", "*", "*", "-", "/", "/", "^", "^", "f">>,
            exps |-> <<Q(2,1), MinusOne, Q(3,1), Half, Q(-2,1), Q(3,2), Q(-1,2), Nv, T, T, T, Pi, E1>>,
            fns |-> AllFns \o <<"sin", "log10", "log2", "loghalf", "logneg", "logpi">>, leaf |-> 15],
  \* variables named like something else
  names |-> [leaves |-> <<X, V("sin"), V("ln"), V("log"), V("log2"), V("arccot"), V("e"), V("pi"), V("X"), V("x1"), V("undef"), V("logpi"), Q(2,1), Pi, E1>>,
            kinds |-> <<"+", "*", "^", "f", "f", "f">>,
            exps |-> <<Q(2,1), MinusOne, Half, T>>, fns |-> AllFns, leaf |-> 25],
  weird |-> [leaves |-> <<X, Y, Z, Undef, SumT(<<>>), ProdT(<<>>), Q(0,1), Q(0,1), One, MinusOne, E1, Pi, Nv, Half, Q(-7,3), Q(1000,1), Q(65536,1)>>,
            kinds |-> <<"+", "+", "+", "*", "*", "*", "^", "^", "^", "f", "f">>,
            exps |-> <<Q(2,1), MinusOne, Q(0,1), One, Half, Q(-3,2), T, T, T, Q(5,1)>>, fns |-> AllFns, leaf |-> 15]]

FnTerm(name, t) ==
    CASE name = "exp" -> PowT(E1, t)
      [] name = "ln" -> Ln(t)
      [] name = "sqrt" -> PowT(t, Half)
      [] name = "log10" -> <<"log", Q(10, 1), t>>
      [] name = "log2" -> <<"log", Q(2, 1), t>>
      [] name = "logpi" -> <<"log", Pi, t>>
      [] name = "loghalf" -> <<"log", Q(3, 2), t>>
      [] name = "logneg" -> <<"log", Q(-2, 1), t>>
      [] OTHER -> Fn(name, t)

CanQ(n, d) == LET g == GCD(Abs(n), d) IN Q(n \div g, d \div g)
\* now and then a number of the vocabulary is another one
Vary(x, r) == IF IsSmall(x) /\ Draw(r, 7, 6) = 0 THEN CanQ(Draw(r, 8, 27) - 13, 1 + Draw(r, 9, 6)) ELSE x
VaryExp(x, r) == IF IsSmall(x) /\ Draw(r, 7, 6) = 0
                 THEN (IF Draw(r, 8, 2) = 0 THEN Q(Draw(r, 9, 13) - 5, 1) ELSE CanQ(Draw(r, 9, 23) - 9, 2 + Draw(r, 11, 4)))
                 ELSE x
\* an argument, or a multiple of it
Multiple(f, t, r) == IF f \in {"sin", "cos", "tan", "sec", "csc", "cot", "exp"} /\ Draw(r, 12, 4) = 0
                     THEN LET c == CanQ(Draw(r, 13, 15) - 9, 1 + Draw(r, 14, 4)) IN
                          IF Draw(r, 15, 3) = 0 THEN ProdT(<<t, c>>) ELSE ProdT(<<c, t>>)
                     ELSE t

RECURSIVE Term(_, _, _)
Term(voc, d, r) ==
    IF d <= 0 \/ Draw(r, 1, 100) < voc.leaf THEN Vary(Pick(voc.leaves, r, 2), r)
    ELSE LET k == Pick(voc.kinds, r, 3)
             sub(j) == Term(voc, d - 1, Split(r, 10 + j))
         IN CASE k \in {"+", "*"} ->
                    <<k, [j \in 1..(IF Draw(r, 4, 4) = 0 THEN 3 ELSE 2) |-> sub(j)]>>
              [] k \in {"-", "/"} -> <<k, sub(1), sub(2)>>
              [] k = "^" -> LET x == Pick(voc.exps, r, 5) IN PowT(sub(1), IF x = T THEN sub(2) ELSE VaryExp(x, r))
              [] k = "f" -> LET f == Pick(voc.fns, r, 6) IN FnTerm(f, Multiple(f, sub(1), r))

\* literal trees of any shape: operands in any number and order, nested, repeated
RECURSIVE RawTerm(_, _, _)
RawTerm(voc, d, r) ==
    IF d <= 0 \/ Draw(r, 1, 100) < voc.leaf THEN Vary(Pick(voc.leaves, r, 2), r)
    ELSE LET k == Pick(voc.kinds, r, 3)
             sub(j) == RawTerm(voc, d - 1, Split(r, 10 + j))
         IN CASE k \in {"+", "*"} ->
                    LET n == <<2, 2, 3, 2, 3, 4, 1, 2>>[Draw(r, 4, 8) + 1] IN
                    \* now and then an operand is repeated, so that there is something to combine
                    <<k, [j \in 1..n |-> IF j > 1 /\ Draw(r, 30 + j, 4) = 0 THEN sub(1) ELSE sub(j)]>>
              [] k \in {"-", "/"} -> <<"+", <<sub(1), sub(2)>>>>
              [] k = "^" -> LET x == Pick(voc.exps, r, 5) IN PowT(sub(1), IF x = T THEN sub(2) ELSE VaryExp(x, r))
              [] k = "f" -> LET f == Pick(voc.fns, r, 6) IN FnTerm(f, Multiple(f, sub(1), r))

\* the same term with the operands of sums and products in another order
RECURSIVE Shuffle(_, _)
Shuffle(e, r) ==
    CASE e[1] \in {"+", "*"} ->
            LET s == [j \in 1..Len(e[2]) |-> Shuffle(e[2][j], Split(r, j))]
                n == Len(s)
                m == IF n = 0 THEN 0 ELSE Draw(r, 99, n)
                rot == SubSeq(s, m + 1, n) \o SubSeq(s, 1, m)
            IN <<e[1], IF Draw(r, 98, 2) = 0 THEN rot ELSE Reverse(rot)>>
      [] e[1] = "^" -> PowT(Shuffle(e[2], Split(r, 1)), Shuffle(e[3], Split(r, 2)))
      [] e[1] \in {"f", "log"} -> <<e[1], e[2], Shuffle(e[3], Split(r, 3))>>
      [] OTHER -> e

\* a polynomial in expanded form in the generalised variables vs with coefficients cs
MonoOf(vs, cs, r) ==
    ProdT(<<Pick(cs, r, 1)>> \o [j \in 1..Len(vs) |->
              LET d == <<0, 1, 1, 2, 3, 0, 1, 2, 4, 7, 12>>[Draw(r, 5 + j, 11) + 1] IN
              IF d = 0 THEN One ELSE IF d = 1 THEN vs[j] ELSE PowT(vs[j], Q(d, 1))])
PolyOf(vs, cs, r) == SumT([j \in 1..(1 + Draw(r, 1, 5)) |-> MonoOf(vs, cs, Split(r, 10 + j))])

------------------------------------------------------------------------------
(* the exhaustive part: all terms over small vocabularies                   *)
BinAll(S, R) == {<<"+", <<a, b>>>> : a \in S, b \in R} \cup {<<"*", <<a, b>>>> : a \in S, b \in R}
                \cup {PowT(a, b) : a \in S, b \in R}
FnAll(S, F) == {FnTerm(f, a) : f \in F, a \in S}
L0 == {X, Y, Q(2,1), MinusOne, Q(0,1), One, Half}
LTrig == {X, Y, Q(2,1), MinusOne}
LExp == {X, Y, Q(2,1), MinusOne, E1}
D1(u) == L0 \cup BinAll(L0, L0) \cup FnAll({X, Q(2,1), Q(0,1)}, {"sin", "exp", "ln"})
D2(u) == D1(u) \cup BinAll(D1(u), {X, Q(2,1), MinusOne, Half}) \cup BinAll({X, Q(2,1), MinusOne, Half}, D1(u))
\* arguments, functions of them, products and powers of those
TA == {X, Y, SumT(<<X, Y>>), ProdT(<<Q(2,1), X>>), ProdT(<<Q(3,1), X>>), ProdT(<<MinusOne, X>>), SumT(<<X, ProdT(<<MinusOne, Y>>)>>),
       ProdT(<<Half, X>>), SumT(<<ProdT(<<Q(2,1), X>>), Y>>), ProdT(<<Q(-2,1), X>>), Q(0,1), Q(2,1)}
TF(u) == FnAll(TA, {"sin", "cos"}) \cup FnAll({X, SumT(<<X, Y>>), ProdT(<<Q(2,1), X>>)}, {"tan", "sec", "csc", "cot"})
TP(u) == {PowT(f, n) : f \in FnAll({X, SumT(<<X, Y>>), ProdT(<<Q(2,1), X>>)}, {"sin", "cos"}), n \in {Q(2,1), Q(3,1), Q(4,1), Q(5,1), MinusOne, Q(-2,1)}}
TrigAll(u) == TF(u) \cup TP(u) \cup {ProdT(<<a, b>>) : a \in TF(u), b \in TF(u)} \cup {SumT(<<a, b>>) : a \in TP(u), b \in TP(u)}
           \cup {ProdT(<<a, b>>) : a \in TP(u), b \in FnAll({X, Y}, {"sin", "cos"})}
EA == {X, Y, SumT(<<X, Y>>), ProdT(<<X, Y>>), ProdT(<<Q(2,1), X>>), PowT(X, Q(2,1)), PowT(X, Y), ProdT(<<MinusOne, X>>), Q(2,1),
       SumT(<<X, Q(2,1)>>), Ln(X), PowT(E1, X), ProdT(<<Half, X>>), PowT(X, Half), ProdT(<<X, PowT(Y, MinusOne)>>),
       ProdT(<<X, SumT(<<X, Y>>)>>), PowT(SumT(<<X, Y>>), Q(2,1)), ProdT(<<Q(2,1), X, Y>>), One, E1}
EF(u) == FnAll(EA, {"exp", "ln"})
ExpAll(u) == EF(u) \cup {ProdT(<<a, b>>) : a \in EF(u), b \in EF(u)} \cup FnAll(EF(u), {"exp", "ln"})
          \cup {PowT(a, b) : a \in EF(u), b \in {Q(2,1), MinusOne, Half, X}} \cup {SumT(<<a, b>>) : a \in EF(u), b \in {X, PowT(E1, Y), Ln(Y)}}
LPoly == {X, Y, One, Q(2,1), MinusOne}
AlgAll(u) == LET s1 == LPoly \cup {<<"+", <<a, b>>>> : a \in LPoly, b \in LPoly} \cup {<<"*", <<a, b>>>> : a \in LPoly, b \in LPoly}
                    \cup {PowT(a, n) : a \in LPoly, n \in {Q(2,1), Q(3,1)}}
              s2 == {<<"+", <<a, b>>>> : a \in s1, b \in LPoly} \cup {<<"*", <<a, b>>>> : a \in s1, b \in s1}
                    \cup {PowT(a, n) : a \in s1, n \in {Q(2,1), Q(3,1), MinusOne, Half}}
          IN s1 \cup s2
RatL == {X, Y, Q(2,1), Half, MinusOne, One}
RatAll(u) == LET s1 == RatL \cup {<<"+", <<a, b>>>> : a \in {X, Y}, b \in RatL} \cup {<<"*", <<a, b>>>> : a \in {X, Y}, b \in RatL}
              s2 == s1 \cup {PowT(a, n) : a \in s1, n \in {MinusOne, Q(-2,1), Q(2,1), Half}}
          IN {<<"+", <<a, b>>>> : a \in s2, b \in s1} \cup {<<"*", <<a, b>>>> : a \in s2, b \in s1}
DerAll(u) == D2(u) \cup FnAll({X, SumT(<<X, Q(2,1)>>), ProdT(<<Q(2,1), X>>), PowT(X, Q(2,1)), PowT(X, Half)},
                        {"sin", "cos", "tan", "sec", "csc", "cot", "arcsin", "arccos", "arctan", "arcsec", "arccsc", "arccot", "exp", "ln", "sqrt"})
          \cup {<<"log", b, a>> : a \in {X, SumT(<<X, Q(2,1)>>)}, b \in {Q(2,1), Q(10,1)}}
UndefL == {X, Undef, Q(0,1), One, MinusOne, Half}
UndefAll(u) == LET s1 == UndefL \cup BinAll(UndefL, UndefL) IN s1 \cup BinAll(s1, UndefL) \cup BinAll(UndefL, s1)

ExhSet ==
    CASE Prop \in {"C04", "C10"} -> AlgAll(0)
      [] Prop \in {"C05", "C06"} -> RatAll(0) \cup D1(0)
      [] Prop = "C07" -> TrigAll(0)
      [] Prop = "C08" -> ExpAll(0)
      [] Prop = "C09" -> DerAll(0)
      [] Prop = "C13" -> UndefAll(0)
      [] Prop \in {"C16", "C15"} -> {X}
      [] OTHER -> D2(0)
Exh == SetToSeq(ExhSet)
NE == IF NExh < Len(Exh) THEN NExh ELSE Len(Exh)
\* when fewer than all are asked for, they are spread evenly, at an offset that depends on the seed
ExhTerm(k) == LET n == Len(Exh) IN
              IF NE = n THEN Exh[k] ELSE Exh[((((k - 1) * (n \div NE)) + Seed * 17) % n) + 1]

------------------------------------------------------------------------------
(* what a session of each property does                                     *)
Build(t) == <<"build", t>>
Lit(t) == <<"lit", t>>
Each(ops, j) == [i \in 1..Len(ops) |-> <<ops[i], j>>]

VocOf(prop, r) ==
    CASE prop \in {"C04", "C10"} -> Pick(<<Voc.alg, Voc.alg, Voc.rat>>, r, 90)
      [] prop \in {"C05"} -> Pick(<<Voc.rat, Voc.rat, Voc.gen, Voc.alg>>, r, 90)
      [] prop \in {"C06"} -> Pick(<<Voc.rat, Voc.gen, Voc.gen>>, r, 90)
      [] prop = "C07" -> Pick(<<Voc.trig, Voc.trig, Voc.trig, Voc.gen>>, r, 90)
      [] prop = "C08" -> Pick(<<Voc.expl, Voc.expl, Voc.expl, Voc.gen>>, r, 90)
      [] prop = "C09" -> Pick(<<Voc.gen, Voc.gen, Voc.trig, Voc.expl, Voc.rat>>, r, 90)
      [] prop = "C13" -> Voc.undef
      [] prop = "C14" -> Pick(<<Voc.disp, Voc.disp, Voc.gen, Voc.num, Voc.raw, Voc.trig>>, r, 90)
      [] prop \in {"C01"} -> Pick(<<Voc.gen, Voc.num, Voc.rat, Voc.gen>>, r, 90)
      [] prop \in {"C02", "C03"} -> Pick(<<Voc.gen, Voc.num, Voc.rat, Voc.raw, Voc.trig>>, r, 90)
      [] prop = "C19" -> Pick(<<Voc.gen, Voc.num, Voc.weird, Voc.undef, Voc.raw, Voc.trig, Voc.expl, Voc.names>>, r, 90)
      [] prop = "C12" -> Pick(<<Voc.gen, Voc.raw, Voc.rat, Voc.num, Voc.trig, Voc.expl, Voc.names, Voc.names>>, r, 90)
      [] prop \in {"C11", "C17"} -> Pick(<<Voc.gen, Voc.gen, Voc.rat, Voc.num, Voc.trig, Voc.expl, Voc.names>>, r, 90)
      [] OTHER -> Pick(<<Voc.gen, Voc.gen, Voc.rat, Voc.num, Voc.trig, Voc.expl>>, r, 90)
NoSub(voc) == [voc EXCEPT !.kinds = SelectSeq(voc.kinds, LAMBDA k : k \notin {"-", "/"})]

\* terms with large parameters: many operands (drawn from a small pool, so that what belongs together
\* stands far apart), high powers, large multiples, long products
Wide(voc, r) ==
    LET pool == TLCEval([j \in 1..3 |-> RawTerm(NoSub(voc), 1, Split(r, j))])
        n == 4 + Draw(r, 5, 5)
        num(j) == Pick(<<Q(2,1), MinusOne, Q(3,1), Half, Q(-2,1), One, Q(-1,3), Q(5,1)>>, r, 20 + j)
        t(j) == pool[Draw(r, 40 + j, 3) + 1]
        c(j) == Draw(r, 60 + j, 6)
    IN IF Draw(r, 6, 2) = 0
       THEN SumT([j \in 1..n |-> IF c(j) < 3 THEN t(j) ELSE IF c(j) < 5 THEN ProdT(<<num(j), t(j)>>) ELSE num(j)])
       ELSE ProdT([j \in 1..n |-> IF c(j) < 3 THEN t(j) ELSE IF c(j) < 5 THEN PowT(t(j), IF Draw(r, 80 + j, 5) = 0 THEN Nv ELSE num(j)) ELSE num(j)])
Lin(r, n) == SumT([j \in 1..n |-> LET v == Pick(<<X, Y, Z, A, One, Q(2,1), PowT(X, Q(2,1)), Fn("sin", X), ProdT(<<X, Y>>)>>, r, j) IN
                      IF Draw(r, 20 + j, 3) = 0 THEN ProdT(<<Pick(<<Q(2,1), MinusOne, Half, Q(3,1)>>, r, 30 + j), v>>) ELSE v])
BigPow(r) ==
    LET c == Draw(r, 1, 8) IN
    IF c < 3 THEN PowT(Lin(Split(r, 2), 2), Q(4 + Draw(r, 3, 6), 1))
    ELSE IF c = 3 THEN PowT(Lin(Split(r, 2), 3), Q(3 + Draw(r, 3, 2), 1))
    ELSE IF c = 4 THEN ProdT(<<Lin(Split(r, 2), 3), Lin(Split(r, 4), 2), Lin(Split(r, 5), 3)>>)
    ELSE IF c = 5 THEN ProdT(<<X, PowT(Lin(Split(r, 2), 2), Q(3,1)), Y, Lin(Split(r, 4), 2)>>)
    ELSE IF c = 6 THEN PowT(Lin(Split(r, 2), 2), Pick(<<Q(5,2), Q(7,2), Q(7,3), Q(5,3), Q(8,3), Q(11,4), Q(-3,1), Q(-4,1), Q(-5,3)>>, r, 3))
    ELSE PowT(ProdT(<<Lin(Split(r, 2), 2), X, PowT(Y, Q(2,1))>>), Q(2 + Draw(r, 3, 3), 1))
Angle(r) == Pick(<<X, Y, X, SumT(<<X, Y>>), ProdT(<<Q(2,1), X>>), SumT(<<X, ProdT(<<MinusOne, Y>>)>>), SumT(<<X, Y, Z>>), ProdT(<<Half, X>>), ProdT(<<Q(2,1), X, Y>>)>>, r, 7)
SC(r) == Fn(Pick(<<"sin", "cos">>, r, 8), Angle(r))
BigTrig(r) ==
    LET c == Draw(r, 1, 7) IN
    IF Draw(r, 14, 12) = 0
    THEN LET n == Pick(<<20, 33, 34, 50, 63, 64, 65, 99, 100, 126, 127, 128, 129, 130>>, r, 15)
             m == IF n > 50 THEN n - 49 ELSE n
             f == Pick(<<"sin", "cos">>, r, 2)
         IN Pick(<<PowT(Fn(f, X), Q(n + Pick(<<0, 0, 10>>, r, 19), 1)), Fn(f, ProdT(<<Q(n, 1), X>>)), Fn(f, ProdT(<<Q(-n, 1), X>>)),
                   Fn(f, SumT(<<ProdT(<<Q(m, 1), X>>), Y>>)),
                   ProdT(<<PowT(Fn(f, X), Q(n, 1)), Fn("sin", Pick(<<X, Y>>, r, 17))>>),
                   ProdT(<<PowT(Fn(f, X), Q(n, 1)), Fn("cos", Y), Fn("sin", Pick(<<X, Z>>, r, 17))>>)>>, r, 16)
    ELSE IF c < 2 THEN PowT(Fn(Pick(<<"sin", "cos">>, r, 2), Pick(<<X, X, ProdT(<<Q(2,1), X>>)>>, r, 4)), Q(5 + Draw(r, 3, 7), 1))
    ELSE IF c < 4 THEN Fn(Pick(<<"sin", "cos", "tan">>, r, 2), ProdT(<<Q(4 + Draw(r, 3, 5), 1), Pick(<<X, X, Y, ProdT(<<X, Y>>)>>, r, 4)>>))
    ELSE IF c = 4 THEN ProdT(<<SC(Split(r, 2)), SC(Split(r, 3)), SC(Split(r, 4)), A>>)
    ELSE IF c = 5 THEN ProdT(<<PowT(SC(Split(r, 2)), Q(2 + Draw(r, 5, 3), 1)), Pick(<<A, Q(3,1), Half>>, r, 6), PowT(SC(Split(r, 3)), Q(2 + Draw(r, 9, 2), 1))>>)
    ELSE Fn(Pick(<<"sin", "cos">>, r, 2), SumT(<<X, ProdT(<<Q(-3,1), Y>>), Z, ProdT(<<Q(2,1), A>>)>>))
BigExp(r) ==
    LET c == Draw(r, 1, 6)
        at(j) == Pick(<<X, Y, Z, A, PowT(X, Q(2,1)), Fn("sin", X), Ln(X)>>, r, 10 + j)
        n(j) == Pick(<<Q(2,1), Q(-3,1), Q(5,1), MinusOne, Half, Q(-1,2), Q(7,1)>>, r, 20 + j)
    IN IF c < 2 THEN FnTerm("exp", SumT([j \in 1..4 |-> ProdT(<<n(j), at(j)>>)]))
       ELSE IF c < 4 THEN Ln(ProdT([j \in 1..4 |-> PowT(at(j), n(j))]))
       ELSE IF c = 4 THEN Ln(PowT(ProdT(<<at(1), at(2), PowT(at(3), n(3))>>), n(1)))
       ELSE FnTerm("exp", ProdT(<<n(1), SumT(<<at(1), at(2), at(3)>>)>>))
BigFrac(r) ==
    LET d(j) == Pick(<<X, Y, SumT(<<X, One>>), SumT(<<X, Y>>), PowT(X, Q(2,1)), ProdT(<<X, Y>>), Q(2,1), ProdT(<<Q(3,1), X>>), SumT(<<X, Q(-1,1)>>)>>, r, 10 + j)
        nn(j) == Pick(<<One, X, Q(2,1), A, SumT(<<X, Y>>), MinusOne, ProdT(<<X, Y>>), PowT(X, Q(2,1))>>, r, 20 + j)
        fr(j) == ProdT(<<nn(j), PowT(d(j), Pick(<<MinusOne, MinusOne, Q(-2,1), MinusOne>>, r, 30 + j))>>)
    IN IF Draw(r, 1, 3) = 0 THEN PowT(SumT(<<fr(1), fr(2)>>), Pick(<<MinusOne, Q(2,1), Q(-2,1)>>, r, 2))
       ELSE IF Draw(r, 3, 3) = 0 THEN ProdT(<<SumT(<<fr(1), fr(2)>>), PowT(SumT(<<One, fr(3)>>), MinusOne)>>)
       ELSE IF Draw(r, 4, 2) = 0 THEN SumT([j \in 1..4 |-> ProdT(<<nn(j), nn(1), Pick(<<X, Y, Q(6,1), Q(4,1), A>>, r, 40 + j)>>)])
       ELSE SumT([j \in 1..(3 + Draw(r, 5, 2)) |-> fr(j)])
Stress(prop, voc, r) ==
    CASE prop \in {"C04", "C10"} -> BigPow(r)
      [] prop = "C05" -> BigFrac(r)
      [] prop = "C07" -> BigTrig(r)
      [] prop = "C08" -> BigExp(r)
      [] prop = "C18" -> Pick(<<BigFrac(r), ProdT(<<Lin(Split(r, 1), 2), Lin(Split(r, 2), 2)>>), PowT(Lin(Split(r, 1), 2), Q(3,1))>>, r, 93)
      [] OTHER -> LET c == Draw(r, 92, 10) IN
                  IF c < 5 THEN Wide(voc, r) ELSE IF c < 6 THEN BigPow(r) ELSE IF c < 7 THEN BigTrig(r) ELSE IF c < 8 THEN BigExp(r) ELSE IF c < 9 THEN BigFrac(r)
                  ELSE RawTerm(NoSub(voc), MaxDepth + 2, r)

\* the k-th session's first operand: one of the exhaustive part, or a random one
First(k, voc, r) ==
    IF k <= NE THEN Pick(<<Build(ExhTerm(k)), Lit(ExhTerm(k))>>, r, 80)
    ELSE IF Draw(r, 84, 5) = 0 THEN <<Pick(<<"build", "lit">>, r, 85), Stress(Prop, voc, Split(r, 86))>>
    ELSE IF Draw(r, 81, 3) = 0 THEN Lit(RawTerm(NoSub(voc), MaxDepth, Split(r, 82)))
    ELSE Build(Term(voc, MaxDepth, Split(r, 82)))
SmallLit(voc, r, j) == Lit(RawTerm(NoSub(voc), 1, Split(r, j)))
Another(voc, r, j) == IF Draw(r, j, 3) = 0 THEN Lit(RawTerm(NoSub(voc), MaxDepth - 1, Split(r, j + 1)))
                      ELSE Build(Term(voc, MaxDepth - 1, Split(r, j + 1)))

Arith == <<"add", "sub", "mul", "div", "pow">>
RawArith == <<"addraw", "mulraw", "divraw", "powraw">>
Transforms == <<"reduce", "expand", "expandmain", "distribute", "rationalize", "factorout", "cancel", "expandtrig",
                "contracttrig", "substtrig", "simptrig", "expandexp", "expandln", "sortargs", "flatten", "clone">>
Splits == <<"numden", "asdiv", "baseexp", "coeffterm", "bin", "sepsc">>
FnNames == <<"sin", "cos", "tan", "sec", "csc", "cot", "arcsin", "arccos", "arctan", "arcsec", "arccsc", "arccot", "ln", "log10", "exp", "sqrt">>

SmallPoly(r) ==
    LET v == Pick(<<X, Y, A, Fn("sin", X)>>, r, 1)
        w == Pick(<<X, Y, B, Pi>>, r, 2)
        c == Pick(<<One, Q(2,1), MinusOne, Half, A, Q(-3,1)>>, r, 3)
        n == Q(2 + Draw(r, 4, 2), 1)
    IN Pick(<<SumT(<<v, c>>), SumT(<<v, ProdT(<<c, w>>)>>), ProdT(<<c, v>>), ProdT(<<v, w, Q(3,1)>>), PowT(v, n), SumT(<<PowT(v, n), c>>), ProdT(<<v, SumT(<<w, c>>)>>),
              PowT(SumT(<<v, w>>), Q(2,1)), SumT(<<ProdT(<<c, v>>), PowT(v, Q(2,1))>>), c, SumT(<<v, w, c>>)>>, r, 5)
PolyVars(r) == Pick(<< <<X>>, <<X, Y>>, <<X>>, <<Y>>, <<X, Y, Z>>, <<Fn("sin", X)>>, <<X, Fn("sin", Y)>>, <<SumT(<<X, One>>)>>,
                       <<SumT(<<X, Y>>), Z>>, <<PowT(E1, X)>>, <<A, X>> >>, r, 40)
Coeffs == <<One, Q(2,1), MinusOne, Half, A, ProdT(<<A, B>>), Q(3,1), SumT(<<A, B>>), Pi, Q(-2,3), PowT(A, Q(2,1)), PowT(B, MinusOne), Q(0,1)>>

BigNums == <<Q(1,1), Q(2,1), Q(-1,1), Q(0,1), Q(1,2), Q(-3,2), Q(7,3), Q(6,1), Q(4,1), Q(-8,27), Q(100,7), Q(29999,2), Q(-1,29999),
             Q(123456789,1), Q(999999937,2), Q(-1000000007,3), Q(1073741823,1073741822), Q(1,1073741823),
             <<"Q", 1, <<0, 0, 0, 0, 1>>, <<1>>>>, <<"Q", -1, <<9999, 9999, 9999, 9999>>, <<7>>>>, <<"Q", 1, <<6667, 0, 1, 6668, 1>>, <<2, 6669, 2, 3>>>>,
             <<"Q", 1, <<5807, 5477, 368, 3372, 922>>, <<1>>>>, <<"Q", -1, <<5808, 5477, 368, 3372, 922>>, <<1>>>>,
             <<"Q", 1, <<1615, 955, 737, 6744, 1844>>, <<1>>>>, <<"Q", 1, <<0, 0, 30>>, <<1>>>>, <<"Q", 1, <<7295, 9496, 42>>, <<1>>>> >>
\* at the edge of 128 bits: 2^127-1, its negative, 10^38, 2^126, ratios of such
HugeNums == <<<<"Q", 1, <<5727, 8410, 7158, 7303, 3168, 2317, 469, 8346, 1411, 170>>, <<1>>>>, <<"Q", -1, <<5727, 8410, 7158, 7303, 3168, 2317, 469, 8346, 1411, 170>>, <<1>>>>,
              <<"Q", 1, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 100>>, <<1>>>>, <<"Q", 1, <<5864, 4205, 8579, 8651, 6584, 1158, 5235, 9173, 705, 85>>, <<1>>>>,
              <<"Q", -1, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 30>>, <<3>>>>, <<"Q", 1, <<7>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 10>>>>, <<"Q", 1, <<1, 0, 0, 0, 0, 1>>, <<3, 0, 0, 0, 0, 1>>>>,
              <<"Q", 1, <<3, 0, 0, 0, 0, 0, 0, 0, 0, 10>>, <<7, 0, 0, 0, 0, 0, 0, 0, 0, 9>>>>, <<"Q", 1, <<4, 0, 0, 0, 0, 0, 0, 0, 0, 10>>, <<7, 0, 0, 0, 0, 0, 0, 0, 0, 9>>>> >>
RatNum(r, j) == IF Draw(r, j, 3) > 0 THEN Q(Draw(r, j + 1, 61) - 30, 1 + Draw(r, j + 2, 12))
                ELSE IF Draw(r, j + 4, 3) = 0 THEN Pick(HugeNums, r, j + 3)
                ELSE Pick(BigNums \o <<Q(10,4), Q(-6,9), Q(3,-6), Q(-4,-2), Q(0,-5)>>, r, j + 3)
RealNum(r) == Pick(<<E1, Pi, E1, Pi, E1, Pi, <<"Q", 1, <<3555, 1900, 2797, 884>>, <<656, 7671, 4749, 281>>>>, <<"Q", 1, <<8073, 1486, 265, 6121>>, <<5248, 1368, 7998, 2251>>>>,
                     <<"Q", 1, <<3239, 8979, 6535, 1592, 314>>, <<0, 0, 0, 0, 100>>>>, <<"Q", 1, <<1309, 1476, 4571, 9570, 67>>, <<0, 0, 0, 0, 25>>>>,
                     <<"Q", 1, <<6619, 9489, 3267, 796, 157>>, <<0, 0, 0, 0, 50>>>>, <<"Q", 1, <<9047, 9180, 3656, 3656, 54>>, <<0, 0, 0, 0, 20>>>>, Q(22,7), Q(333,106), Q(355,113), Q(19,7), Q(87,32), Q(1457,536), Q(2721,1001), Q(3,1), Q(-3,1), Half,
                     LET n == 1 + Draw(r, 2, 900)  t == (n * 355) \div 113 + Draw(r, 3, 2) g == GCD(t, n) IN Q(t \div g, n \div g),
                     LET n == 1 + Draw(r, 2, 900)  t == (n * 1264) \div 465 + Draw(r, 3, 2) g == GCD(t, n) IN Q(t \div g, n \div g)>>, r, 1)
PowExp(r, j) == Pick(<<Q(2,1), Q(3,1), Q(-1,1), Q(-2,1), Q(-3,1), Half, Q(3,2), Q(-1,2), Q(-5,3), Q(1,3), Q(7,4), Q(0,1), One, Q(5,1), Q(-7,2),
                       Q(4,2), Q(9,3), Q(20,1), Q(-13,6), Q(27,1), Q(40,1), Q(-40,1), Q(127,1), Q(128,1), Q(-200,1), Q(61,2), Q(-127,3), Q(1000003,1), Q(20000001,2), Q(10,1), Q(6,1)>>, r, j)

------------------------------------------------------------------------------
(* source texts of the expr! macro                                          *)
MNames == <<"x", "y", "z", "x", "y", "a", "b", "n", "pi", "u", "e", "x1", "foo_bar", "undef", "t", "x", "Pi", "oo">>
MNums == <<<<"n", 0>>, <<"n", 1>>, <<"n", 2>>, <<"n", 3>>, <<"n", 4>>, <<"n", 5>>, <<"n", 7>>, <<"n", 10>>, <<"n", 12>>, <<"n", 100>>, <<"n", 2>>, <<"n", 1>>, <<"n", 3>>,
           <<"n", 255, "0xff">>, <<"n", 1000, "1_000">>, <<"n", 5, "0b101">>, <<"n", 7, "007">>, <<"N", <<0, 0, 1, 1>>, "1000100000000">>, <<"N", <<5807, 5477, 368, 3372, 922>>, "9223372036854775807">> >>
MFuns == <<"sin", "cos", "tan", "exp", "ln", "sqrt", "log10", "arc_tan", "arc_sin", "sec", "csc", "cot", "arc_cos", "arc_sec", "arc_csc", "arc_cot">>
MOps == <<"+", "-", "*", "/", "^", "+", "-", "*", "^", "^", "-">>
RECURSIVE Source(_, _)
RECURSIVE MPrim(_, _)
MPrim(d, r) ==
    LET c == Draw(r, 1, 10)
        sub(j) == Source(d - 1, Split(r, 20 + j))
    IN IF d <= 0 \/ c < 5 THEN (IF Draw(r, 2, 3) = 0 THEN <<Pick(MNums, r, 3)>> ELSE <<<<"i", Pick(MNames, r, 4)>>>>)
       ELSE IF c = 5 /\ Draw(r, 7, 3) = 0 THEN <<Op("("), Op("-")>> \o MPrim(d - 1, Split(r, 11)) \o <<Op(")")>>
       ELSE IF c < 8 THEN <<Op("(")>> \o sub(1) \o <<Op(")")>>
       ELSE IF c = 8 THEN <<<<"i", Pick(MFuns, r, 5)>>, Op("(")>> \o sub(2) \o <<Op(")")>>
       ELSE IF Draw(r, 8, 8) = 0 THEN <<<<"i", Pick(<<"pi", "e", "zero", "one", "two", "min_one", "min_two", "sin", "x">>, r, 6)>>, Op("("), Op(")")>>
       ELSE <<<<"i", Pick(<<"add", "sub", "mul", "div", "pow", "sin">>, r, 6)>>, Op("(")>> \o sub(3) \o <<Op(",")>> \o sub(4) \o
            (IF Draw(r, 7, 4) = 0 THEN <<Op(",")>> ELSE <<>>) \o <<Op(")")>>
MUn(d, r) == (IF Draw(r, 1, 5) = 0 THEN <<Op("-")>> ELSE <<>>) \o MPrim(d, Split(r, 2))
Source(d, r) ==
    LET n == <<0, 1, 1, 2, 2, 3, 4>>[Draw(r, 9, 7) + 1] IN
    FoldLeft(LAMBDA s, j : s \o <<Op(Pick(MOps, r, 30 + j))>> \o MUn(d, Split(r, 50 + j)), MUn(d, Split(r, 50)), [j \in 1..n |-> j])
\* a slip of the pen: one token dropped, doubled or replaced (brackets stay balanced)
Slip(s, r) ==
    LET js == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : s[j] \notin {Op("("), Op(")")})
        j == Pick(js, r, 1)
        c == Draw(r, 2, 4)
    IN IF c = 0 THEN RemoveAt(s, j) ELSE IF c = 1 THEN InsertAt(s, j, s[j])
       ELSE IF c = 2 THEN [s EXCEPT ![j] = Pick(<<Op("-"), Op("+"), Op("*"), Op("^"), <<"i", "x">>, <<"n", 2>>, Op(","), <<"l", "1.5">>, Op("?"), Op("%"), <<"l", "'a'">>, <<"l", "fn">>, Op("="), Op(";")>>, r, 3)]
       ELSE InsertAt(s, j, Pick(<<Op("-"), Op("-"), Op("/"), Op("?"), <<"l", "2.0">>, <<"l", "\"x\"">>, Op("!"), Op(";"), Op("->"), <<"i", "sin">>, <<"i", "y">>, <<"n", 3>>>>, r, 4))
MacroCall(j, r) ==
    LET s0 == Source(IF j % 3 = 0 THEN 3 ELSE 2, r)
        s == IF Draw(r, 8, 8) = 0 THEN Slip(s0, Split(r, 9)) ELSE s0
    IN <<"macro", s, ParseM(s)>>

Template(prop, k, r) ==
    LET voc == VocOf(prop, r)
        one == First(k, voc, r)
        two == Another(voc, r, 83)
        small(j) == SmallLit(voc, r, 100 + j)
    IN
    CASE prop = "C01" ->
            <<one, two, small(1), Build(Term(Voc.num, 1, Split(r, 60)))>>
            \o [j \in 1..5 |-> <<Arith[j], 1, 2>>] \o [j \in 1..5 |-> <<Arith[j], 1, 4>>] \o [j \in 1..5 |-> <<Arith[j], 3, 1>>]
            \o [j \in 1..4 |-> <<RawArith[j], 1, 2>>] \o [j \in 1..4 |-> <<RawArith[j], 3, 4>>]
            \o [j \in 1..4 |-> <<"opforms", IF j % 2 = 0 THEN 1 ELSE 3, 2, <<Arith[j]>>>>]
            \o <<<<"fn", 3, <<Pick(FnNames, r, 61)>>>>, <<"fn", 4, <<Pick(FnNames, r, 62)>>>>, <<"fn", 2, <<Pick(FnNames, r, 64)>>>>,
                 <<"logb", 3, Pick(<<Q(2,1), Q(10,1), Half, E1>>, r, 63)>>, <<"accum", 1, 2, 4>>, <<"accum", 3, 4, 3, 1, 4>>, <<"accum", 4, 3>>, <<"accum", 2>>,
                 Lit(Pick(<<Q(0,1), Undef, Q(0,1), ProdT(<<Q(0,1)>>), SumT(<<Undef>>), One>>, r, 65)), Lit(Pick(<<Q(0,1), Undef, X, ProdT(<<X, Undef>>), MinusOne>>, r, 66)),
                 <<"opforms", 40, 41, <<Arith[1 + Draw(r, 67, 4)]>>>>, <<"opforms", 40, 40, <<"div">>>>, <<"opforms", 40, 1, <<Arith[1 + Draw(r, 68, 4)]>>>>, <<"opforms", 4, 40, <<Arith[1 + Draw(r, 69, 4)]>>>> >>
            \o (IF k % 16 = 1 THEN <<<<"consts">>>> ELSE <<>>)
      [] prop \in {"C02", "C03"} ->
            <<one, Lit(RawTerm(NoSub(voc), MaxDepth, Split(r, 60))), small(1), small(2), small(3)>>
            \o <<<<"reduce", 1>>, <<"reduceidem", 1>>, <<"sortargs", 1>>, <<"flatten", 1>>, <<"reduce", 2>>, <<"reduceidem", 2>>, <<"sortargs", 2>>,
                 <<"flatten", 2>>, <<"reduce2", 3, 4, 5>>, <<"reduce2", 1, 3, 4>>, <<"reduce2", 6, 3, 1>>, <<"reduce2", 1, 10, 3>>, <<"sortargs", 6>>,
                 <<"mul", 6, 10>>, <<"reduceidem", 19>>, <<"add", 6, 10>>, <<"reduceidem", 21>>, <<"powraw", 6, 3>>, <<"reduceidem", 23>>,
                 <<"reducetop", 1>>, <<"reducetop", 2>>, <<"reducetop", 3>>, <<"reducetop", 23>>, <<"mulraw", 2, 3>>, <<"reducetop", 29>> >>
      [] prop = "C04" ->
            <<one, two, Build(PowT(SumT(<<Term(voc, 1, Split(r, 61)), Term(voc, 1, Split(r, 62))>>), Pick(<<Q(2,1), Q(3,1), Q(4,1), Half, Q(3,2), Q(-2,1), Q(5,2), Q(5,3), Q(8,3), Q(11,4), Q(2,1)>>, r, 63)))>>
            \o Each(<<"expand", "expandmain", "distribute">>, 1) \o Each(<<"expand", "expandmain", "distribute">>, 2)
            \o Each(<<"expand", "expandmain", "distribute">>, 3)
            \o <<<<"mul", 1, 3>>, <<"expand", 13>>, <<"expandmain", 13>>, <<"distribute", 13>>, <<"mulraw", 2, 3>>, <<"expand", 17>>, <<"distribute", 17>>,
                 <<"reduce", 1>>, <<"expand", 20>>, <<"powrec", 1>>, <<"powrec", 3>>,
                 Lit(PowT(ProdT(<<Term(NoSub(voc), 1, Split(r, 64)), Term(NoSub(voc), 1, Split(r, 65))>>), Pick(<<Q(2,1), Q(3,1), Half, Q(-2,1), MinusOne, Q(-3,2)>>, r, 66))), <<"powrec", 24>>, <<"expand", 24>>, <<"identity", 20, 21>>, <<"reduce", 2>>, <<"identity", 28, 20>>, <<"identity", 3, 28>> >>
      [] prop = "C05" ->
            <<one, two, <<"add", 1, 2>>, <<"mul", 1, 2>>, <<"div", 1, 2>>, <<"addraw", 1, 2>> >>
            \o Each(<<"rationalize", "factorout", "cancel">>, 1) \o Each(<<"rationalize", "factorout", "cancel">>, 3)
            \o Each(<<"rationalize", "factorout", "cancel">>, 4) \o Each(<<"rationalize", "factorout", "cancel">>, 5)
            \o Each(<<"rationalize", "factorout", "cancel">>, 6)
            \o <<<<"expand", 3>>, <<"factorout", 22>>, <<"reduce", 1>>, <<"cancel", 24>>, <<"rationalize", 24>>, <<"factorout", 7>> >>
            \o LET p(j) == Build(SmallPoly(Split(r, j))) IN
               <<p(60), p(61), p(62), <<"fracid", 28, 29, 30>>, <<"fracid", 30, 28, 29>>, <<"reduce", 2>>, <<"fracid", 24, 29, 30>>, <<"fracid", 29, 33, 30>>,
                 <<"mul", 28, 30>>, <<"mul", 29, 30>>, <<"div", 36, 37>>, <<"cancel", 38>>, <<"expand", 36>>, <<"expand", 37>>, <<"div", 40, 41>>, <<"cancel", 42>>, <<"rationalize", 42>> >>
      [] prop = "C06" ->
            <<one, two, Lit(Pick(<<X, Y, X, Fn("sin", X), SumT(<<X, Y>>), Pi, E1, Pick(SelectSeq(IF one[1] = "lit" THEN SubTerms(one[2]) ELSE <<X>>, LAMBDA t : t[1] \in {"v", "f", "log", "e", "pi"}) \o <<Pi>>, r, 57)>>, r, 60)), <<"mul", 1, 2>>, <<"add", 1, 2>> >>
            \o Each(Splits, 1) \o Each(Splits, 4) \o Each(Splits, 5)
            \o <<<<"sepfac", 1, 3>>, <<"sepfac", 4, 3>>, <<"fct", 1, 2>>, <<"fct", 2, 1>>, <<"fct", 4, 1>>, <<"fct", 5, 4>>, <<"reduce", 1>>, <<"fct", 30, 1>>, <<"fct", 4, 30>> >>
            \o Each(Splits, 30)
      [] prop = "C07" ->
            LET ops == <<"expandtrig", "contracttrig", "substtrig", "simptrig">> IN
            <<one, two, <<"reduce", 1>>, <<"mul", 1, 2>>, <<"add", 1, 2>> >> \o Each(ops, 1) \o Each(ops, 3) \o Each(ops, 4) \o Each(ops, 5)
            \o <<<<"contracttrig", 6>>, <<"expandtrig", 7>>, <<"simptrig", 6>>, <<"simptrig", 7>>, <<"contracttrig", 18>>, <<"expandtrig", 19>>, <<"reduce", 2>>, <<"trigid", 3, 28>> >>
      [] prop = "C08" ->
            LET ops == <<"expandexp", "expandln">> IN
            <<one, two, <<"reduce", 1>>, <<"mul", 1, 2>>, <<"add", 1, 2>>, <<"pow", 1, 2>>, <<"fn", 1, <<"ln">>>>, <<"fn", 1, <<"exp">>>>, <<"fn", 4, <<"ln">>>>, <<"fn", 5, <<"exp">>>> >>
            \o Each(ops, 1) \o Each(ops, 3) \o Each(ops, 4) \o Each(ops, 5) \o Each(ops, 6) \o Each(ops, 7) \o Each(ops, 8) \o Each(ops, 9) \o Each(ops, 10)
            \o <<<<"expandln", 11>>, <<"expandexp", 12>>, <<"expandln", 23>> >>
            \o <<<<"logb", 1, Pick(<<Q(10,1), Q(2,1), Pi, Half>>, r, 70)>>, <<"expandln", 34>>, <<"logb", 4, Pick(<<Q(10,1), Q(3,1)>>, r, 71)>>, <<"expandln", 36>> >>
      [] prop = "C09" ->
            <<one, Lit(X), Lit(Y), Another(voc, r, 83), <<"mul", 1, 4>>, <<"div", 1, 4>>, <<"deriv", 1, 2>>, <<"deriv", 1, 3>>, <<"deriv", 4, 2>>, <<"deriv", 5, 2>>,
              <<"deriv", 6, 2>>, <<"deriv", 7, 2>>, <<"deriv", 7, 3>>, <<"pow", 1, 4>>, <<"deriv", 14, 2>>, <<"reduce", 1>>, <<"deriv", 16, 2>>,
              <<"fn", 1, <<Pick(FnNames, r, 60)>>>>, <<"deriv", 18, 2>>, <<"fn", 4, <<Pick(FnNames, r, 61)>>>>, <<"deriv", 20, 2>>, <<"logb", 4, Pick(<<Q(2,1), Q(10,1), E1>>, r, 62)>>,
              <<"deriv", 22, 2>>, <<"derivf", 18, 2>>, <<"derivf", 20, 2>>, <<"derivf", 22, 2>>, <<"derivf", 1, 2>>,
              Lit(Pick(SelectSeq(IF one[1] = "lit" THEN SubTerms(one[2]) ELSE <<X>>, LAMBDA t : t[1] = "f") \o <<Fn("sin", X), Fn("cos", X)>>, r, 63)), <<"deriv", 1, 28>>, <<"deriv", 6, 28>>, <<"deriv", 14, 28>>,
              <<"mul", 1, 28>>, <<"pow", 28, 1>>, <<"deriv", 32, 28>>, <<"deriv", 33, 28>>, <<"fn", 28, <<Pick(FnNames, r, 64)>>>>, <<"deriv", 36, 28>> >>
      [] prop = "C10" ->
            LET vs == PolyVars(r)
                p1 == PolyOf(vs, Coeffs, Split(r, 60))
                m1 == MonoOf(vs, Coeffs, Split(r, 61))
                regs == [j \in 1..Len(vs) |-> j]
                q == Len(vs)
                use(op, j) == <<op, j>> \o regs
                bad == Pick(<<Fn("sin", X), PowT(X, MinusOne), PowT(X, Half), ProdT(<<SumT(<<X, Y>>), X>>), PowT(SumT(<<X, Y>>), Q(2,1)), PowT(A, X),
                              PowT(ProdT(<<Q(2,1), X>>), Q(2,1)), PowT(ProdT(<<A, X, Y>>), Q(3,1)), PowT(PowT(X, Q(2,1)), Q(3,1)), ProdT(<<X, PowT(ProdT(<<Half, PowT(X, Q(2,1))>>), Q(2,1))>>),
                              PowT(ProdT(<<B, vs[1]>>), Q(2,1)), PowT(ProdT(<<vs[1], vs[1]>>), Q(2,1)), PowT(m1, Q(2,1)), PowT(m1, Q(3,1)),
                              PowT(ProdT(<<PowT(vs[1], Q(2,1)), vs[q], A>>), Q(3,1)), PowT(ProdT(<<Q(3,1), PowT(ProdT(<<vs[1], vs[q]>>), Q(2,1)), PowT(vs[q], Q(3,1))>>), Q(2,1))>>, r, 63)
            IN [j \in 1..q |-> Lit(vs[j])]
               \o <<Build(p1), Lit(p1), Build(m1), Lit(m1), one, Build(SumT(<<p1, bad>>)), two>>
               \o <<use("poly", q + 1), use("poly", q + 2), use("mono", q + 3), use("mono", q + 4), use("poly", q + 5), use("mono", q + 5), use("poly", q + 6), use("mono", q + 6),
                    <<"reduce", q + 1>>, use("poly", q + 16), <<"expand", q + 5>>, use("poly", q + 18), use("mono", q + 1), use("poly", q + 3), <<"expand", q + 7>>, use("poly", q + 22),
                    Lit(bad), use("mono", q + 24), Lit(ProdT(<<bad, m1>>)), use("mono", q + 26), use("poly", q + 26), Lit(SumT(<<p1, bad, m1>>)), use("poly", q + 29) >>
               \o LET deg(j, i) == <<0, 1, 1, 2, 3, 5>>[Draw(Split(r, 300 + j), i, 6) + 1]
                      pairs(j) == [i \in 1..Draw(r, 310 + j, 5) |-> <<1 + Draw(Split(r, 320 + j), i, q), 1 + Draw(Split(r, 330 + j), i, 4)>>]
                      same == Reverse(pairs(1))
                  IN <<<<"varpow", pairs(1), IF Draw(r, 340, 3) = 0 THEN same ELSE pairs(2)>> \o regs,
                       Lit(Pick(Coeffs, r, 341)), Lit(Pick(Coeffs, r, 342)), Lit(Pick(Coeffs, r, 343)),
                       <<"gpe", <<q>>, [j \in 1..4 |-> [i \in 1..q |-> deg(j, i)]]>> \o regs \o <<q + 32, q + 33, q + 34, q + 32>>,
                       <<"gpe", <<q>>, <<[i \in 1..q |-> deg(5, i)], [i \in 1..q |-> deg(5, i)], [i \in 1..q |-> deg(6, i)]>>>> \o regs \o <<q + 32, q + 33, q + 34>> >>
      [] prop = "C11" ->
            LET sub == IF one[1] = "lit" THEN SubTerms(one[2]) ELSE <<X, Y>> IN
            <<one, Lit(Pick(<<X, Y, X>>, r, 60)), two, Lit(Pick(sub, r, 61)), small(1), Lit(Pick(sub, r, 62)), Lit(Y)>>
            \o <<<<"subst", 1, 2, 3>>, <<"subst", 1, 4, 5>>, <<"subst", 1, 4, 2>>, <<"seqsubst", 1, 2, 7, 7, 2>>, <<"seqsubst", 1, 4, 5, 2, 3>>, <<"csubst", 1, 2, 7, 7, 2>>,
                 <<"csubst", 1, 4, 5>>, <<"csubst", 1, 2, 5, 7, 3, 6, 5>>, <<"csubst", 1, 6, 5, 2, 7>>, <<"freeof", 1, 2, 7>>, <<"freeof", 1, 4, 2>>, <<"freeof", 3, 6, 4>>,
                 <<"vars", 1>>, <<"vars", 3>>, <<"subs", 1>>, <<"subs", 3>>, <<"preds", 1>>, <<"preds", 3>>, <<"preds", 4>>, <<"preds", 5>>, <<"preds", 2>>, <<"seqsubst", 1, 2, 3>>,
                 <<"freeof", 1, 5>>, <<"build", Term(Voc.num, 1, Split(r, 66))>>, <<"preds", 31>>,
                 Lit(CanQ(Draw(r, 67, 41) - 20, 1 + Draw(r, 68, 3))), <<"preds", 33>>, Lit(Pick(<<<<"log", Two, X>>, <<"log", Q(10,1), X>>, Ln(Y), <<"log", Pi, X>>, SumT(<<>>), ProdT(<<>>), SumT(<<Q(0,1)>>), ProdT(<<One>>), ProdT(<<X>>), SumT(<<Undef, X>>),
                        ProdT(<<Undef, X>>), ProdT(<<Q(0,1), X>>), ProdT(<<Pi, X, Two, Y>>), ProdT(<<E1, Two, X>>), ProdT(<<Two, Pi>>), E1, Pi, Undef, Pick(BigNums, r, 72), Pick(HugeNums, r, 73)>>, r, 71)), <<"preds", 35>> >>
      [] prop = "C12" ->
            LET t == IF one[1] = "lit" THEN one[2] ELSE RawTerm(NoSub(voc), 2, Split(r, 59)) IN
            <<one, two>> \o [j \in 1..7 |-> SmallLit(Pick(<<voc, voc, Voc.raw, Voc.num>>, r, 120 + j), r, 60 + j)]
            \o <<Lit(t), Lit(Shuffle(t, r)), Lit(Pick(<<PowT(t, Q(2,1)), PowT(t, MinusOne), ProdT(<<t, t>>), SumT(<<t, One>>), ProdT(<<Q(2,1), t>>), Fn("sin", t)>>, r, 58)),
                 Lit(CanQ(Draw(r, 57, 41) - 20, 1 + Draw(r, 56, 9))), Lit(Pick(BigNums, r, 55)), <<"sortargs", 10>>, <<"reduce", 10>> >>
            \o <<<<"cmpm", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>, <<"cmp", 10, 11>>, <<"cmp", 1, 2>>, <<"cmp", 10, 15>>, <<"cmp", 10, 12>>, <<"sortargs", 12>> >>
            \o [j \in 1..4 |-> <<"real", RealNum(Split(r, 90 + j)), RealNum(Split(r, 95 + j))>>]
      [] prop = "C13" ->
            <<one, two, Lit(Undef), Lit(X), Lit(Q(0,1)), Lit(RawTerm(NoSub(voc), MaxDepth, Split(r, 60)))>>
            \o [j \in 1..5 |-> <<Arith[j], 1, 2>>] \o [j \in 1..5 |-> <<Arith[j], 1, 3>>] \o [j \in 1..5 |-> <<Arith[j], 3, 2>>] \o [j \in 1..5 |-> <<Arith[j], 2, 5>>]
            \o <<<<"reduce", 1>>, <<"reduce", 2>>, <<"reduce", 6>>, <<"subst", 1, 4, 3>>, <<"reduce", 30>>, <<"subst", 6, 4, 3>>, <<"reduce", 32>>, <<"expand", 6>>, <<"deriv", 3, 4>>,
                 Lit(Pick(<<Q(-1,2), Q(-3,1), Q(-7,3), Q(0,1), Q(-1,1), Half, Undef>>, r, 62)), <<"sub", 1, 1>>, <<"pow", 5, 36>>, <<"pow", 37, 36>>, <<"powraw", 37, 36>>, <<"reduce", 40>>,
                 <<"div", 4, 37>>, <<"div", 37, 37>> >>
      [] prop = "C14" -> <<one, two, small(1), <<"mul", 1, 2>>, <<"div", 1, 3>>, <<"pow", 3, 1>>, <<"sub", 3, 1>>, <<"add", 1, 3>>, <<"mul", 3, 1>>, <<"reduce", 1>>, <<"expand", 1>>,
                           <<"mulraw", 1, 3>>, <<"addraw", 1, 3>>, <<"powraw", 1, 3>> >> \o [j \in 1..14 |-> <<"disp", j>>]
      [] prop = "C15" -> [j \in 1..4 |-> MacroCall(j, Split(r, 200 + j))]
      [] prop = "C16" -> LET q(j) == RatNum(Split(r, j), 1) IN
                         <<Lit(X)>> \o [j \in 1..12 |-> <<"rat", q(2 * j), q(2 * j + 1)>>]
                         \o [j \in 1..4 |-> <<"ratpow", Pick(SelectSeq(BigNums, LAMBDA q2 : q2[2] # 0) \o HugeNums \o <<Q(2,1), Q(-2,1), Q(1,1), Q(-1,1), Half, Q(10,1)>>, r, 160 + j), PowExp(r, 170 + j)>>]
                         \o [j \in 1..3 |-> <<"ratpow", Pick(<<One, MinusOne, MinusOne, Two, Q(-2,1), Half>>, r, 190 + j), Pick(<<Q(65536,1), Q(65537,1), Q(-65535,1), Q(131073,2), Q(1000003,3), Q(2147483647,1), Q(-2000000001,1), Q(255,1), Q(-256,1), Q(257,1)>>, r, 194 + j)>>]
                         \o [j \in 1..2 |-> <<"real", RealNum(Split(r, 80 + j)), RealNum(Split(r, 85 + j))>>]
                         \o [j \in 1..2 |-> <<"binom", <<Draw(r, 180 + j, 31)>>, <<Draw(r, 182 + j, 31)>>>>]
                         \o [j \in 1..6 |-> LET e == PowExp(r, 60 + j)
                                               n == Draw(r, 40 + j, 25) - (IF j > 3 THEN 0 ELSE 12)
                                           IN <<"ratpow", Q(IF n = 0 /\ e[2] <= 0 THEN 3 ELSE n, 1 + Draw(r, 50 + j, 6)), e>>]
      [] prop = "C17" -> <<one, two, <<"serde", 1>>, <<"serde", 2>>, <<"clone", 1>>, <<"mul", 1, 2>>, <<"serde", 6>>, <<"clone", 6>>, Lit(Pick(BigNums, r, 60)), <<"serde", 9>>, <<"add", 9, 1>>, <<"serde", 11>>,
                           <<"mutate", 1, 2, <<Draw(r, 61, 5)>>>>, <<"mutate", 6, 1, <<Draw(r, 62, 5)>>>>, <<"mutate", 2, 13, <<Draw(r, 63, 5)>>>> >>
      [] prop = "C18" -> <<one, two, <<"simplify", 1>>, <<"simplify", 2>>, <<"add", 1, 2>>, <<"simplify", 5>> >>
      [] OTHER -> <<one, two, small(1), Lit(X)>>

\* history: a random continuation over all registers so far
HistOps(prop) ==
    CASE prop = "C01" -> Arith \o Arith \o RawArith
      [] prop \in {"C02", "C03"} -> Arith \o <<"reduce", "reduceidem", "sortargs", "expand", "reduceidem", "mulraw", "addraw", "powraw">>
      [] prop = "C13" -> Arith \o Arith \o <<"reduce", "expand", "mulraw", "addraw", "powraw">>
      [] prop \in {"C17"} -> Arith \o Transforms \o <<"deriv", "subst", "serde", "serde", "clone", "poly", "fct", "seqsubst", "addraw", "mulraw", "mutate", "mutate">>
      [] prop \in {"C19"} -> Arith \o RawArith \o Transforms \o Splits \o Transforms
                             \o <<"deriv", "subst", "fct", "sepfac", "freeof", "vars", "subs", "preds", "cmp", "poly", "mono", "disp", "serde", "reduceidem", "reduce2", "fn", "fn", "accum", "powrec", "reducetop", "mutate", "derivf">>
      [] OTHER -> <<>>
HistLen(prop) == IF HistOps(prop) = <<>> THEN 0 ELSE IF prop \in {"C19"} THEN 24 ELSE IF prop = "C17" THEN 16 ELSE 8

HistCall(prop, prog, r) ==
    LET op == Pick(HistOps(prop), r, 1)
        n == Len(prog)
        \* prefer recent registers
        reg(j) == IF Draw(r, 10 + j, 2) = 0 THEN 1 + Draw(r, 20 + j, n) ELSE n - Draw(r, 30 + j, IF n < 6 THEN n ELSE 6)
        atm(j) == IF prop = "C19" THEN 4 ELSE reg(j)
    IN CASE op \in {"add", "sub", "mul", "div", "pow", "addraw", "mulraw", "divraw", "powraw", "fct", "freeof", "cmp", "poly", "mono", "sepfac"} -> <<op, reg(1), reg(2)>>
         [] op \in {"deriv", "derivf"} -> <<op, reg(1), atm(2)>>
         [] op = "accum" -> <<op, reg(1), reg(2), reg(3)>>
         [] op = "mutate" -> <<op, reg(1), reg(2), <<Draw(r, 3, 4)>>>>
         [] op = "subst" -> <<op, reg(1), reg(2), reg(3)>>
         [] op = "reduce2" -> <<op, reg(1), reg(2), reg(3)>>
         [] op = "seqsubst" -> <<op, reg(1), reg(2), reg(3)>>
         [] op = "fn" -> <<op, reg(1), <<Pick(FnNames, r, 2)>>>>
         [] OTHER -> <<op, reg(1)>>

------------------------------------------------------------------------------
VARIABLES sid, prog, done
vars == <<sid, prog, done>>

Init == sid \in 1..N /\ done = FALSE /\ prog = Template(Prop, sid, Root(sid))
TLen == Len(Template(Prop, sid, Root(sid)))
Extend ==
    /\ ~done
    /\ HistLen(Prop) > 0 /\ Len(prog) < HistLen(Prop) + TLen
    /\ prog' = Append(prog, HistCall(Prop, prog, Split(Root(sid), 500 + Len(prog))))
    /\ UNCHANGED <<sid, done>>
Emit ==
    /\ ~done
    /\ Len(prog) = HistLen(Prop) + TLen
    /\ PrintT(ToJson([id |-> sid, p |-> prog]))
    /\ done' = TRUE
    /\ UNCHANGED <<sid, prog>>
Next == Extend \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
