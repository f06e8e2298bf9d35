------------------------------ MODULE FieldsLaws ------------------------------
(***************************************************************************)
(* The oracle, checked: the tables and operators of Fields.tla satisfy the *)
(* laws that make a comparison of values sound (a true identity is never   *)
(* refuted), and the sample points tell false identities apart (a false    *)
(* one is refuted).                                                        *)
(*                                                                         *)
(* The states are the elements of the structures of the tower: node i,     *)
(* kind "field" (all elements), "pos" (the positive subgroup, by exponent) *)
(* or "circle" (all angles); and the entries of the lists of identities.   *)
(* TLC goes through all of them; the laws are invariants.                  *)
(***************************************************************************)
EXTENDS Shapes, IOUtils

VARIABLES kind, i, a
vars == <<kind, i, a>>

HasPow(n) == Node[n].q # 0 /\ Node[n].es # 0
HasCircle(n) == Node[n].ts # 0
Q0(n) == Node[n].q

\* second operands: everything in small structures, a spread sample in big ones
Spread(n, m) == IF m <= 64 THEN 0..(m - 1) ELSE {0, 1, 2, 3, m - 1, m - 2, m \div 2, m \div 3, (n * 7919) % m, (n * 31337) % m, (n * 31 + 17) % m}

FieldLaws ==
    kind = "field" =>
        /\ FAdd(i, a, FNeg(i, a)) = 0
        /\ FSub(i, a, a) = 0
        /\ IF a = 0 THEN FInv(i, a) = UD ELSE FMul(i, a, FInv(i, a)) = 1
        /\ FIPow(i, a, 3) = FMul(i, a, FMul(i, a, a))
        /\ (a # 0 => /\ FIPow(i, a, -2) = FInv(i, FMul(i, a, a))
                     /\ FMul(i, FIPow(i, a, 5), FIPow(i, a, -3)) = FIPow(i, a, 2)
                     /\ FIPow(i, a, 0) = 1)
        /\ FRat(i, a, 1) = a
        /\ (a # 0 => FMul(i, FRat(i, 7, a), a) = 7 % P(i))
        /\ FMul(i, UD, a) = UD /\ FAdd(i, a, UD) = UD /\ FDiv(i, UD, a) = UD
        /\ FOpaque(i, "arcsin", FNeg(i, a)) = FNeg(i, FOpaque(i, "arcsin", a))
        /\ FOpaque(i, "arctan", FNeg(i, a)) = FNeg(i, FOpaque(i, "arctan", a))
        /\ (a # 0 => FOpaque(i, "arccsc", FNeg(i, a)) = FNeg(i, FOpaque(i, "arccsc", a)))
        /\ \A b \in Spread(a, P(i)) :
              /\ FSub(i, FAdd(i, a, b), b) = a
              /\ (b # 0 => FMul(i, FDiv(i, a, b), b) = a)
              /\ FMul(i, FAdd(i, a, b), FSub(i, a, b)) = FSub(i, FMul(i, a, a), FMul(i, b, b))

\* x = g^a; exponents b, c in the field with q elements
PosLaws ==
    kind = "pos" =>
        LET x == Node[i].exp[a + 1]
            s == Node[i].es
        IN /\ IsPos(i, x) /\ LogAt(i, x) = a
           /\ FMul(i, x, FE(i)) = Node[i].exp[((a + 1) % Q0(i)) + 1]
           /\ (s # 0 => /\ P(s) = Q0(i)
                        /\ Node[s].ep = i \/ \E n \in 1..NNodes : n # i /\ Node[n].es = s /\ Node[s].ep = n
                        /\ FPow(i, FE(i), LogAt(i, x)) = x
                        /\ \A n \in {-7, -3, -2, -1, 0, 1, 2, 3, 5, 8} : FPow(i, x, n % Q0(i)) = FIPow(i, x, n)
                        /\ (LET h == FPow(i, x, FRat(s, 1, 2)) IN FMul(i, h, h) = x)
                        /\ \A b \in Spread(a, Q0(i)) :
                              /\ LogAt(i, FPow(i, x, b)) = FMul(s, a, b)
                              /\ (LET y == Node[i].exp[b + 1] IN
                                    /\ LogAt(i, FMul(i, x, y)) = FAdd(s, a, b)
                                    /\ \A c \in Spread(b, Q0(i)) : FPow(i, FMul(i, x, y), c) = FMul(i, FPow(i, x, c), FPow(i, y, c)))
                              /\ \A c \in Spread(b + 5, Q0(i)) :
                                    /\ FMul(i, FPow(i, x, b), FPow(i, x, c)) = FPow(i, x, FAdd(s, b, c))
                                    /\ FPow(i, FPow(i, x, b), c) = FPow(i, x, FMul(s, b, c)))

CircleLaws ==
    kind = "circle" =>
        LET t == Node[i].ts
            co(u) == FCos(i, u)
            si(u) == FSin(i, u)
        IN /\ P(t) = Node[i].r
           /\ FAdd(i, FMul(i, co(a), co(a)), FMul(i, si(a), si(a))) = 1
           /\ si(FNeg(t, a)) = FNeg(i, si(a)) /\ co(FNeg(t, a)) = co(a)
           /\ (a # 0 => si(a) # 0) /\ co(a) # 0
           /\ \A b \in 0..(P(t) - 1) :
                 /\ si(FAdd(t, a, b)) = FAdd(i, FMul(i, si(a), co(b)), FMul(i, co(a), si(b)))
                 /\ co(FAdd(t, a, b)) = FSub(i, FMul(i, co(a), co(b)), FMul(i, si(a), si(b)))

------------------------------------------------------------------------------
(* identities of terms: what must be accepted and what must be refuted      *)
X == V("x")  Y == V("y")  Z == V("z")  N == V("n")
E1 == <<"e">>
Pi == <<"pi">>
Half == Q(1, 2)
S(u) == Fn("sin", u)
C(u) == Fn("cos", u)
Ln(u) == <<"log", E1, u>>
Add2(u, v) == SumT(<<u, v>>)
Mul2(u, v) == ProdT(<<u, v>>)
Sq(u) == PowT(u, Two)
Inv(u) == PowT(u, MinusOne)
U == {X, Y, Mul2(Two, X), Add2(X, Y), Neg(X), Mul2(Half, Z), Sq(X), Add2(X, One)}

True2 == SetToSeq(UNION {
    {<<S(Add2(u, v)), Add2(Mul2(S(u), C(v)), Mul2(C(u), S(v)))>> : u \in U, v \in U},
    {<<C(Add2(u, v)), SubT(Mul2(C(u), C(v)), Mul2(S(u), S(v)))>> : u \in U, v \in U},
    {<<Add2(Sq(S(u)), Sq(C(u))), One>> : u \in U},
    {<<Fn("tan", u), DivT(S(u), C(u))>> : u \in U},
    {<<S(Mul2(Q(3, 1), u)), SubT(Mul2(Q(3, 1), S(u)), Mul2(Q(4, 1), PowT(S(u), Q(3, 1))))>> : u \in U},
    {<<PowT(E1, Add2(u, v)), Mul2(PowT(E1, u), PowT(E1, v))>> : u \in U, v \in U},
    {<<PowT(PowT(E1, u), v), PowT(E1, Mul2(u, v))>> : u \in U, v \in U},
    {<<Ln(Mul2(u, v)), Add2(Ln(u), Ln(v))>> : u \in U, v \in U},
    {<<Ln(PowT(u, v)), Mul2(v, Ln(u))>> : u \in U, v \in U},
    {<<Ln(PowT(E1, u)), u>> : u \in U},
    {<<PowT(E1, Ln(u)), u>> : u \in U},
    {<<PowT(PowT(u, Half), Two), u>> : u \in U},
    {<<PowT(Mul2(u, v), Q(3, 1)), Mul2(PowT(u, Q(3, 1)), PowT(v, Q(3, 1)))>> : u \in U, v \in U},
    {<<Mul2(PowT(u, v), PowT(u, Half)), PowT(u, Add2(v, Half))>> : u \in U, v \in U},
    {<<Mul2(PowT(u, N), Inv(u)), PowT(u, SubT(N, One))>> : u \in U},
    {<<Sq(Add2(u, v)), SumT(<<Sq(u), ProdT(<<Two, u, v>>), Sq(v)>>)>> : u \in U, v \in U},
    {<<DivT(u, v), Mul2(u, Inv(v))>> : u \in U, v \in U},
    {<<<<"D", Mul2(u, S(v)), X>>, Add2(Mul2(<<"D", u, X>>, S(v)), ProdT(<<u, C(v), <<"D", v, X>>>>))>> : u \in U, v \in U},
    {<<<<"D", PowT(u, Q(3, 1)), X>>, ProdT(<<Q(3, 1), Sq(u), <<"D", u, X>>>>)>> : u \in U},
    {<<<<"D", Ln(u), X>>, DivT(<<"D", u, X>>, u)>> : u \in U},
    {<<<<"D", PowT(E1, u), X>>, Mul2(PowT(E1, u), <<"D", u, X>>)>> : u \in U},
    {<<<<"D", PowT(X, u), X>>, Mul2(PowT(X, u), Add2(Mul2(<<"D", u, X>>, Ln(X)), DivT(u, X)))>> : u \in U},
    {<<<<"log", Q(10, 1), Mul2(u, v)>>, Add2(<<"log", Q(10, 1), u>>, <<"log", Q(10, 1), v>>)>> : u \in U, v \in U}})

\* mutations of a term that change its value
Mutants(t) == <<Add2(t, One), Mul2(Two, t), Neg(t), Mul2(t, X), PowT(t, Two), Add2(t, Y), Mul2(t, Add2(One, Inv(Y))), SubT(t, Q(1, 3)), DivT(t, Add2(X, Y))>>
Seeds == SetToSeq({X, Add2(X, Y), Mul2(X, Y), S(X), C(Add2(X, Y)), PowT(E1, X), Ln(X), PowT(X, Half), PowT(X, Y), Inv(Add2(X, Y)), Sq(S(X)), Fn("tan", Y),
                   Mul2(S(X), C(Y)), Mul2(PowT(E1, X), Ln(Y)), Fn("arctan", X), Fn("arcsin", Y), <<"log", Two, X>>, Mul2(Pi, X), Add2(E1, X), PowT(Pi, X),
                   <<"D", Mul2(S(X), Sq(X)), X>>, <<"D", PowT(X, Y), X>>, <<"D", Fn("arctan", X), X>>})
False2 == SetToSeq({
    <<PowT(Sq(X), Half), X>>,
    <<PowT(Mul2(X, Y), Half), Mul2(PowT(X, Half), Neg(PowT(Y, Half)))>>,
    <<S(Mul2(Two, X)), Mul2(Two, S(X))>>,
    <<S(X), C(X)>>, <<C(X), C(Mul2(Two, X))>>, <<S(Add2(X, Y)), Add2(S(X), S(Y))>>,
    <<Ln(Add2(X, Y)), Add2(Ln(X), Ln(Y))>>, <<Ln(Mul2(X, Y)), Mul2(Ln(X), Ln(Y))>>,
    <<PowT(E1, Mul2(X, Y)), Mul2(PowT(E1, X), PowT(E1, Y))>>,
    <<PowT(PowT(X, Y), Z), PowT(X, PowT(Y, Z))>>, <<PowT(X, Y), PowT(Y, X)>>,
    <<Sq(Add2(X, Y)), Add2(Sq(X), Sq(Y))>>, <<Inv(Add2(X, Y)), Add2(Inv(X), Inv(Y))>>,
    <<Fn("tan", X), Fn("cot", X)>>, <<Fn("sec", X), Fn("csc", X)>>, <<Fn("sec", X), C(X)>>,
    <<Fn("arcsin", X), Fn("arctan", X)>>, <<Fn("arcsin", X), Inv(S(X))>>,
    <<E1, Pi>>, <<<<"log", Two, X>>, <<"log", Q(10, 1), X>>>>, <<<<"log", Pi, X>>, Ln(X)>>,
    <<<<"D", PowT(X, Y), X>>, <<"D", PowT(X, Y), Y>>>>, <<<<"D", S(X), X>>, Neg(C(X))>>, <<<<"D", Fn("tan", X), X>>, Sq(Fn("tan", X))>>,
    <<SubT(X, Y), SubT(Y, X)>>, <<DivT(X, Y), DivT(Y, X)>>})

Accepted == kind = "true" => Compat(True2[a][1], True2[a][2]) \in {"ok", "vacuous"} /\ Compat(True2[a][2], True2[a][1]) \in {"ok", "vacuous"}
Refuted ==
    /\ kind = "false" => Compat(False2[a][1], False2[a][2]) = "different-value"
    /\ kind = "mutant" => \A j \in 1..Len(Mutants(Seeds[a])) : Compat(Seeds[a], Mutants(Seeds[a])[j]) = "different-value"
\* most of the accepted identities are really compared, at a majority of the points
Compared == kind = "seed" => CountV(Val(Seeds[a])) >= (IF HasUndef(Seeds[a]) THEN 0 ELSE 5)

Part == IF "LAWS" \in DOMAIN IOEnv THEN IOEnv.LAWS ELSE "all"
Block == 64
Starts(m) == {b * Block : b \in 0..((m - 1) \div Block)}
Size0 == IF kind = "field" THEN P(i) ELSE IF kind = "pos" THEN Q0(i) ELSE P(Node[i].ts)
Init ==
    \/ Part = "all" /\ kind = "field" /\ i \in 1..NNodes /\ a \in Starts(P(i))
    \/ Part = "all" /\ kind = "pos" /\ i \in {n \in 1..NNodes : Q0(n) # 0} /\ a \in Starts(Q0(i))
    \/ kind = "circle" /\ i \in {n \in 1..NNodes : HasCircle(n)} /\ a \in Starts(P(Node[i].ts))
    \/ kind = "true" /\ i = 0 /\ a \in 1..Len(True2)
    \/ kind = "false" /\ i = 0 /\ a \in 1..Len(False2)
    \/ kind \in {"mutant", "seed"} /\ i = 0 /\ a \in 1..Len(Seeds)
\* blocks of elements, so that TLC's workers share the work
Next ==
    /\ kind \in {"field", "pos", "circle"}
    /\ a % Block # Block - 1 /\ a + 1 < Size0
    /\ a' = a + 1 /\ UNCHANGED <<kind, i>>
Spec == Init /\ [][Next]_vars
=============================================================================
