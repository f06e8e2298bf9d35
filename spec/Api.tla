-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* What every public operation of the library must do.                     *)
(*                                                                         *)
(* The state of a session is a sequence of registers holding terms.  A     *)
(* call reads some registers and appends its result.  Judge(ev, regs) says *)
(* whether one observed call is one the specification allows: it returns a *)
(* sequence of <<property, verdict>>; verdict "ok" or "vacuous" is         *)
(* acceptance, anything else names what is wrong.                          *)
(***************************************************************************)
EXTENDS Shapes

FunT(name, a) ==
    CASE name = "exp" -> PowT(<<"e">>, a)
      [] name = "sqrt" -> PowT(a, Q(1, 2))
      [] name = "ln" -> <<"log", <<"e">>, a>>
      [] name = "log10" -> <<"log", Q(10, 1), a>>
      [] OTHER -> Fn(name, a)

\* the property that owns an operation's result
ValueOps ==
    [reduce |-> "C02", sortargs |-> "C02", flatten |-> "C02", clone |-> "C17",
     expand |-> "C04", expandmain |-> "C04", distribute |-> "C04",
     rationalize |-> "C05", factorout |-> "C05", cancel |-> "C05",
     expandtrig |-> "C07", contracttrig |-> "C07", substtrig |-> "C07", simptrig |-> "C07",
     expandexp |-> "C08", expandln |-> "C08"]
Owner(op) ==
    CASE op \in DOMAIN ValueOps -> ValueOps[op]
      [] op \in {"lit", "build", "add", "sub", "mul", "div", "pow", "addraw", "mulraw", "divraw", "powraw",
                 "opforms", "fn", "logb", "accum", "consts"} -> "C01"
      [] op = "reducetop" -> "C02"
      [] op \in {"powrec", "identity"} -> "C04"
      [] op = "fracid" -> "C05"
      [] op = "trigid" -> "C07"
      [] op \in {"reduce2", "reduceidem"} -> "C03"
      [] op \in {"numden", "asdiv", "baseexp", "coeffterm", "bin", "sepfac", "sepsc", "fct"} -> "C06"
      [] op \in {"deriv", "derivf"} -> "C09"
      [] op \in {"poly", "mono", "varpow", "gpe"} -> "C10"
      [] op \in {"subst", "seqsubst", "csubst", "freeof", "vars", "subs", "preds"} -> "C11"
      [] op \in {"cmp", "cmpm", "real"} -> "C12"
      [] op = "disp" -> "C14"
      [] op = "macro" -> "C15"
      [] op \in {"rat", "ratpow", "binom"} -> "C16"
      [] op \in {"serde", "mutate"} -> "C17"
      [] op = "simplify" -> "C18"
      [] OTHER -> "C19"

Vd(prop, v) == <<<<prop, v>>>>
Check(prop, c, bad) == <<<<prop, IF c THEN "ok" ELSE bad>>>>

------------------------------------------------------------------------------
(* arithmetic: the denoted term of a call                                   *)
BinT(op, a, b) ==
    CASE op \in {"add", "addraw"} -> SumT(<<a, b>>)
      [] op = "sub" -> SubT(a, b)
      [] op \in {"mul", "mulraw"} -> ProdT(<<a, b>>)
      [] op \in {"div", "divraw"} -> DivT(a, b)
      [] op \in {"pow", "powraw"} -> PowT(a, b)

BinOps == {"add", "sub", "mul", "div", "pow", "addraw", "mulraw", "divraw", "powraw"}
Smart == {"add", "sub", "mul", "div", "pow"}

\* the operand, read as a number when it is one spelled with one operand
RECURSIVE Flat(_)
Flat(e) == IF e[1] \in {"+", "*"} /\ Len(e[2]) = 1 THEN e[2][1]
           ELSE IF e[1] = "^" /\ IsOne(e[3]) THEN e[2] ELSE e

\* undefined operands give the undefined result, and so do 0^0, 0^-n, 0/0
MustBeUndef(op, a, b) ==
    \/ a[1] = "U" \/ b[1] = "U"
    \/ (op = "pow" /\ IsZero(a) /\ (IsZero(b) \/ (IsSmall(b) /\ b[2] < 0)))
    \/ (op = "div" /\ IsZero(b))

JudgeBin(op, a, b, r) ==
    Vd("C01", CompatS(BinT(op, a, b), r))
    \o IF op \in Smart /\ MustBeUndef(op, a, b)
       THEN Check("C13", r = Undef, "undefined-operand-lost") ELSE <<>>

\* zero, also spelled as a sum or product of numbers
RECURSIVE ZeroE(_)
ZeroE(e) == IsZero(e) \/ (e[1] = "+" /\ \A j \in 1..Len(e[2]) : ZeroE(e[2][j]))
                      \/ (e[1] = "*" /\ \E j \in 1..Len(e[2]) : ZeroE(e[2][j]))
\* an undefined atom or power of zero reached through sums, products and powers only
RECURSIVE UndefArith(_)
UndefArith(e) == \/ e[1] = "U"
                 \/ e[1] = "^" /\ ZeroE(e[2]) /\ IsRat(e[3]) /\ e[3][2] <= 0
                 \/ (e[1] \in {"+", "*", "^"} /\ \E j \in 1..Len(Args(e)) : UndefArith(Args(e)[j]))

JudgeReduce(a, r) ==
    Vd("C02", CompatS(a, r))
    \o IF UndefArith(a) THEN Check("C13", r = Undef, "undefined-operand-lost") ELSE <<>>

------------------------------------------------------------------------------
RECURSIVE AllSame(_)
AllSame(s) == Len(s) < 2 \/ (Same(s[1], s[2]) /\ AllSame(Tail(s)))
FirstBad(vs) == LET js == {j \in 1..Len(vs) : vs[j] \notin {"ok", "vacuous"}} IN
                IF js # {} THEN vs[CHOOSE j \in js : \A m \in js : j <= m]
                ELSE IF \E j \in 1..Len(vs) : vs[j] = "ok" THEN "ok" ELSE "vacuous"

JudgeReduce2(x, y, z, r) ==
    LET s == SubSeq(r, 1, 8)  p == SubSeq(r, 9, 16) IN
       Check("C03", AllSame(s), "sum-depends-on-order")
    \o Check("C03", AllSame(p), "product-depends-on-order")
    \o Vd("C02", FirstBad([j \in 1..16 |-> IF j > 1 /\ j # 9 /\ r[j] = r[j-1] THEN "ok" ELSE
                                            CompatS(IF j <= 8 THEN SumT(<<x, y, z>>) ELSE ProdT(<<x, y, z>>), r[j])]))

JudgeIdem(a, r) ==
       Check("C03", Same(r[1], r[2]), "reduce-not-idempotent")
    \o (LET f == NormalFaults(r[1]) IN Vd("C03", IF f = <<>> THEN "ok" ELSE f[1]))
    \o Vd("C02", CompatS(a, r[1]))

\* numerical reading of the terms produced by a decomposition
JudgeSplit(prop, whole, expected, detail) == Vd(prop, Compat(whole, expected)) \o detail

Factors(e) == IF IsProd(e) THEN e[2] ELSE <<e>>

\* the accessors of a node
JudgeView(a, v) ==
    LET s == Args(a)  n == v.node
        first == IF s = <<>> THEN <<>> ELSE <<s[1]>>
        undef == s # <<>> /\ s[1][1] = "U"
        terms == SelectSeq(s, LAMBDA t : ~IsNumber(t))
    IN    Check("C11", v.args = s /\ v.agree, "wrong-operands")
       \o CASE a[1] = "+" -> Check("C11", n.first = first /\ n.u = undef /\ n.z = (s = <<>> \/ (Len(s) = 1 /\ IsZero(s[1]))) /\ n.n = Len(s), "wrong-accessor")
            [] a[1] = "*" -> Check("C11", /\ n.first = first /\ n.u = undef /\ n.z = (s # <<>> /\ IsZero(s[1])) /\ n.n = Len(s)
                                          /\ n.o = (s = <<>> \/ (Len(s) = 1 /\ IsOne(s[1])))
                                          /\ n.term = (IF terms = <<>> THEN <<>> ELSE IF Len(terms) = 1 THEN terms ELSE <<ProdT(terms)>>), "wrong-accessor")
            [] a[1] = "^" -> Check("C11", n.b = a[2] /\ n.x = a[3], "wrong-accessor")
            [] a[1] = "f" -> Check("C11", n.name = a[2] /\ n.trig /\ ~n.nat /\ n.natarg = <<>> /\ n.base = <<>> /\ n.two = <<>>, "wrong-accessor")
            [] a[1] = "log" -> LET nat == a[2][1] = "e" IN
                               Check("C11", /\ ~n.trig /\ n.nat = nat /\ n.natarg = (IF nat THEN <<a[3]>> ELSE <<>>) /\ n.base = <<a[2]>>
                                            /\ n.two = (IF a[2] = Two THEN <<a[3]>> ELSE <<>>)
                                            /\ (nat => n.name = "ln") /\ (a[2] = Q(10, 1) => n.name = "log"), "wrong-accessor")
            [] OTHER -> <<>>

JudgePreds(a, x) ==
    LET n == IF IsSmall(a) THEN a[2] ELSE 0
        d == IF IsSmall(a) THEN a[3] ELSE 0
        expected == [zero |-> IsZero(a), one |-> IsOne(a), m1 |-> a = MinusOne,
                     neg |-> IsRat(a) /\ (IF IsSmall(a) THEN n < 0 ELSE a[2] < 0),
                     pos |-> IsRat(a) /\ (IF IsSmall(a) THEN n > 0 ELSE a[2] > 0),
                     num |-> IsNumber(a), const |-> IsNumber(a), pi |-> a[1] = "pi", e |-> a[1] = "e",
                     irr |-> a[1] \in {"U", "q", "Q", "e", "pi", "v"},
                     expo |-> IsPow(a) /\ Flat(a) = a /\ a[2][1] = "e",
                     trig |-> a[1] = "f", sin |-> a[1] = "f" /\ a[2] = "sin", cos |-> a[1] = "f" /\ a[2] = "cos",
                     nargs |-> Len(Args(a)), atom |-> Len(Args(a)) = 0,
                     real |-> IsNumber(a), asreal |-> IF IsNumber(a) THEN <<a>> ELSE <<>>, same |-> TRUE]
    IN    Check("C11", \A f \in DOMAIN expected : x[f] = expected[f], "wrong-predicate")
       \o JudgeView(a, x.view)
       \o Check("C11", IF IsSmall(a) THEN x.ratand = (d = 1 /\ n # 0) ELSE IsRat(a) \/ ~x.ratand, "wrong-predicate")
       \o (IF IsSmall(a) THEN Check("C11", /\ x.int = (d = 1) /\ x.even = (d = 1 /\ n % 2 = 0) /\ x.odd = (d = 1 /\ n % 2 = 1)
                                           /\ x.toint = (IF d = 1 THEN <<n>> ELSE <<>>), "wrong-integer-predicate")
           ELSE <<>>)

JudgeCmp(a, b, x) ==
    LET same == Same(a, b) IN
       Check("C12", x.eq = same, "equality-is-not-structural")
    \o Check("C12", x.qe = x.eq /\ x.ne = ~x.eq, "equality-not-symmetric")
    \o Check("C12", x.ab = -x.ba, "order-not-antisymmetric")
    \o Check("C12", (x.ab = 0) = x.eq, "order-inconsistent-with-equality")
    \o Check("C12", x.pab = x.ab /\ x.lt = (x.ab < 0) /\ x.gt = (x.ab > 0) /\ x.le = (x.ab <= 0) /\ x.ge = (x.ab >= 0),
             "comparison-operators-disagree")
    \o Check("C12", x.eq => x.h, "equal-but-different-hash")
       \* the nodes by themselves
    \o Check("C12", LET n == x.node IN n[1] = same /\ (n[2] = 0) = same /\ n[2] = -n[3] /\ n[5] = n[2] /\ (same => n[4]), "order-inconsistent-with-equality")

\* first pair / triple that breaks a law of total orders
JudgeCmpTable(es, x) ==
    LET n == Len(es)  c == x.c  q == x.q  I == 1..Len(es)
        anti == {ij \in I \X I : c[ij[1]][ij[2]] # -c[ij[2]][ij[1]]}
        eqs == {ij \in I \X I : (c[ij[1]][ij[2]] = 0) # q[ij[1]][ij[2]]}
        strs == {ij \in I \X I : q[ij[1]][ij[2]] # Same(es[ij[1]], es[ij[2]])}
        hs == {ij \in I \X I : q[ij[1]][ij[2]] /\ x.h[ij[1]] # x.h[ij[2]]}
        up == [i \in I |-> {j \in I : c[i][j] <= 0}]
        trans == {ij \in I \X I : c[ij[1]][ij[2]] <= 0 /\ ~(up[ij[2]] \subseteq up[ij[1]])}
        sorted == \A k \in 1..(n - 1) : c[x.s[k]][x.s[k + 1]] <= 0
        rats == {ij \in I \X I : IsSmall(es[ij[1]]) /\ IsSmall(es[ij[2]]) /\ Abs(es[ij[1]][2]) < 30000 /\ Abs(es[ij[2]][2]) < 30000
                                 /\ es[ij[1]][3] < 30000 /\ es[ij[2]][3] < 30000}
        sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
        badrat == {ij \in rats : c[ij[1]][ij[2]] # sgn(es[ij[1]][2] * es[ij[2]][3] - es[ij[2]][2] * es[ij[1]][3])}
    IN    Check("C12", anti = {}, "order-not-antisymmetric")
       \o Check("C12", strs = {}, "equality-is-not-structural")
       \o Check("C12", eqs = {}, "order-inconsistent-with-equality")
       \o Check("C12", hs = {}, "equal-but-different-hash")
       \o Check("C12", trans = {}, "order-not-transitive")
       \o Check("C12", badrat = {}, "numbers-out-of-order")
       \o Check("C12", anti # {} \/ trans # {} \/ sorted, "sort-is-not-sorted")

------------------------------------------------------------------------------
(* polynomial views: e as a polynomial in the generalised variables vs      *)
IsVar(e, vs) == \E j \in 1..Len(vs) : Same(e, vs[j])
FreeOfAll(e, vs) == \A j \in 1..Len(vs) : FreeOf(e, vs[j])

RECURSIVE IsMonomial(_, _)
IsMonomial(e, vs) ==
    IF e[1] = "U" THEN FALSE
    ELSE IF IsVar(e, vs) THEN TRUE
    ELSE IF IsProd(e) THEN \A j \in 1..Len(e[2]) : IsMonomial(e[2][j], vs)
    ELSE IF IsPow(e) /\ IsInt(e[3]) /\ e[3][2] >= 1 /\ IsVar(e[2], vs) THEN TRUE
    ELSE FreeOfAll(e, vs)
IsPoly(e, vs) ==
    IF IsVar(e, vs) THEN TRUE
    ELSE IF IsSum(e) THEN \A j \in 1..Len(e[2]) : IsMonomial(e[2][j], vs)
    ELSE IsMonomial(e, vs)

\* exponent of the generalised variable x in the monomial e
RECURSIVE DegIn(_, _, _)
DegIn(e, x, vs) ==
    IF Same(e, x) THEN 1
    ELSE IF IsVar(e, vs) THEN 0
    ELSE IF IsProd(e) THEN FoldLeft(LAMBDA s, a : s + DegIn(a, x, vs), 0, e[2])
    ELSE IF IsPow(e) /\ IsInt(e[3]) /\ e[3][2] >= 1 /\ IsVar(e[2], vs) THEN e[3][2] * DegIn(e[2], x, vs)
    ELSE 0
Terms1(e, vs) == IF IsSum(e) /\ ~IsVar(e, vs) THEN e[2] ELSE <<e>>
DegsOf(e, vs) == {[j \in 1..Len(vs) |-> DegIn(Terms1(e, vs)[m], vs[j], vs)] : m \in 1..Len(Terms1(e, vs))}
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m

VarPart(d, vs) == ProdT([j \in 1..Len(vs) |-> PowT(vs[j], Q(d[j], 1))])
VarPart1(d, vs) == ProdT(SelectSeq([j \in 1..Len(vs) |-> IF d[j] = 0 THEN One ELSE PowT(vs[j], Q(d[j], 1))], LAMBDA t : ~IsOne(t)))
Recombined(co, vs) == SumT([m \in 1..Len(co) |-> ProdT(<<co[m].c, VarPart1(co[m].vp.d, vs)>>)])
UniTerm(d, c, v) == ProdT(<<c, IF d = 0 THEN One ELSE PowT(v, Q(d, 1))>>)

\* generalised variables are not numbers
GenVars(vs) == \A j \in 1..Len(vs) : ~IsNumber(vs[j]) /\ vs[j][1] # "U"
\* coefficients of equal monomials are added up and multiplied, which may spell out a variable
\* that is a sum or product
AtomicVars(vs) == \A j \in 1..Len(vs) : vs[j][1] \notin {"+", "*"}

JudgePoly(e, vs, x) ==
    LET isp == IsPoly(e, vs)
        degs == DegsOf(e, vs)
        co == x.co
        tot == {SumSeq(d) : d \in degs}
    IN    Check("C10", x.check = isp, "polynomial-test-wrong")
       \o IF ~isp THEN (IF co = <<>> \/ e[1] = "U" THEN <<>> ELSE Vd("C10", Compat(e, Recombined(co, vs))))
          ELSE IF degs = {} THEN <<>>
          ELSE Vd("C10", CompatS(e, Recombined(co, vs)))
            \o Check("C10", {co[m].vp.d : m \in 1..Len(co)} = degs, "wrong-set-of-monomials")
            \o Check("C10", Len(co) = Cardinality(degs), "monomial-listed-twice")
            \o Check("C10", \A m \in 1..Len(co) : (AtomicVars(vs) => FreeOfAll(co[m].c, vs)) /\ co[m].vp.t = SumSeq(co[m].vp.d), "coefficient-contains-variable")
            \o Check("C10", x.deg = <<MaxOf(tot)>>, "wrong-degree")
            \o Check("C10", \A j \in 1..Len(vs) : LET ds == {d[j] : d \in degs} IN
                                 IF ds = {0} THEN x.per[j].deg \in {<<>>, <<0>>} ELSE x.per[j].deg = <<MaxOf(ds)>>, "wrong-degree-of-variable")
            \o (IF x.col = <<>> THEN Check("C10", ~IsSum(e), "terms-not-collected")
                ELSE Vd("C10", CompatS(e, x.col[1])))
            \o FoldLeft(LAMBDA acc, j :
                 LET u == x.per[j]  ds == {d[j] : d \in degs} IN acc
                  \o Vd("C10", CompatS(e, SumT([m \in 1..Len(u.co) |-> UniTerm(u.co[m][1], u.co[m][2], vs[j])])))
                  \o Check("C10", {u.co[m][1] : m \in 1..Len(u.co)} = ds, "wrong-set-of-degrees")
                  \o Check("C10", u.lead # <<>> /\ \E m \in 1..Len(u.co) : u.co[m][1] = MaxOf(ds) /\ Same(u.lead[1], u.co[m][2]),
                           "wrong-leading-coefficient")
                  \o Check("C10", \A m \in 1..Len(u.co) : u.by[m] # <<>> /\ Same(u.by[m][1], u.co[m][2]), "coefficient-lookup-differs")
                  \o Check("C10", u.miss = <<>>, "coefficient-of-absent-degree"), <<>>, [j \in 1..Len(vs) |-> j])

JudgeMono(e, vs, x) ==
    LET ism == IsMonomial(e, vs)
        d == [j \in 1..Len(vs) |-> DegIn(e, vs[j], vs)]
    IN    Check("C10", x.check = ism, "monomial-test-wrong")
       \o IF ~ism THEN (IF x.co = <<>> \/ e[1] = "U" THEN <<>> ELSE Vd("C10", Compat(e, Recombined(x.co, vs))))
          ELSE IF x.co = <<>> THEN Vd("C10", "monomial-without-coefficient")
          ELSE Vd("C10", CompatS(e, Recombined(x.co, vs)))
            \o Check("C10", AtomicVars(vs) => FreeOfAll(x.co[1].c, vs), "coefficient-contains-variable")
            \o Check("C10", x.co[1].vp.d = d, "wrong-exponents")
            \o Check("C10", x.deg = <<SumSeq(d)>>, "wrong-degree")
            \o Check("C10", \A j \in 1..Len(vs) : x.per[j] = (IF d[j] = 0 THEN <<>> ELSE <<d[j]>>) \/ (d[j] = 0 /\ x.per[j] = <<0>>), "wrong-degree-of-variable")

\* monomials as lists of <<number of the variable, exponent>>
DegP(p, vs, j) == FoldLeft(LAMBDA s, t : s + (IF Same(vs[t[1]], vs[j]) THEN t[2] ELSE 0), 0, p)
DegsP(p, vs) == [j \in 1..Len(vs) |-> DegP(p, vs, j)]
TotP(p) == FoldLeft(LAMBDA s, t : s + t[2], 0, p)
JudgeVarPow(p, q, vs, x) ==
    LET dp == DegsP(p, vs)  dq == DegsP(q, vs) IN
       Check("C10", x.x.d = dp /\ x.z.d = dq, "wrong-exponents")
    \o Check("C10", x.x.t = TotP(p) /\ x.z.t = TotP(q), "wrong-degree")
    \o Check("C10", x.c = <<p = <<>>, q = <<>>>>, "wrong-constant-test")
    \o Check("C10", x.perm, "monomial-depends-on-order")
    \o Check("C10", x.eq = (dp = dq) /\ (x.o = 0) = x.eq /\ x.o = -x.r /\ (x.eq => x.h), "wrong-comparison-of-monomials")
    \o Check("C10", (TotP(p) < TotP(q) => x.o = -1) /\ (TotP(p) > TotP(q) => x.o = 1), "monomials-not-ordered-by-degree")
    \o Check("C10", /\ \A j \in 1..Len(vs) : x.has[j] = <<TRUE, \E m \in 2..Len(vs) : Same(vs[m], vs[j]), Same(vs[1], vs[j])>>
                    /\ x.n = <<Len(vs), Len(vs) - 1, 1>>, "wrong-set-of-variables")
\* coefficients cs with the exponents ds
JudgeGpe(ds, vs, cs, x) ==
    IF "big" \in DOMAIN x THEN <<>>
    ELSE Vd("C10", CompatS(SumT([j \in 1..Len(cs) |-> ProdT(<<cs[j], VarPart1(ds[j], vs)>>)]), x.v))
      \o Check("C10", ~x.absent /\ \A j \in 1..Len(cs) : x.found[j] = <<\E m \in 1..(j - 1) : ds[m] = ds[j], TRUE>>, "wrong-coefficient-lookup")

------------------------------------------------------------------------------
(* copies                                                                    *)
JudgeMutate(a, b, k, r) ==
    LET n == Len(Args(a)) IN
       Check("C17", r[1] = (IF n = 0 THEN a ELSE Rebuild(a, [Args(a) EXCEPT ![(k % n) + 1] = b])), "wrong-operand-written")
    \o Check("C17", r[2] = b /\ r[3] = Rebuild(a, [j \in 1..n |-> b]), "wrong-operand-written")
    \o Check("C17", r[4] = Assigned(a, Q(7, 1), TRUE) /\ r[5] = Assigned(a, Q(7, 1), FALSE), "wrong-sub-expression-written")
    \o Check("C17", r[6] = a, "original-changed-with-its-copy")

Consts == <<Zero, One, Two, MinusOne, Q(-2, 1), Undef, <<"pi">>, <<"e">>, Zero, One, Two, MinusOne, Q(-2, 1), Undef, <<"pi">>, <<"e">>,
            <<"pi">>, <<"e">>, Zero, Q(-2, 1), Q(3, 1), Q(-4, 1), Q(-1, 3), V("consts"), V("consts"), SumT(<<>>), ProdT(<<>>)>>

------------------------------------------------------------------------------
\* r: the candidates, x: what each transformation gives on its own
JudgeSimplify(a, r, x) ==
       Vd("C18", FirstBad([j \in 1..Len(r) |-> Compat(a, r[j])]))
    \o Check("C18", \A j \in 1..(Len(r) - 1) : Cost(r[j]) <= Cost(r[j + 1]), "candidates-not-sorted-by-cost")
    \o Check("C18", \A i, j \in 1..Len(r) : i < j => ~Same(r[i], r[j]), "duplicate-candidates")
    \o Check("C18", a[1] \in {"U", "q", "Q", "e", "pi", "v"} \/ Len(r) > 0, "no-candidate")
    \o Check("C18", r = <<>> \/ \A j \in 1..Len(x) : \E m \in 1..Len(r) : r[m] = x[j] \/ Same(r[m], x[j]), "transformation-missing")
=============================================================================
