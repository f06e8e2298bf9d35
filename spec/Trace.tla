-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded sessions: each line of the trace file is one     *)
(* session of calls on the real library.  A behaviour of this module walks *)
(* one session; the specification's state is the sequence of registers.    *)
(* Every event is judged by the specification; the verdicts of a session   *)
(* are printed as one line.                                                *)
(***************************************************************************)
EXTENDS Numbers, Grammar, Macro, IOUtils, Json

Sessions == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Sessions)

VARIABLES sid, pos, regs, verdicts
vars == <<sid, pos, regs, verdicts>>

Ok(ev) == ev.st = "ok"

\* big numbers may legitimately exhaust the 128-bit integers the library documents
RECURSIVE BigNumbers(_)
BigNumbers(e) == \/ e[1] = "Q"
                 \/ e[1] = "q" /\ (Abs(e[2]) > 9999 \/ e[3] > 9999)
                 \/ \E j \in 1..Len(Args(e)) : BigNumbers(Args(e)[j])
RECURSIVE BigPowers(_)
BigPowers(e) == \/ e[1] = "^" /\ IsSmall(e[3]) /\ Abs(e[3][2]) > 9
                \/ \E j \in 1..Len(Args(e)) : BigPowers(Args(e)[j])

Operand(ev, j) == regs[ev.i[j]]
RegArgs(ev) == SelectSeq(ev.i, LAMBDA a : a \in 1..Len(regs))

Judge(ev) ==
    LET op == ev.o
        a == regs[ev.i[1]]
        b == regs[ev.i[2]]
        c == regs[ev.i[3]]
        r == ev.r
        x == ev.x
        own == Owner(op)
        rest == [j \in 1..(Len(ev.i) - 1) |-> regs[ev.i[j + 1]]]
        From(n) == [j \in 1..(Len(ev.i) - n + 1) |-> regs[ev.i[j + n - 1]]]
        prs == [j \in 1..((Len(ev.i) - 1) \div 2) |-> <<regs[ev.i[2 * j]], regs[ev.i[2 * j + 1]]>>]
    IN
    CASE op = "lit" -> Check("C01", r[1] = ev.i[1], "literal-not-kept")
      [] op = "build" -> Vd("C01", CompatS(ev.i[1], r[1]))
      [] op \in BinOps -> JudgeBin(op, a, b, r[1])
      [] op = "opforms" -> Vd("C01", CompatS(BinT(ev.i[3][1], a, b), r[1])) \o Check("C01", \A j \in 2..Len(r) : r[j] = r[1], "operator-forms-differ")
      [] op = "fn" -> Vd("C01", CompatS(FunT(ev.i[2][1], a), r[1]))
      [] op = "logb" -> Vd("C01", CompatS(<<"log", ev.i[2], a>>, r[1]))
      [] op = "reduce" -> JudgeReduce(a, r[1])
      [] op = "reduceidem" -> JudgeIdem(a, r)
      [] op = "reduce2" -> JudgeReduce2(a, b, c, r)
      [] op = "expand" -> Vd("C04", CompatS(a, r[1])) \o
                          (IF Polynomial(a) \/ (Clean(a) /\ SplitPowers(a)) THEN Check("C04", Expanded(r[1]), "not-expanded") ELSE <<>>)
      [] op = "sortargs" -> Vd("C02", CompatS(a, r[1])) \o Check("C12", Same(a, r[1]), "sorting-changed-the-expression")
                            \o Check("C12", r[2] = r[1] /\ r[3] = r[1], "sorted-form-depends-on-the-order")
                            \o Check("C12", \A j \in 1..Len(x) : (\A m \in 1..Len(x[j]) : x[j][m] <= 0) \/ (\A m \in 1..Len(x[j]) : x[j][m] >= 0), "operands-not-sorted")
      [] op = "flatten" -> Check("C02", r[1] = Flat(a), "wrong-flattening")
      [] op = "clone" -> Check("C17", r[1] = a, "clone-differs")
      [] op \in DOMAIN ValueOps -> Vd(own, IF own = "C08" THEN Compat(a, r[1]) ELSE CompatS(a, r[1]))
                                  \o (IF Clean(a) /\ (op = "contracttrig" => OneStep(a)) /\ (op = "cancel" => SplitPowers(a)) THEN Check(own, Complete(op, r[1]), "incomplete") ELSE <<>>)
                                  \o (IF op \in {"expandmain", "distribute"} /\ Clean(a) /\ LeavesSum(op, a) THEN Check(own, IsSum(r[1]), "not-distributed") ELSE <<>>)
      [] op = "simplify" -> JudgeSimplify(a, r, x)
      [] op = "identity" -> IF Polynomial(a) /\ Polynomial(b) /\ Clean(a) /\ Clean(b) THEN Check("C04", \A j \in 1..Len(r) : IsZero(r[j]), "identity-not-recognised") ELSE <<>>
      [] op = "fracid" -> IF Polynomial(a) /\ Polynomial(b) /\ Polynomial(c) /\ Clean(a) /\ Clean(b) /\ Clean(c) /\ ~IsZero(b) /\ ~IsZero(c) /\ Squarefree(b, c) THEN Check("C05", \A j \in 1..Len(r) : IsZero(r[j]), "identity-not-recognised") ELSE <<>>
      [] op = "trigid" -> IF \E v \in Names(a) \cup Names(b) : TrigPoly(a, v) /\ TrigPoly(b, v) /\ Clean(a) /\ Clean(b) THEN Check("C07", \A j \in 1..Len(r) : IsZero(r[j]), "identity-not-recognised") ELSE <<>>
      [] op = "numden" -> Vd("C06", CompatS(a, DivT(r[1], r[2])))
                          \o (IF Clean(a) THEN Check("C06", ~HasDen(r[1]), "fraction-in-numerator") ELSE <<>>)
      [] op = "asdiv" -> IF r = <<>> THEN <<>> ELSE Vd("C06", CompatS(a, DivT(r[1], r[2])))
                          \o (IF Clean(a) THEN Check("C06", ~HasNegPower(r[1]), "negative-power-in-numerator") ELSE <<>>)
      [] op = "baseexp" -> Vd("C06", CompatS(a, PowT(r[1], r[2])))
      [] op = "coeffterm" ->
            IF x.c # <<>> /\ x.t # <<>> THEN Vd("C06", CompatS(a, ProdT(<<x.c[1], x.t[1]>>)))
                                            \o Check("C06", IsRat(x.c[1]) /\ (~Clean(a) \/ \A j \in 1..Len(FactorsOf(x.t[1])) : ~IsRat(FactorsOf(x.t[1])[j])), "coefficient-left-in-term")
            ELSE Check("C06", IsRat(a) \/ a[1] = "U" \/ (IsProd(a) /\ RestPart(a) = <<>>), "no-coefficient-or-term")
      [] op = "bin" -> IF r = <<>> THEN <<>> ELSE Vd("C06", CompatS(a, IF IsSum(a) THEN SumT(r) ELSE ProdT(r)))
      [] op = "sepfac" -> Vd("C06", CompatS(a, ProdT(r)))
                          \o Check("C06", IsRat(b) \/ FreeOf(r[1], b), "free-part-not-free")
                          \o Check("C06", r[2] = One \/ (IsProd(a) /\ \E j \in 1..Len(a[2]) : IsProd(a[2][j])) \/ (\A j \in 1..Len(Factors(r[2])) : ~FreeOf(Factors(r[2])[j], b)), "dependent-part-contains-free-factor")
      [] op = "sepsc" -> Vd("C06", CompatS(a, ProdT(r)))
                         \o (IF Clean(a) THEN Check("C06", (\A j \in 1..Len(FactorsOf(r[1])) : ~TrigFactor(FactorsOf(r[1])[j])) /\ (r[2] = One \/ (\A j \in 1..Len(FactorsOf(r[2])) : TrigFactor(FactorsOf(r[2])[j]))), "factor-on-the-wrong-side") ELSE <<>>)
      [] op = "fct" -> Vd("C06", Compat(a, ProdT(<<r[1], r[2]>>))) \o Vd("C06", Compat(b, ProdT(<<r[1], r[3]>>)))
                       \o Check("C06", Same(r[1], r[4]), "common-factor-differs")
                       \o (IF Clean(a) /\ Clean(b) /\ ~IsZero(a) /\ ~IsZero(b) THEN Check("C06", ~Common(SumT(<<r[2], r[3]>>)), "remainders-have-a-common-factor") ELSE <<>>)
      [] op = "deriv" -> CASE b[1] = "v" -> Vd("C09", Compat(<<"D", a, b>>, r[1]))
                           \* the application of a function counts as one variable
                           [] b[1] = "f" -> LET names == SelectSeq(<<"t", "u", "v", "c", "n", "z", "y">>, LAMBDA s : FreeOf(a, <<"v", s>>))
                                                t == <<"v", names[1]>>
                                            IN IF names = <<>> THEN <<>>
                                               ELSE Vd("C09", Compat(<<"D", Subst(a, <<<<b, t>>>>), t>>, Subst(r[1], <<<<b, t>>>>)))
                           [] OTHER -> <<>>
      [] op = "subst" -> LET s == Subst(a, <<<<b, c>>>>) IN Check("C11", Same(s, r[1]), "wrong-substitution")
      [] op = "csubst" -> Check("C11", Same(Subst(a, prs), r[1]), "wrong-substitution")
      [] op = "seqsubst" -> Check("C11", Same(SeqSubst(a, prs), r[1]), "wrong-substitution")
      [] op = "freeof" -> Check("C11", x.f = FreeOf(a, b) /\ x.fs = FreeOf(a, b) /\ x.fs2 = FreeOfAll(a, rest), "wrong-free-of")
      [] op = "vars" -> LET st == SubTerms(a) IN
                           Check("C11", \A j \in 1..Len(r) : \E m \in 1..Len(st) : Same(r[j], st[m]), "variable-not-in-expression")
                        \o Check("C11", Names(a) = UNION {Names(r[j]) : j \in 1..Len(r)}, "variable-missing")
                        \o Check("C11", OddPower(a) \/ SameSet(GenVarsOf(a), r), "wrong-generalised-variables")
                        \o Check("C11", \A p, q \in 1..Len(r) : p < q => ~Same(r[p], r[q]), "variable-listed-twice")
      [] op = "subs" -> Check("C11", Len(r) = Size(a) /\ r[1] = a /\ SameArgs(SubTerms(a), r), "wrong-sub-expressions")
      [] op = "preds" -> JudgePreds(a, x)
      [] op = "cmp" -> JudgeCmp(a, b, x)
      [] op = "cmpm" -> JudgeCmpTable([j \in 1..Len(ev.i) |-> regs[ev.i[j]]], x)
      [] op = "accum" -> LET all == [j \in 1..Len(ev.i) |-> regs[ev.i[j]]] IN
                            Vd("C01", CompatS(SumT(all), r[1])) \o Vd("C01", CompatS(ProdT(all), r[2])) \o Vd("C01", CompatS(ProdT(all), r[3]))
      [] op = "consts" -> Check("C01", r = Consts, "wrong-constant")
      [] op = "powrec" -> Vd("C04", FirstBad([j \in 1..Len(r) |-> CompatS(a, r[j])]))
      [] op = "derivf" -> IF b[1] = "v" /\ r # <<>> /\ ~FreeOf(a, b) THEN Vd("C09", Compat(<<"D", a, b>>, r[1])) ELSE <<>>
      [] op = "reducetop" -> IF r = <<>> THEN <<>> ELSE Vd("C02", CompatS(a, r[1]))
      [] op = "mutate" -> JudgeMutate(a, b, ev.i[3][1], r)
      [] op = "real" -> JudgeReal(ev.i[1], ev.i[2], x)
      [] op = "varpow" -> JudgeVarPow(ev.i[1], ev.i[2], From(3), x)
      [] op = "gpe" -> LET nv == ev.i[1][1] IN JudgeGpe(ev.i[2], SubSeq(From(3), 1, nv), From(nv + 3), x)
      [] op = "binom" -> Check("C16", x = Binomial(ev.i[1][1], ev.i[2][1]), "wrong-binomial-coefficient")
      [] op = "serde" -> Check("C17", IF r = <<>> THEN FALSE ELSE r[1] = a, "round-trip-changed-the-expression")
      [] op = "poly" -> IF GenVars(rest) THEN JudgePoly(a, rest, x) ELSE <<>>
      [] op = "mono" -> IF GenVars(rest) THEN JudgeMono(a, rest, x) ELSE <<>>
      [] op = "rat" -> JudgeRat(ev.i[1], ev.i[2], x)
      [] op = "ratpow" -> JudgeRatPow(ev.i[1], ev.i[2], x)
      [] op = "disp" -> JudgeDisp(a, x)
      [] op = "macro" -> JudgeMacro(ev.i[1], r, x)
      [] OTHER -> Vd("C19", "unknown-operation")

------------------------------------------------------------------------------
(* calls that do not return                                                 *)

\* Running out of the library's 128-bit integers is its documented limit.  That excuses a call
\* only if it computes with numbers that can get that big.
RECURSIVE Weight(_)
\* a crude bound for the number of terms of the expansion of e
Cap(n) == IF n > 5000 THEN 5000 ELSE n
RECURSIVE PowCap(_, _)
PowCap(b, n) == IF n <= 0 \/ b <= 1 THEN 1 ELSE IF n > 13 THEN 5000 ELSE Cap(b * PowCap(b, n - 1))
Weight(e) ==
    CASE e[1] = "+" -> Cap(FoldLeft(LAMBDA s, a : s + Weight(a), 1, e[2]))
      [] e[1] = "*" -> FoldLeft(LAMBDA s, a : Cap(s * Weight(a)), 1, e[2])
      [] e[1] = "^" -> IF IsSmall(e[3]) THEN PowCap(Weight(e[2]), Abs(e[3][2])) ELSE Cap(Weight(e[2]) * Weight(e[3]))
      [] e[1] \in {"f", "log"} -> Weight(e[3])
      [] OTHER -> 1
Max2(a, b) == IF a > b THEN a ELSE b
Trigs == {"sin", "cos", "tan", "sec", "csc", "cot"}
RECURSIVE HasTrig(_)
HasTrig(e) == (e[1] = "f" /\ e[2] \in Trigs) \/ \E j \in 1..Len(Args(e)) : HasTrig(Args(e)[j])
\* the multiple-angle formulas are exponential in the nesting of trigonometric functions
RECURSIVE NestedTrig(_)
NestedTrig(e) == \/ e[1] = "f" /\ e[2] \in Trigs /\ HasTrig(e[3])
                 \/ \E j \in 1..Len(Args(e)) : NestedTrig(Args(e)[j])
\* ... and of the terms and factors of the angle
RECURSIVE AngleTrig(_)
AngleTrig(e) == \/ e[1] = "f" /\ e[2] \in Trigs /\ Args(e[3]) # <<>>
                \/ \E j \in 1..Len(Args(e)) : AngleTrig(Args(e)[j])
RECURSIVE AngleW(_)
AngleW(e) == CASE e[1] = "+" -> FoldLeft(LAMBDA s, a : Cap(s * Max2(2, AngleW(a))), 1, e[2])
               [] e[1] = "*" -> LET ns == SelectSeq(e[2], IsInt)
                                    rest == FoldLeft(LAMBDA s, a : Cap(s * AngleW(a)), 1, e[2])
                                    n == FoldLeft(LAMBDA s, a : Cap(s * Abs(a[2])), 1, ns)
                                IN IF n > 1 THEN PowCap(1 + rest, n) ELSE rest
               [] e[1] = "^" /\ IsInt(e[3]) -> LET w == AngleW(e[2]) IN
                                              IF e[3][2] < 2 \/ w = 1 THEN w ELSE IF e[3][2] = 2 THEN Cap(4 * w * w) ELSE 5000
               [] OTHER -> 1
RECURSIVE AngleSwell(_)
AngleSwell(e) == \/ e[1] = "f" /\ e[2] \in Trigs /\ AngleW(e[3]) > 100
                 \/ \E j \in 1..Len(Args(e)) : AngleSwell(Args(e)[j])
Swelling(e) == Weight(e) > 400 \/ NestedTrig(e) \/ BigPowers(e) \/ Size(e) > 250 \/ AngleSwell(e)
OperandsOf(ev) == {regs[ev.i[j]] : j \in {m \in 1..Len(ev.i) : ev.i[m] \in 1..Len(regs)}}
Expanding == {"expand", "expandmain", "distribute", "expandtrig", "contracttrig", "simptrig", "simplify", "expandexp", "expandln",
              "rationalize", "factorout", "cancel", "fct", "poly", "powrec", "identity", "trigid", "fracid", "reducetop", "accum", "reduce", "reduceidem", "reduce2"}
\* simplify applies all transformations to its own results, ten times over; the trigonometric
\* simplification expands a common denominator of all terms before it contracts the products
HangExcused(ev) ==
    /\ ev.o \in Expanding
    /\ \E e \in OperandsOf(ev) : (Swelling(e) \/ ev.o = "trigid" \/ (ev.o = "simplify" /\ (Size(e) > 14 \/ AngleTrig(e))) \/ (ev.o = "simptrig" /\ Size(e) > 18 /\ AngleTrig(e)))
LibFiles == {"atom.rs", "algos.rs", "polynomial.rs", "sym_fmt.rs"}
LimitExcused(ev) == ev.at \notin LibFiles \/ \E e \in OperandsOf(ev) : BigNumbers(e) \/ BigPowers(e)

------------------------------------------------------------------------------
(* which properties are judged: one of them, or all                         *)
Focus == IOEnv.FOCUS
Smarts == {"add", "sub", "mul", "div", "pow", "reduce"}
Judged(op) ==
    \/ Focus = "ALL"
    \/ Owner(op) = Focus
    \/ Focus = "C13" /\ op \in Smarts
    \/ Focus = "C02" /\ op \in {"reduce2", "reduceidem"}
    \/ Focus = "C12" /\ op \in {"rat", "sortargs"}
    \/ Focus = "C16" /\ op = "real"
Focused(v) == IF Focus = "ALL" THEN v ELSE SelectSeq(v, LAMBDA t : t[1] = Focus)

Failed(ev, what) == <<<<Owner(ev.o), what>>, <<"C19", what>>>>
Verdict(ev) ==
    Focused(CASE ev.st = "ok" -> (IF Judged(ev.o) THEN Judge(ev) ELSE <<>>) \o (IF Focus = "C19" THEN <<<<"C19", "ok">>>> ELSE <<>>)
              [] ev.st \in {"skip", "big"} -> <<<<Owner(ev.o), "skipped">>>>
              [] ev.st = "limit" -> IF LimitExcused(ev) THEN <<<<Owner(ev.o), "skipped">>>> ELSE Failed(ev, "panic")
              [] ev.st = "hang" -> IF HangExcused(ev) THEN <<<<Owner(ev.o), "skipped">>>> ELSE Failed(ev, "hang")
              [] OTHER -> Failed(ev, ev.st))

Init == sid \in 1..N /\ pos = 1 /\ regs = <<>> /\ verdicts = <<>>

Events == Sessions[sid].ev
Accept ==
    /\ pos <= Len(Events)
    /\ LET ev == Events[pos] IN
       /\ verdicts' = Append(verdicts, Verdict(ev))
       /\ regs' = Append(regs, IF ev.st = "ok" /\ ev.r # <<>> THEN ev.r[1] ELSE None)
    /\ pos' = pos + 1
    /\ sid' = sid

\* the operands of all calls, re-read at the end of the session, are what they were
Finish ==
    /\ pos = Len(Events) + 1
    /\ LET fin == Sessions[sid].fin
           keep == IF fin = <<>> \/ fin = regs THEN <<>> ELSE <<<<<<"C17", "operand-modified">>>>>>
       IN PrintT(ToJson([s |-> sid, v |-> verdicts \o keep]))
    /\ pos' = pos + 1
    /\ UNCHANGED <<sid, regs, verdicts>>

Next == Accept \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
