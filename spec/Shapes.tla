------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Structural notions on terms: equality up to the order of operands,      *)
(* substitution, the normal form of reduction, the shape of expansion.     *)
(***************************************************************************)
EXTENDS Terms

\* equal up to the order of the operands of sums and products (the library's ==)
RECURSIVE Same(_, _)
RECURSIVE SameArgs(_, _)
Same(a, b) ==
    \/ a = b
    \/ /\ a[1] = b[1]
       /\ CASE a[1] \in {"+", "*"} -> Len(a[2]) = Len(b[2]) /\ SameArgs(a[2], b[2])
            [] a[1] = "^" -> Same(a[2], b[2]) /\ Same(a[3], b[3])
            [] a[1] = "f" -> a[2] = b[2] /\ Same(a[3], b[3])
            [] a[1] = "log" -> a[2] = b[2] /\ Same(a[3], b[3])
            [] OTHER -> FALSE
SameArgs(s, t) ==
    IF s = <<>> THEN TRUE
    ELSE LET js == {j \in 1..Len(t) : Same(s[1], t[j])} IN
         IF js = {} THEN FALSE
         ELSE SameArgs(Tail(s), RemoveAt(t, CHOOSE j \in js : TRUE))

\* substitution: every maximal sub-term equal to some from_j is replaced, once
RECURSIVE Subst(_, _)
Subst(e, prs) ==
    LET js == {j \in 1..Len(prs) : Same(e, prs[j][1])} IN
    IF js # {} THEN prs[CHOOSE j \in js : \A m \in js : j <= m][2]
    ELSE CASE e[1] \in {"+", "*"} -> <<e[1], [j \in 1..Len(e[2]) |-> Subst(e[2][j], prs)]>>
           [] e[1] = "^" -> <<"^", Subst(e[2], prs), Subst(e[3], prs)>>
           [] e[1] \in {"f", "log"} -> <<e[1], e[2], Subst(e[3], prs)>>
           [] OTHER -> e
RECURSIVE SeqSubst(_, _)
SeqSubst(e, prs) == IF prs = <<>> THEN e ELSE SeqSubst(Subst(e, <<prs[1]>>), Tail(prs))

RECURSIVE FreeOf(_, _)
FreeOf(e, x) == ~Same(e, x) /\ \A j \in 1..Len(Args(e)) : FreeOf(Args(e)[j], x)

IsSum(e) == e[1] = "+"
IsProd(e) == e[1] = "*"
IsPow(e) == e[1] = "^"
BaseOf(e) == IF IsPow(e) THEN e[2] ELSE e
ExpoOf(e) == IF IsPow(e) THEN e[3] ELSE One
IsZero(e) == IsSmall(e) /\ e[2] = 0
IsOne(e) == IsInt(e) /\ e[2] = 1

\* the rational factor and the rest of a term
RatPart(e) == IF IsRat(e) THEN <<e>> ELSE IF IsProd(e) THEN SelectSeq(e[2], IsRat) ELSE <<>>
RestPart(e) == IF IsProd(e) THEN SelectSeq(e[2], LAMBDA a : ~IsRat(a)) ELSE <<e>>

------------------------------------------------------------------------------
(* The normal form of reduction.  NormalFaults lists what is wrong with e.  *)
NoPair(s, Bad(_, _)) == \A i, j \in 1..Len(s) : i < j => ~Bad(s[i], s[j])
Fault(c, name) == IF c THEN <<name>> ELSE <<>>

FaultsHere(e) ==
    CASE e[1] = "+" ->
            LET s == e[2] IN
               Fault(Len(s) < 2, "sum-with-fewer-than-two-terms")
            \o Fault(\E j \in 1..Len(s) : IsSum(s[j]), "sum-in-sum")
            \o Fault(\E j \in 1..Len(s) : IsZero(s[j]), "zero-term")
            \o Fault(\E j \in 1..Len(s) : s[j][1] = "U", "undefined-term")
            \o Fault(~NoPair(s, LAMBDA a, b : IsRat(a) /\ IsRat(b)), "uncombined-numbers")
            \o Fault(~NoPair(s, LAMBDA a, b : ~IsRat(a) /\ ~IsRat(b) /\ Len(RestPart(a)) = Len(RestPart(b))
                                              /\ SameArgs(RestPart(a), RestPart(b))), "uncombined-like-terms")
      [] e[1] = "*" ->
            LET s == e[2] IN
               Fault(Len(s) < 2, "product-with-fewer-than-two-factors")
            \o Fault(\E j \in 1..Len(s) : IsProd(s[j]), "product-in-product")
            \o Fault(\E j \in 1..Len(s) : IsOne(s[j]), "unit-factor")
            \o Fault(\E j \in 1..Len(s) : IsZero(s[j]), "zero-factor")
            \o Fault(\E j \in 1..Len(s) : s[j][1] = "U", "undefined-factor")
            \o Fault(~NoPair(s, LAMBDA a, b : IsRat(a) /\ IsRat(b)), "uncombined-numbers")
            \o Fault(~NoPair(s, LAMBDA a, b : ~IsRat(BaseOf(a)) /\ Same(BaseOf(a), BaseOf(b))), "uncombined-equal-bases")
      [] e[1] = "^" ->
               Fault(IsZero(e[3]), "zero-exponent")
            \o Fault(IsOne(e[3]), "unit-exponent")
            \o Fault(IsOne(e[2]), "unit-base")
            \o Fault(e[2][1] = "U" \/ e[3][1] = "U", "undefined-operand")
            \o Fault(IsPow(e[2]) /\ IsInt(e[3]), "uncombined-powers")
      [] e[1] = "f" ->
               Fault(e[2] \in {"sin", "cos"} /\ IsZero(e[3]), "sine-of-zero")
            \o Fault(e[2] \in {"sin", "cos"} /\ IsProd(e[3]) /\ \E j \in 1..Len(e[3][2]) : IsRat(e[3][2][j]) /\ e[3][2][j][2] < 0,
                     "sine-of-a-negative-multiple")
      [] e[1] = "log" -> Fault(Same(e[3], e[2]), "logarithm-of-its-base")
      [] OTHER -> <<>>

RECURSIVE NormalFaults(_)
NormalFaults(e) == FoldLeft(LAMBDA s, a : s \o NormalFaults(a), FaultsHere(e), Args(e))

\* the expanded form of a polynomial expression: no product of a sum, no integer power of a
\* sum or product, anywhere outside exponents
RECURSIVE Expanded(_)
Expanded(e) ==
    CASE e[1] = "+" -> \A j \in 1..Len(e[2]) : Expanded(e[2][j])
      [] e[1] = "*" -> \A j \in 1..Len(e[2]) : Expanded(e[2][j]) /\ ~IsSum(e[2][j])
      [] e[1] = "^" -> ~(IsInt(e[3]) /\ e[3][2] > 1 /\ (IsSum(e[2]) \/ IsProd(e[2])))
      [] e[1] \in {"f", "log"} -> Expanded(e[3])
      [] OTHER -> TRUE

RECURSIVE Polynomial(_)
\* built from numbers, variables and functions with +, * and small non-negative integer powers
Polynomial(e) ==
    CASE e[1] \in {"q", "v", "e", "pi"} -> TRUE
      [] e[1] \in {"f", "log"} -> Polynomial(e[3])
      [] e[1] \in {"+", "*"} -> \A j \in 1..Len(e[2]) : Polynomial(e[2][j])
      [] e[1] = "^" -> Polynomial(e[2]) /\ IsInt(e[3]) /\ e[3][2] >= 0 /\ e[3][2] <= 9
      [] OTHER -> FALSE

\* a polynomial in sines and cosines of multiples of v
RECURSIVE TrigPoly(_, _)
TrigPoly(e, v) ==
    CASE e[1] \in {"q", "v", "e", "pi"} -> TRUE
      [] e[1] = "f" -> e[2] \in {"sin", "cos"} /\ (e[3] = <<"v", v>> \/ (IsProd(e[3]) /\ Len(e[3][2]) = 2 /\ IsInt(e[3][2][1]) /\ e[3][2][2] = <<"v", v>>))
      [] e[1] \in {"+", "*"} -> \A j \in 1..Len(e[2]) : TrigPoly(e[2][j], v)
      [] e[1] = "^" -> TrigPoly(e[2], v) /\ IsInt(e[3]) /\ e[3][2] >= 0 /\ e[3][2] <= 9
      [] OTHER -> FALSE

\* the cost of a term: its number of nodes
Cost(e) == Size(e)

\* the generalised variables of e: what e is a polynomial in, as far as its operators show
RECURSIVE GenVarsOf(_)
GenVarsOf(e) ==
    CASE e[1] \in {"U", "q", "Q", "e", "pi"} -> <<>>
      [] e[1] = "+" -> FoldLeft(LAMBDA s, a : s \o GenVarsOf(a), <<>>, e[2])
      [] e[1] = "*" -> FoldLeft(LAMBDA s, a : s \o (IF IsSum(a) THEN <<a>> ELSE GenVarsOf(a)), <<>>, e[2])
      [] e[1] = "^" -> IF IsInt(e[3]) /\ e[3][2] >= 1 THEN <<e[2]>> ELSE <<e>>
      [] OTHER -> <<e>>
\* powers of numbers, and rational powers above one, count either as themselves or by their base
RECURSIVE OddPower(_)
OddPower(e) == \/ e[1] = "^" /\ ((IsRat(e[3]) /\ ~IsInt(e[3])) \/ IsNumber(e[2]) \/ e[3][1] = "Q")
               \/ e[1] \in {"+", "*"} /\ \E j \in 1..Len(e[2]) : OddPower(e[2][j])
SameSet(s, t) == /\ \A j \in 1..Len(s) : \E m \in 1..Len(t) : Same(s[j], t[m])
                 /\ \A j \in 1..Len(t) : \E m \in 1..Len(s) : Same(s[m], t[j])

\* e with other operands
Rebuild(e, s) == CASE e[1] \in {"+", "*"} -> <<e[1], s>>
                   [] e[1] = "^" -> PowT(s[1], s[2])
                   [] e[1] \in {"f", "log"} -> <<e[1], e[2], s[1]>>
                   [] OTHER -> e
\* every variable replaced; those inside functions only if deep
RECURSIVE Assigned(_, _, _)
Assigned(e, t, deep) ==
    IF e[1] = "v" THEN t
    ELSE IF ~deep /\ e[1] \in {"f", "log"} THEN e
    ELSE Rebuild(e, [j \in 1..Len(Args(e)) |-> Assigned(Args(e)[j], t, deep)])

\* the set of variable names
RECURSIVE Names(_)
Names(e) == IF e[1] = "v" THEN {e[2]} ELSE UNION {Names(Args(e)[j]) : j \in 1..Len(Args(e))}
------------------------------------------------------------------------------
(* what the transformations are for: the shapes they leave nothing of       *)
RECURSIVE Nowhere(_, _)
IsF(e, names) == e[1] = "f" /\ e[2] \in names
SinCos == {"sin", "cos"}
Quotients == {"tan", "cot", "sec", "csc"}
Multi(e) == (IsSum(e) \/ IsProd(e)) /\ Len(e[2]) >= 2
\* no sine or cosine of a sum or of a multiple
TrigArgHere(e) == IsF(e, SinCos) /\ Multi(e[3]) /\ (IsSum(e[3]) \/ IsInt(e[3][2][1]))
\* no product of sines and cosines, no power of one
TrigFactor(e) == IsF(e, SinCos) \/ (IsPow(e) /\ IsF(e[2], SinCos) /\ IsInt(e[3]) /\ e[3][2] > 0)
TrigProdHere(e) == \/ IsPow(e) /\ TrigFactor(e)
                   \/ IsProd(e) /\ Len(SelectSeq(e[2], TrigFactor)) > 1
ExpSumHere(e) == IsPow(e) /\ e[2][1] = "e" /\ Multi(e[3]) /\ (IsSum(e[3]) \/ IsInt(e[3][2][1]))
LnHere(e) == e[1] = "log" /\ e[2][1] = "e" /\ ((IsProd(e[3]) /\ Multi(e[3])) \/ IsPow(e[3]))
Left(what, e) == CASE what = "substtrig" -> IsF(e, Quotients)
                   [] what = "expandtrig" -> TrigArgHere(e)
                   [] what = "contracttrig" -> TrigProdHere(e)
                   [] what = "expandexp" -> ExpSumHere(e)
                   [] what = "expandln" -> LnHere(e)
Nowhere(what, e) == ~Left(what, e) /\ \A j \in 1..Len(Args(e)) : Nowhere(what, Args(e)[j])
\* no sum, outside of functions and exponents, with a fraction among its terms
RECURSIVE NoFractionIn(_)
FactorsOf(t) == IF IsProd(t) THEN t[2] ELSE <<t>>
HasDen(t) == \E j \in 1..Len(FactorsOf(t)) : LET f == FactorsOf(t)[j] IN (IsPow(f) /\ f[3] = MinusOne) \/ (IsSmall(f) /\ f[3] # 1) \/ (f[1] = "Q" /\ f[4] # <<1>>)
HasNegPower(t) == \E j \in 1..Len(FactorsOf(t)) : LET f == FactorsOf(t)[j] IN IsPow(f) /\ IsRat(f[3]) /\ f[3][2] < 0
NoFractionIn(e) == CASE IsSum(e) -> \A j \in 1..Len(e[2]) : ~HasDen(e[2][j]) /\ NoFractionIn(e[2][j])
                     [] IsProd(e) -> \A j \in 1..Len(e[2]) : NoFractionIn(e[2][j])
                     [] IsPow(e) -> NoFractionIn(e[2])
                     [] OTHER -> TRUE
\* no sum whose terms have a factor in common
RECURSIVE NoCommonFactor(_)
PosPowerIn(b, t) == \E j \in 1..Len(FactorsOf(t)) : LET f == FactorsOf(t)[j] IN Same(BaseOf(f), b) /\ IsSmall(ExpoOf(f)) /\ ExpoOf(f)[2] > 0
Common(e) == \E j \in 1..Len(FactorsOf(e[2][1])) : LET b == BaseOf(FactorsOf(e[2][1])[j]) IN ~IsRat(b) /\ ~Multi(b) /\ \A m \in 1..Len(e[2]) : PosPowerIn(b, e[2][m])
NoCommonFactor(e) == CASE IsSum(e) -> (Len(e[2]) > 1 => ~Common(e)) /\ \A j \in 1..Len(e[2]) : NoCommonFactor(e[2][j])
                       [] IsProd(e) -> \A j \in 1..Len(e[2]) : NoCommonFactor(e[2][j])
                       [] IsPow(e) -> NoCommonFactor(e[2])
                       [] OTHER -> TRUE
\* the library takes only factors with the exponent -1 for a denominator: b and c have no factor twice
Squarefree(b, c) == LET f == FactorsOf(b) \o FactorsOf(c) IN
    /\ \A j \in 1..Len(f) : ~IsPow(f[j])
    /\ NoPair(f, LAMBDA s, t : Same(s, t))
Complete(op, r) == CASE op \in {"substtrig", "expandtrig", "contracttrig", "expandexp", "expandln"} -> Nowhere(op, r)
                     [] op = "rationalize" -> NoFractionIn(r)
                     [] op \in {"factorout", "cancel"} -> NoCommonFactor(r)
                     [] OTHER -> TRUE
\* distributing a product over a sum leaves a sum, and so does expanding a power of a sum
LeavesSum(op, a) == \/ IsProd(a) /\ \E j \in 1..Len(a[2]) : IsSum(a[2][j]) /\ Multi(a[2][j])
                    \/ op = "expandmain" /\ IsPow(a) /\ IsSum(a[2]) /\ Multi(a[2]) /\ IsInt(a[3]) /\ a[3][2] \in 2..9
\* products that are contracted in one step: two sines or cosines, or a power of one, next to factors without any
\* (the coefficients of powers beyond 127 do not fit the integers: such a power stays)
RECURSIVE HasSinCos(_)
HasSinCos(e) == IsF(e, SinCos) \/ \E j \in 1..Len(Args(e)) : HasSinCos(Args(e)[j])
RECURSIVE OneStep(_)
OneStep(e) == /\ IsProd(e) => \A j \in 1..Len(e[2]) : TrigFactor(e[2][j]) \/ ~HasSinCos(e[2][j])
              /\ IsPow(e) => IF IsF(e[2], SinCos) THEN ~(IsSmall(e[3]) /\ Abs(e[3][2]) > 100) ELSE ~HasSinCos(e[2])
              /\ \A j \in 1..Len(Args(e)) : OneStep(Args(e)[j])
Clean(e) == NormalFaults(e) = <<>> /\ \A j \in 1..Len(SubTerms(e)) : LET t == SubTerms(e)[j] IN t[1] # "U" /\ ~(IsPow(t) /\ IsRat(t[2]) /\ IsRat(t[3]))
\* a power of a product can be split by reduction later
SplitPowers(e) == \A j \in 1..Len(SubTerms(e)) : LET t == SubTerms(e)[j] IN ~(IsPow(t) /\ IsProd(t[2]))
=============================================================================
