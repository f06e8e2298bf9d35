-------------------------------- MODULE Macro --------------------------------
(***************************************************************************)
(* The source notation of the expr! macro and the expression it stands     *)
(* for.                                                                    *)
(*                                                                         *)
(*   sum     := product { ("+" | "-") product }      left to right         *)
(*   product := power { ("*" | "/") power }          left to right         *)
(*   power   := unary { "^" unary }                  left to right         *)
(*   unary   := [ "-" ] primary                                            *)
(*   primary := number | name | function "(" args ")" | "(" sum ")"        *)
(*            | "-" number     (only behind the minus sign of a unary)     *)
(*                                                                         *)
(* A source text is a sequence of tokens: <<"n",k>> or <<"n",k,spelling>>, *)
(* <<"N",limbs,spelling>> for big numbers, <<"i",name>>, <<"o",symbol>>,  *)
(* and <<"l",text>> for literals the notation does not know.               *)
(***************************************************************************)
EXTENDS Shapes

MBad == <<"bad">>
IsMBad(p) == p[1] = MBad
Op(c) == <<"o", c>>
TokAt(s, p) == IF p <= Len(s) THEN s[p] ELSE <<"o", "end">>

Unary1 == [sin |-> "sin", cos |-> "cos", tan |-> "tan", sec |-> "sec", csc |-> "csc", cot |-> "cot",
           arc_sin |-> "arcsin", arc_cos |-> "arccos", arc_tan |-> "arctan", arc_sec |-> "arcsec", arc_csc |-> "arccsc", arc_cot |-> "arccot"]
\* constants may be written as functions without arguments
Const0 == [pi |-> <<"pi">>, e |-> <<"e">>, zero |-> Q(0, 1), one |-> Q(1, 1), two |-> Q(2, 1), min_one |-> Q(-1, 1), min_two |-> Q(-2, 1)]
CallT(f, as) ==
    IF f \in DOMAIN Unary1 /\ Len(as) = 1 THEN Fn(Unary1[f], as[1])
    ELSE IF f = "exp" /\ Len(as) = 1 THEN PowT(<<"e">>, as[1])
    ELSE IF f = "sqrt" /\ Len(as) = 1 THEN PowT(as[1], Q(1, 2))
    ELSE IF f = "ln" /\ Len(as) = 1 THEN <<"log", <<"e">>, as[1]>>
    ELSE IF f = "log10" /\ Len(as) = 1 THEN <<"log", Q(10, 1), as[1]>>
    ELSE IF f \in DOMAIN Const0 /\ Len(as) = 0 THEN Const0[f]
    ELSE IF Len(as) # 2 THEN MBad
    ELSE CASE f = "add" -> SumT(as)
           [] f = "mul" -> ProdT(as)
           [] f = "sub" -> SubT(as[1], as[2])
           [] f = "div" -> DivT(as[1], as[2])
           [] f = "pow" -> PowT(as[1], as[2])
           [] OTHER -> MBad
IsNumTok(t) == t[1] \in {"n", "N"}
NumT(sign, t) == IF t[1] = "N" THEN <<"Q", sign, t[2], <<1>>>> ELSE Q(sign * t[2], 1)
NegNum(q) == IF q[1] = "Q" THEN <<"Q", -q[2], q[3], q[4]>> ELSE Q(-q[2], 1)
NameT(w) == IF w = "oo" THEN MBad ELSE IF w = "pi" THEN <<"pi">> ELSE IF w = "undef" THEN Undef ELSE V(w)

RECURSIVE MSum(_, _)
RECURSIVE MSumRest(_, _)
RECURSIVE MProd(_, _)
RECURSIVE MProdRest(_, _)
RECURSIVE MPow(_, _)
RECURSIVE MPowRest(_, _)
RECURSIVE MArgs(_, _)

MPrimary(s, p) ==
    LET t == TokAt(s, p) IN
    IF IsNumTok(t) THEN <<NumT(1, t), p + 1>>
    \* only reached behind a minus sign: a number may bring its own
    ELSE IF t = Op("-") /\ IsNumTok(TokAt(s, p + 1)) THEN <<NumT(-1, TokAt(s, p + 1)), p + 2>>
    ELSE IF t = Op("(")
    THEN LET r == MSum(s, p + 1) IN
         IF IsMBad(r) \/ TokAt(s, r[2]) # Op(")") THEN <<MBad, p>> ELSE <<r[1], r[2] + 1>>
    ELSE IF t[1] = "i"
    THEN IF TokAt(s, p + 1) = Op("(")
         THEN LET as == MArgs(s, p + 2) IN
              IF as[2] = 0 \/ TokAt(s, as[2]) # Op(")") THEN <<MBad, p>> ELSE <<CallT(t[2], as[1]), as[2] + 1>>
         ELSE <<NameT(t[2]), p + 1>>
    ELSE <<MBad, p>>
\* <<arguments, position behind them>>, position 0 if they cannot be read; a last comma may stand
MArgs(s, p) ==
    IF TokAt(s, p) = Op(")") THEN <<<<>>, p>>
    ELSE LET r == MSum(s, p) IN
         IF IsMBad(r) THEN <<<<>>, 0>>
         ELSE IF TokAt(s, r[2]) = Op(",")
         THEN LET more == MArgs(s, r[2] + 1) IN <<<<r[1]>> \o more[1], more[2]>>
         ELSE <<<<r[1]>>, r[2]>>
MUnary(s, p) ==
    IF TokAt(s, p) = Op("-")
    THEN LET r == MPrimary(s, p + 1) IN IF IsMBad(r) THEN r ELSE <<IF IsRat(r[1]) /\ (IsNumTok(TokAt(s, p + 1)) \/ TokAt(s, p + 1) = Op("-")) THEN NegNum(r[1]) ELSE Neg(r[1]), r[2]>>
    ELSE MPrimary(s, p)
MPow(s, p) == LET r == MUnary(s, p) IN IF IsMBad(r) THEN r ELSE MPowRest(s, r)
MPowRest(s, l) ==
    IF TokAt(s, l[2]) = Op("^")
    THEN LET r == MUnary(s, l[2] + 1) IN IF IsMBad(r) THEN r ELSE MPowRest(s, <<PowT(l[1], r[1]), r[2]>>)
    ELSE l
MProd(s, p) == LET r == MPow(s, p) IN IF IsMBad(r) THEN r ELSE MProdRest(s, r)
MProdRest(s, l) ==
    LET t == TokAt(s, l[2]) IN
    IF t \in {Op("*"), Op("/")}
    THEN LET r == MPow(s, l[2] + 1) IN
         IF IsMBad(r) THEN r ELSE MProdRest(s, <<IF t = Op("*") THEN ProdT(<<l[1], r[1]>>) ELSE DivT(l[1], r[1]), r[2]>>)
    ELSE l
MSum(s, p) == LET r == MProd(s, p) IN IF IsMBad(r) THEN r ELSE MSumRest(s, r)
MSumRest(s, l) ==
    LET t == TokAt(s, l[2]) IN
    IF t \in {Op("+"), Op("-")}
    THEN LET r == MProd(s, l[2] + 1) IN
         IF IsMBad(r) THEN r ELSE MSumRest(s, <<IF t = Op("+") THEN SumT(<<l[1], r[1]>>) ELSE SubT(l[1], r[1]), r[2]>>)
    ELSE l

RECURSIVE HasMBad(_)
HasMBad(e) == e = MBad \/ \E j \in 1..Len(Args(e)) : HasMBad(Args(e)[j])
ParseM(s) == LET r == MSum(s, 1) IN IF IsMBad(r) \/ r[2] # Len(s) + 1 THEN MBad ELSE IF HasMBad(r[1]) THEN MBad ELSE r[1]

JudgeMacro(src, r, x) ==
    LET t == ParseM(src) IN
    IF x.rej THEN <<<<"C15", IF t = MBad THEN "ok" ELSE "well-formed-source-rejected">>>>
    ELSE IF t = MBad THEN <<<<"C15", "ill-formed-source-accepted">>>>
    ELSE <<<<"C15", IF r[1] = r[2] THEN "ok" ELSE "differs-from-the-calls-it-stands-for">>, <<"C15", Compat(t, r[1])>>>>
=============================================================================
