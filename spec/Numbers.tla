------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Exact rational numbers, as the library's numbers must behave.           *)
(* Numbers too big for TLC's integers are decided by residues modulo       *)
(* several primes (equality) and by limbs (sign, size).                    *)
(***************************************************************************)
EXTENDS Api

Primes == <<28319, 14159, 7079, 3539, 46337, 46327, 45007, 39989>>
Limbs(l, p) == FoldRight(LAMBDA d, acc : (acc * 10000 + d) % p, l, 0)
NumM(r, p) == IF r[1] = "q" THEN r[2] % p ELSE (r[2] * Limbs(r[3], p)) % p
DenM(r, p) == IF r[1] = "q" THEN r[3] % p ELSE Limbs(r[4], p)

\* a = b as fractions (no division): compared modulo every prime
M(p, x, y) == (x * y) % p
EqFrac(r, n(_), d(_)) == \A j \in 1..Len(Primes) : LET p == Primes[j] IN M(p, NumM(r, p), d(p)) = M(p, n(p), DenM(r, p))

\* lowest terms with positive denominator (decided exactly for small numbers)
Canonical(r) == IF r[1] = "q" THEN r[3] > 0 /\ (IF r[2] = 0 THEN r[3] = 1 ELSE GCD(Abs(r[2]), r[3]) = 1)
                ELSE r[4] # <<>>

\* numbers of any size: limbs base 10000, least significant first, no leading zero
RECURSIVE ToL(_)
ToL(n) == IF n = 0 THEN <<>> ELSE <<n % 10000>> \o ToL(n \div 10000)
NumL(r) == IF r[1] = "q" THEN ToL(Abs(r[2])) ELSE r[3]
DenL(r) == IF r[1] = "q" THEN ToL(Abs(r[3])) ELSE r[4]
SignOf(r) == IF r[2] < 0 THEN -1 ELSE IF r[2] > 0 THEN 1 ELSE 0
Limb(l, j) == IF j <= Len(l) THEN l[j] ELSE 0
RECURSIVE Carry(_, _)
Carry(s, c) == IF s = <<>> THEN ToL(c) ELSE <<(s[1] + c) % 10000>> \o Carry(Tail(s), (s[1] + c) \div 10000)
RECURSIVE Trim(_)
Trim(l) == IF l # <<>> /\ l[Len(l)] = 0 THEN Trim(SubSeq(l, 1, Len(l) - 1)) ELSE l
LAddV(l, m) == LET n == IF Len(l) > Len(m) THEN Len(l) ELSE Len(m)
                   cols == TLCEval([j \in 1..n |-> Limb(l, j) + Limb(m, j)])
               IN TLCEval(Trim(Carry(cols, 0)))
LAdd(x, y) == LET l == TLCEval(x) m == TLCEval(y) IN LAddV(l, m)
LScale(l, d) == TLCEval(Carry([j \in 1..Len(l) |-> l[j] * d], 0))
\* schoolbook multiplication, the most significant limb of m first
LMulV(l, m) == FoldRight(LAMBDA d, acc : LAddV(LScale(l, d), TLCEval(IF acc = <<>> THEN <<>> ELSE <<0>> \o acc)), m, <<>>)
LMul(x, y) == LET l == TLCEval(x) m == TLCEval(y) IN LMulV(l, m)
LCmp(l, m) == IF Len(l) # Len(m) THEN (IF Len(l) < Len(m) THEN -1 ELSE 1)
              ELSE LET js == {j \in 1..Len(l) : l[j] # m[j]} IN
                   IF js = {} THEN 0 ELSE LET j == CHOOSE h \in js : \A i \in js : i <= h IN IF l[j] < m[j] THEN -1 ELSE 1
CmpRat(a, b) == IF SignOf(a) # SignOf(b) THEN (IF SignOf(a) < SignOf(b) THEN -1 ELSE 1)
                ELSE SignOf(a) * LCmp(LMul(NumL(a), DenL(b)), LMul(NumL(b), DenL(a)))
IsIntL(r) == DenL(r) = <<1>>
IsNum(r, sign, l, m) == SignOf(r) = sign /\ NumL(r) = l /\ DenL(r) = m
OddL(l) == l # <<>> /\ l[1] % 2 = 1

\* 2^127 - 1, the largest integer of the library
MaxL == <<5727, 8410, 7158, 7303, 3168, 2317, 469, 8346, 1411, 170>>
Fits(l) == LCmp(l, MaxL) <= 0
PowFits(l, n) == FoldLeft(LAMBDA acc, j : IF acc = <<>> THEN <<>> ELSE LET m == LMul(acc, l) IN IF Fits(m) THEN m ELSE <<>>,
                          <<1>>, [j \in 1..n |-> j]) # <<>>
PowerFits(r, n) == LET big == IF LCmp(NumL(r), DenL(r)) >= 0 THEN NumL(r) ELSE DenL(r) IN
                   big = <<1>> \/ n = 0 \/ (n <= 127 /\ PowFits(big, n))

SmallPair(a, b) == a[1] = "q" /\ b[1] = "q" /\ Abs(a[2]) < 30000 /\ a[3] < 30000 /\ Abs(b[2]) < 30000 /\ b[3] < 30000
Sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
FloorDiv(n, d) == n \div d       \* TLA+ division rounds down
TruncDiv(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)

RECURSIVE SpellNat(_)
SpellNat(n) == IF n < 10 THEN <<ToString(n)>> ELSE Append(SpellNat(n \div 10), ToString(n % 10))
SpellInt(n) == IF n < 0 THEN <<"-">> \o SpellNat(-n) ELSE SpellNat(n)
SpellRat(r) == IF r[3] = 1 THEN SpellInt(r[2]) ELSE SpellInt(r[2]) \o <<"/">> \o SpellNat(r[3])

Is(r, n, d) == r = Q(n, d) \/ (IsSmall(r) /\ GCD(Abs(n), d) # 0 /\ r = Q(n \div GCD(Abs(n), d), d \div GCD(Abs(n), d)))

\* the float f (its exact value) is within one part in 10^12 of sg * n / d
Ten12 == <<0, 0, 0, 1>>
FloatNear(f, sg, n, d) ==
    /\ f[1] = sg
    /\ sg # 0 => LET v == LMul(f[2], d)  w == LMul(n, f[3])  v12 == LMul(v, Ten12) IN
                /\ LCmp(v12, LMul(w, LAdd(Ten12, <<1>>))) <= 0
                /\ LCmp(LMul(w, Ten12), LMul(v, LAdd(Ten12, <<1>>))) <= 0

JudgeRat(a, b, x) ==
    LET an(p) == NumM(a, p)  ad(p) == DenM(a, p)
        bn(p) == NumM(b, p)  bd(p) == DenM(b, p)
        sum(r) == EqFrac(r, LAMBDA p : (M(p, an(p), bd(p)) + M(p, bn(p), ad(p))) % p, LAMBDA p : M(p, ad(p), bd(p)))
        dif(r) == EqFrac(r, LAMBDA p : (M(p, an(p), bd(p)) - M(p, bn(p), ad(p))) % p, LAMBDA p : M(p, ad(p), bd(p)))
        mul(r) == EqFrac(r, LAMBDA p : M(p, an(p), bn(p)), LAMBDA p : M(p, ad(p), bd(p)))
        quo(r) == EqFrac(r, LAMBDA p : M(p, an(p), bd(p)), LAMBDA p : M(p, ad(p), bn(p)))
        same(r) == EqFrac(r, an, ad)
        keys == DOMAIN x
        has(K2, ok(_)) == \A k \in K2 \cap keys : ok(x[k]) /\ Canonical(x[k])
        canon == Canonical(a) /\ Canonical(b)
        s == x.self
        n == NumL(s)  d == DenL(s)  sg == SignOf(s)
        one == <<1>>
    IN    Check("C16", has({"add", "addr", "adda", "addar"}, sum), "wrong-sum")
       \o Check("C16", has({"sub", "subr", "suba", "subar"}, dif), "wrong-difference")
       \o Check("C16", has({"mul", "mulr", "mula", "mular"}, mul), "wrong-product")
       \o Check("C16", has({"div", "divr", "diva", "divar"}, quo), "wrong-quotient")
       \* operations are refused only when numbers get big
       \o Check("C16", "f64" \in keys /\ FloatNear(x.f64, sg, n, d), "wrong-approximation")
       \o Check("C16", x.lim = <<>> \/ (LET al == NumL(a) ad2 == DenL(a) bl == NumL(b) bd2 == DenL(b) IN
                                        ~(Fits(LAdd(LMul(al, bd2), LMul(bl, ad2))) /\ Fits(LMul(al, bl)) /\ Fits(LMul(ad2, bd2)))), "small-operation-refused")
       \o Check("C16", same(s) /\ Canonical(s) /\ (s = a \/ ~Canonical(a)), "not-canonical")
       \o Check("C16", \A j \in 1..Len(x.from) : x.from[j] = s, "constructors-differ")
       \o Check("C16", ~canon \/ x.eq = (a = b), "wrong-equality")
       \o (IF ~canon THEN <<>> ELSE
              LET cmp == CmpRat(a, b) IN
                 Check("C16", ("cmp" \in keys => x.cmp = cmp) /\ ("ops" \in keys => x.ops = <<cmp < 0, cmp <= 0, cmp > 0, cmp >= 0>>)
                              /\ ("mm" \in keys => x.mm = <<IF cmp > 0 THEN b ELSE a, IF cmp > 0 THEN a ELSE b>>), "wrong-order")
              \o (IF "xcmp" \in keys THEN Check("C12", x.xcmp = cmp, "numbers-out-of-order") ELSE <<>>))
       \o Check("C16", "inv" \in keys => IF sg = 0 THEN x.inv = <<>> ELSE Len(x.inv) = 1 /\ IsNum(x.inv[1], sg, d, n), "wrong-inverse")
       \o Check("C16", "abs" \in keys => IsNum(x.abs, Abs(sg), n, d), "wrong-absolute-value")
       \o Check("C16", "floor" \in keys =>
                    LET f == NumL(x.floor)  fd == LMul(f, d) IN
                    /\ IsIntL(x.floor)
                    /\ IF sg >= 0 THEN SignOf(x.floor) >= 0 /\ LCmp(fd, n) <= 0 /\ LCmp(n, LAdd(fd, d)) < 0
                       ELSE SignOf(x.floor) < 0 /\ LCmp(n, fd) <= 0 /\ LCmp(fd, LAdd(n, d)) < 0, "wrong-floor")
       \o Check("C16", "quot" \in keys =>
                    LET q == NumL(x.quot)  qd == LMul(q, d) IN
                    /\ IsIntL(x.quot) /\ LCmp(qd, n) <= 0 /\ LCmp(n, LAdd(qd, d)) < 0 /\ SignOf(x.quot) \in {0, sg}
                    /\ EqFrac(x.rem, LAMBDA p : (an(p) - M(p, NumM(x.quot, p), ad(p))) % p, ad) /\ Canonical(x.rem), "wrong-quotient-or-remainder")
       \o Check("C16", x.toint = (IF d = one THEN <<s>> ELSE <<>>), "wrong-integer-test")
       \o Check("C16", x.pr = <<sg = 0, sg = 1 /\ n = one /\ d = one, sg = -1 /\ n = one /\ d = one, sg = 1 /\ n = <<2>> /\ d = one, sg = -1 /\ n = <<2>> /\ d = one,
                                sg > 0, sg < 0, d = one, d # one, d = one /\ ~OddL(n), d = one /\ OddL(n)>>, "wrong-predicate")
       \o (IF SmallPair(a, b) /\ canon THEN
                 Check("C16", x.str = SpellRat(a), "wrong-spelling")
              \o Check("C16", IF a[2] = 0 /\ b[2] = 0 THEN TRUE
                              ELSE IF a[3] # b[3] THEN x.gcd = <<>>
                              ELSE LET g == GCD(Abs(a[2]), Abs(b[2])) IN Len(x.gcd) = 1 /\ EqFrac(x.gcd[1], LAMBDA p : g % p, LAMBDA p : a[3] % p),
                       "wrong-common-divisor")
           ELSE <<>>)

\* x^y = pow * x^rest
JudgeRatPow(a, b, x) ==
    LET whole == PowT(a, b)
             got == ProdT(<<x.p, PowT(a, x.r)>>)
         IN Vd("C16", IF x.r = Zero THEN Compat(whole, x.p)
                      ELSE IF Compat(whole, got) \in {"ok", "vacuous"} THEN Compat(whole, got) ELSE Compat(whole, PowT(x.p, x.r)))
            \o Check("C16", x.b = (IF x.r = Zero THEN <<x.p>> ELSE <<>>), "wrong-basic-power")
            \* the whole part of the power is computed whenever it fits
            \o Check("C16", ~(b[1] = "q") \/ ~PowerFits(a, Abs(b[2]) \div b[3]) \/ (IsSmall(x.r) /\ (x.r = Zero <=> b[2] % b[3] = 0) /\ Abs(x.r[2]) < x.r[3]), "power-not-computed")

------------------------------------------------------------------------------
(* real numbers: rationals, e and pi.  A rational with a denominator below  *)
(* the sum of theirs is not between two neighbouring convergents.           *)
Below(r, n, d) == r[2] * d <= n * r[3]
\* 10^18 times e and pi, rounded down
Ten18 == <<0, 0, 0, 0, 100>>
PiL == <<3238, 8979, 6535, 1592, 314>>
EL == <<5235, 5904, 8284, 8281, 271>>
CmpRatNamed(r, c) == IF r[1] = "Q" THEN (IF SignOf(r) < 0 THEN -1
                                         ELSE IF LCmp(LMul(NumL(r), Ten18), LMul(DenL(r), IF c[1] = "pi" THEN PiL ELSE EL)) <= 0 THEN -1 ELSE 1)
                     ELSE IF c[1] = "pi" THEN (IF Below(r, 103993, 33102) THEN -1 ELSE 1)
                     ELSE (IF Below(r, 25946, 9545) THEN -1 ELSE 1)
RealCmp(a, b) ==
    IF IsRat(a) /\ IsRat(b) THEN CmpRat(a, b)
    ELSE IF IsRat(a) THEN CmpRatNamed(a, b)
    ELSE IF IsRat(b) THEN -CmpRatNamed(b, a)
    ELSE IF a = b THEN 0 ELSE IF a[1] = "e" THEN -1 ELSE 1
FloatReal(f, r) == IF r[1] = "pi" THEN FloatNear(f, 1, PiL, Ten18)
                   ELSE IF r[1] = "e" THEN FloatNear(f, 1, EL, Ten18)
                   ELSE FloatNear(f, SignOf(r), NumL(r), DenL(r))
JudgeReal(a, b, x) ==
    LET c == RealCmp(a, b) IN
       Check("C16", FloatReal(x.f[1], a) /\ FloatReal(x.f[2], b), "wrong-approximation")
    \o
       Check("C12", x.c = c /\ x.r = -c /\ x.p = c, "numbers-out-of-order")
    \o Check("C12", x.eq = (a = b) /\ x.at = <<TRUE, a = b, a = b>> /\ x.xs = <<a, b>>, "equality-is-not-structural")

\* rows of Pascal's triangle
RECURSIVE PascalRow(_)
PascalRow(n) == IF n = 0 THEN <<1>>
                ELSE LET p == TLCEval(PascalRow(n - 1)) IN [j \in 1..(n + 1) |-> (IF j = 1 THEN 0 ELSE p[j - 1]) + (IF j > n THEN 0 ELSE p[j])]
Binomial(n, k) == IF k < 0 \/ k > n THEN 0 ELSE PascalRow(n)[k + 1]
=============================================================================
