------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* The numbers in which expressions are interpreted.                       *)
(*                                                                         *)
(* An elementary function cannot be evaluated exactly over the reals, and  *)
(* floating point can neither accept nor refute an identity for certain.   *)
(* Expressions are therefore interpreted in a *tower* of small prime       *)
(* fields ("nodes"), in which the laws the library may use hold exactly:   *)
(*   - node i is the field with Node[i].p elements;                        *)
(*   - its "positive" elements are the subgroup P_i of prime order q_i;    *)
(*     e is the generator of P_i, exponents live in the field of node      *)
(*     Node[i].es (whose characteristic is q_i), so that                   *)
(*         x^(a+b) = x^a x^b, (x^a)^b = x^(ab), (xy)^a = x^a y^a on P_i,   *)
(*     and ln is the discrete logarithm, from node Node[i].ep to node i;   *)
(*   - angles live in the field of node Node[i].ts (characteristic r_i);   *)
(*     (cos u, sin u) is the u-th power of a point of order r_i on the     *)
(*     unit circle of node i, so that the addition theorems hold exactly.  *)
(* FieldsLaws.tla has TLC check all of these laws on the tables.           *)
(* UD (= -1) is the value of an undefined expression.                      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Json
LOCAL INSTANCE TLC

UD == -1
LOCAL Tab == ndJsonDeserialize("tables.ndjson")[1]
Node == Tab.nodes
NNodes == Len(Node)
K == Tab.K                  \* number of sample points
Home == Tab.home            \* home node of each sample point
Mixed == Tab.mixed          \* 1 where variables may be negative
PiTab == Tab.pi
Env == Tab.env
EnvVars == DOMAIN Env

P(i) == Node[i].p
LogAt(i, v) == Node[i].log[v + 1]
IsPos(i, v) == Node[i].q # 0 /\ v >= 0 /\ LogAt(i, v) >= 0

RECURSIVE PowNat(_, _, _)
PowNat(x, n, p) ==
    IF n = 0 THEN 1 % p
    ELSE LET h == PowNat((x * x) % p, n \div 2, p) IN IF n % 2 = 1 THEN (h * x) % p ELSE h
InvP(x, p) == PowNat(x, p - 2, p)

\* arithmetic at node i; UD is absorbing
FAdd(i, a, b) == IF a < 0 \/ b < 0 THEN UD ELSE (a + b) % P(i)
FSub(i, a, b) == IF a < 0 \/ b < 0 THEN UD ELSE (a - b) % P(i)
FMul(i, a, b) == IF a < 0 \/ b < 0 THEN UD ELSE (a * b) % P(i)
FInv(i, a) == IF a <= 0 THEN UD ELSE InvP(a, P(i))
FDiv(i, a, b) == FMul(i, a, FInv(i, b))
FNeg(i, a) == IF a < 0 THEN UD ELSE (-a) % P(i)

\* integer power; 0^0 and 0^-n are undefined
FIPow(i, x, n) ==
    IF x < 0 THEN UD
    ELSE IF x = 0 THEN (IF n > 0 THEN 0 ELSE UD)
    ELSE IF Node[i].q # 0 /\ LogAt(i, x) >= 0
         THEN Node[i].exp[((LogAt(i, x) * (n % Node[i].q)) % Node[i].q) + 1]
    ELSE PowNat(x, n % (P(i) - 1), P(i))

\* power of a positive x by an exponent u of node es(i)
FPow(i, x, u) ==
    IF x < 0 \/ u < 0 \/ Node[i].es = 0 THEN UD
    ELSE IF LogAt(i, x) < 0 THEN UD
    ELSE Node[i].exp[((LogAt(i, x) * u) % Node[i].q) + 1]

\* n/d in node i
FRat(i, n, d) == LET dd == d % P(i) IN
    IF dd = 0 THEN UD ELSE IF dd = 1 THEN n % P(i) ELSE ((n % P(i)) * InvP(dd, P(i))) % P(i)

\* a number given by base-10000 limbs, least significant first
FLimbs(i, l) == FoldRight(LAMBDA d, acc : (acc * 10000 + d) % P(i), l, 0)

FE(i) == IF Node[i].q = 0 THEN UD ELSE Node[i].g
FCos(i, u) == IF u < 0 \/ Node[i].ts = 0 THEN UD ELSE Node[i].co[u + 1]
FSin(i, u) == IF u < 0 \/ Node[i].ts = 0 THEN UD ELSE Node[i].si[u + 1]

\* opaque functions: the specification assumes nothing about them except that equal
\* arguments give equal values (and oddness of those that are odd)
FOpaque(i, name, u) ==
    IF u < 0 \/ (u = 0 /\ name \in {"arcsec", "arccsc"}) THEN UD
    ELSE LET p == P(i)
             c3 == (u * ((u * u) % p)) % p
         IN CASE name = "arcsin" -> (c3 * 17 + u * 5) % p
              [] name = "arctan" -> (c3 * 29 + u * 11) % p
              [] name = "arccsc" -> (c3 * 37 + u * 13) % p
              [] name = "arccos" -> (((u * u) % p) * 41 + c3 * 3 + u * 7 + 19) % p
              [] name = "arcsec" -> (((u * u) % p) * 43 + c3 * 31 + u * 2 + 23) % p
              [] name = "arccot" -> (((u * u) % p) * 47 + c3 * 11 + u * 3 + 3) % p
=============================================================================
