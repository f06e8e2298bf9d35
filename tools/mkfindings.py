import subprocess
P={
'9b7cb54':('C14', '2*3^x was printed as 23^x and 3*3 as 33'),
'3684e72':('C14', 'sin(x)^(2/3) was printed as sin^2/3(x)'),
'5748b76':('C14', 'the logarithm to the base 3/2 was printed as log3/2(x)'),
'1c151cd':('C12','Ord of expressions: neither transitive nor consistent with Eq (sums/products compared structurally, Pow vs base)'),
'd8bf40b':('C16','comparison of rationals with large numerators/denominators gave the wrong order or panicked'),
'a169abd':('C03','reduce(2 + pi + 3): numbers on both sides of pi were not combined'),
'1b90c9c':('C03','reduce of a sum depended on the order of its operands'),
'51c9efe':('C12','Sum[x,y] == Sum[y,x] but their hashes differed'),
'5a6b278':('C01','0/0 became 1 (or 0) instead of undef'),
'9db7f78':('C16','Rational::div_rem(7/2) did not divide the numerator by the denominator'),
'ef03cb1':('C16','Rational::pow(2, 3/2) lost the fractional part of the exponent'),
'36a0556':('C01','2^1000 panicked or wrapped around instead of staying a power'),
'e30f2aa':('C06','try_as_div(1/x) gave -1 and x'),
'a925f0d':('C11','variables() panicked on sin(x) and other functions'),
'5f71773':('C11','seq_substitude replaced the pattern again inside of the replacement'),
'ff19025':('C07','contract_trig(x^2) changed or panicked on powers of something else than sin or cos'),
'62a9fc6':('C07','contract_trig of a sum added one to it'),
'84c3311':('C01','(x^2)^(1/2) became x'),
'5eef949':('C10','degree of x+1 in the generalised variable x+1 was not 1'),
'f7db9b7':('C10','x*y and y*x were collected as different monomials'),
'bbfa5d5':('C10','collect_terms rejected monomials and accepted non-polynomials'),
'd31520b':('C10','coeffs_of(x) of x*y^2 lost the power of y'),
'024020e':('C09','derivative of 0^(1/2) or ln(0)-like constants was undef instead of 0'),
'939e3ea':('C01','(x*y)^(1/2) was split into x^(1/2)*y^(1/2)'),
'18d337b':('C03','reduce left (x*y)^2 unsplit next to x and y'),
'837972f':('C13','reduce(undef + x) was not undef'),
'a87c65c':('C03','x^2 and x were not combined with a sum as base, since they were not neighbours'),
'033a762':('C19','rationalize(undef + x) did not terminate'),
'eb0ffb1':('C05','cancel/factor_out divided by a common factor of zero'),
'a35330d':('C03','pi*x*pi^2 was not combined to pi^3*x'),
'd55ff52':('C03','reduce left operands uncombined that only meet after others were combined'),
'dd76a6d':('C04','expand left (x+x)^2-like powers whose terms combined'),
'e5e6d1c':('C16','Rational::pow with a negative fractional exponent returned a remainder of the wrong sign'),
'a550a45':('C19','comparing deeply nested expressions took exponential time'),
'7bbc87b':('C04','expand((x*y)^(1/2)) split the power of the product'),
'4aabbfe':('C03','reduce left exponents such as x^(y+y) unreduced, so a second reduce changed the result'),
'bbea5fa':('C19','factorize_common_terms(x + y, Prod[]) recursed until the stack overflowed'),
'409e20c':('C12','rationals next to the f64 values of e and pi compared as equal to them'),
'cf0e57a':('C12','comparing Sum and Prod values returned Equal for different ones and disagreed with Expr comparison'),
'30afe38':('C07','contract_trig left products of sines and cosines, as of sin(x)*(sin(y)*cos(y)), when a factor contracted to a product'),
'76c5833':('C19','contract_trig(sin(x)*cos(x)^129) recursed until the stack overflowed')}
L=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h','95f07e0..'],capture_output=True,text=True).stdout.split()
import os
old=[l for l in open('/verif/known-findings.txt')] if os.path.exists('/verif/known-findings.txt') else []
keep=[l for l in old if l.startswith('known:')]
with open('/verif/known-findings.txt','w') as f:
    f.write("# known: property=<id> key=<16 hex> <what fails>      (suppresses exactly that failing call)\n# fixed: property=<id> <commit in /repo> <what failed>   (suppresses nothing)\n")
    for k in keep: f.write(k)
    for h in L:
        if h in P: f.write(f"fixed: property={P[h][0]} {h} {P[h][1]}\n")
        else: print("missing",h)
