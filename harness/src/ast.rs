//! JSON form of expressions, shared with spec/Terms.tla:
//! ["U"] ["q",n,d] ["Q",sign,nlimbs,dlimbs] ["e"] ["pi"] ["v",name]
//! ["+",[..]] ["*",[..]] ["^",b,e] ["f",name,arg] ["log",base,arg]
use calcu_rs::atom::{Atom, Expr, Func, Irrational, Prod, Real, Sum};
use calcu_rs::rational::Rational;
use calcu_rs::SymbolicExpr;
use serde_json::{json, Value};

pub const SMALL: i128 = 1 << 30;

fn limbs(mut n: u128) -> Value {
    let mut v = vec![];
    while n > 0 {
        v.push(json!((n % 10000) as u64));
        n /= 10000;
    }
    Value::Array(v)
}

pub fn rat(r: &Rational) -> Value {
    let (n, d) = (r.numer(), r.denom());
    if n.abs() < SMALL && d.abs() < SMALL {
        json!(["q", n as i64, d as i64])
    } else {
        let neg = (n < 0) != (d < 0);
        json!(["Q", if neg { -1 } else { 1 }, limbs(n.unsigned_abs()), limbs(d.unsigned_abs())])
    }
}

pub fn real(r: &Real) -> Value {
    match r {
        Real::Rational(r) => rat(r),
        Real::Irrational(Irrational::E) => json!(["e"]),
        Real::Irrational(Irrational::PI) => json!(["pi"]),
    }
}

/// the number of nodes, counted up to the cap; too big as well if nested too deeply to be written down
pub fn nodes(e: &Expr, cap: usize) -> usize {
    if deep(e, 55) {
        return 5 * cap;
    }
    count(e, cap)
}

fn deep(e: &Expr, left: usize) -> bool {
    left == 0 || e.iter_args().any(|a| deep(a, left - 1))
}

fn count(e: &Expr, cap: usize) -> usize {
    let mut n = 1;
    for a in e.iter_args() {
        if n > cap {
            return n;
        }
        n += count(a, cap - n.min(cap));
    }
    n
}

pub fn enc(e: &Expr) -> Value {
    match e.atom() {
        Atom::Undef => json!(["U"]),
        Atom::Rational(r) => rat(r),
        Atom::Irrational(Irrational::E) => json!(["e"]),
        Atom::Irrational(Irrational::PI) => json!(["pi"]),
        Atom::Var(v) => json!(["v", v.to_string()]),
        Atom::Sum(s) => json!(["+", s.args.iter().map(enc).collect::<Vec<_>>()]),
        Atom::Prod(p) => json!(["*", p.args.iter().map(enc).collect::<Vec<_>>()]),
        Atom::Pow(p) => json!(["^", enc(p.base()), enc(p.exponent())]),
        Atom::Func(Func::Log(b, x)) => json!(["log", real(b), enc(x)]),
        Atom::Func(f) => json!(["f", fname(f), enc(&f.args()[0])]),
    }
}

fn fname(f: &Func) -> &'static str {
    match f {
        Func::Sin(_) => "sin",
        Func::ArcSin(_) => "arcsin",
        Func::Cos(_) => "cos",
        Func::ArcCos(_) => "arccos",
        Func::Tan(_) => "tan",
        Func::ArcTan(_) => "arctan",
        Func::Sec(_) => "sec",
        Func::ArcSec(_) => "arcsec",
        Func::Cot(_) => "cot",
        Func::ArcCot(_) => "arccot",
        Func::Csc(_) => "csc",
        Func::ArcCsc(_) => "arccsc",
        Func::Log(..) => unreachable!(),
    }
}

fn unlimb(v: &Value) -> i128 {
    v.as_array().unwrap().iter().rev().fold(0i128, |a, l| a * 10000 + l.as_i64().unwrap() as i128)
}

pub fn dec_rat(v: &Value) -> Rational {
    let a = v.as_array().unwrap();
    match a[0].as_str().unwrap() {
        "q" => Rational::new(a[1].as_i64().unwrap() as i128, a[2].as_i64().unwrap() as i128),
        "Q" => Rational::new(a[1].as_i64().unwrap() as i128 * unlimb(&a[2]), unlimb(&a[3])),
        t => panic!("harness: not a rational: {t}"),
    }
}

pub fn dec_real(v: &Value) -> Real {
    match v[0].as_str().unwrap() {
        "e" => Real::Irrational(Irrational::E),
        "pi" => Real::Irrational(Irrational::PI),
        _ => Real::Rational(dec_rat(v)),
    }
}

pub fn apply_func(name: &str, x: &Expr) -> Expr {
    match name {
        "sin" => Expr::sin(x),
        "arcsin" => Expr::arc_sin(x),
        "cos" => Expr::cos(x),
        "arccos" => Expr::arc_cos(x),
        "tan" => Expr::tan(x),
        "arctan" => Expr::arc_tan(x),
        "sec" => Expr::sec(x),
        "arcsec" => Expr::arc_sec(x),
        "cot" => Expr::cot(x),
        "arccot" => Expr::arc_cot(x),
        "csc" => Expr::csc(x),
        "arccsc" => Expr::arc_csc(x),
        "ln" => Expr::ln(x),
        "log10" => Expr::log10(x),
        "exp" => Expr::exp(x),
        "sqrt" => Expr::sqrt(x),
        _ => panic!("harness: function {name}"),
    }
}

/// literal construction: the node shapes are exactly those of the JSON
pub fn dec(v: &Value) -> Expr {
    let a = v.as_array().expect("ast");
    let list = |v: &Value| v.as_array().unwrap().iter().map(dec).collect::<Vec<_>>();
    match a[0].as_str().unwrap() {
        "U" => Expr::undef(),
        "q" | "Q" => Expr::from(dec_rat(v)),
        "e" => Expr::e(),
        "pi" => Expr::pi(),
        "v" => Expr::var(a[1].as_str().unwrap()),
        "+" => Atom::Sum(Sum { args: list(&a[1]) }).into(),
        "*" => Atom::Prod(Prod { args: list(&a[1]) }).into(),
        "^" => Expr::pow_raw(dec(&a[1]), dec(&a[2])),
        "/" => Expr::div_raw(dec(&a[1]), dec(&a[2])),
        "f" => apply_func(a[1].as_str().unwrap(), &dec(&a[2])),
        "log" => Expr::log(dec_real(&a[1]), dec(&a[2])),
        t => panic!("harness: tag {t}"),
    }
}

/// construction through the arithmetic operations, bottom-up (as `expr!` does)
pub fn build(v: &Value) -> Expr {
    let a = v.as_array().expect("ast");
    let fold = |v: &Value, f: fn(Expr, Expr) -> Expr, unit: Expr| {
        v.as_array().unwrap().iter().map(build).reduce(f).unwrap_or(unit)
    };
    match a[0].as_str().unwrap() {
        "+" => fold(&a[1], |x, y| Expr::add(x, y), Expr::zero()),
        "*" => fold(&a[1], |x, y| Expr::mul(x, y), Expr::one()),
        "^" => Expr::pow(build(&a[1]), build(&a[2])),
        "f" => apply_func(a[1].as_str().unwrap(), &build(&a[2])),
        "log" => Expr::log(dec_real(&a[1]), build(&a[2])),
        "-" => Expr::sub(build(&a[1]), build(&a[2])),
        "/" => Expr::div(build(&a[1]), build(&a[2])),
        _ => dec(v),
    }
}

/// a float as the exact fraction it stands for: [sign, numerator limbs, denominator limbs]
pub fn float(f: f64) -> Value {
    if !f.is_finite() {
        return json!([9, [], []]);
    }
    let bits = f.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i64;
    let frac = bits & ((1 << 52) - 1);
    let (mut m, mut e) = if exp == 0 { (frac, -1074) } else { (frac | (1 << 52), exp - 1075) };
    if m == 0 {
        return json!([0, [], [1]]);
    }
    while m % 2 == 0 {
        m /= 2;
        e += 1;
    }
    let big = |mut m: u64, twos: i64| {
        let mut l: Vec<u64> = vec![];
        while m > 0 {
            l.push(m % 10000);
            m /= 10000;
        }
        for _ in 0..twos {
            let mut c = 0;
            for d in l.iter_mut() {
                c += *d * 2;
                *d = c % 10000;
                c /= 10000;
            }
            if c > 0 {
                l.push(c);
            }
        }
        l
    };
    json!([if f < 0.0 { -1 } else { 1 }, big(m, e.max(0)), big(1, (-e).max(0))])
}
