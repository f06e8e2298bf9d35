use crate::ast::{apply_func, build, dec, dec_rat, dec_real, enc, float, nodes, rat};
use calcu_rs::atom::{Atom, Expr, Func, Prod, Real, Sum};
use calcu_rs::polynomial::{VarPow, VarSet, GPE};
use calcu_rs::rational::Rational;
use calcu_rs::SymbolicExpr;
use std::ops::ControlFlow;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

pub type Regs = Vec<Option<Expr>>;
const CAP: usize = 1500;

fn ord(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

pub fn hash(e: &Expr) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    e.hash(&mut h);
    format!("{:x}", h.finish())
}

fn vp(d: &VarPow, vars: &VarSet) -> Value {
    let v: Vec<Value> = vars.iter().map(|v| json!(d.degree_of(v).map(|d| *d as i64).unwrap_or(0))).collect();
    json!({"d": v, "t": d.total_deg() as i64})
}

fn opt(o: Option<Expr>) -> Value {
    match o {
        Some(e) => json!([enc(&e)]),
        None => json!([]),
    }
}
fn opti(o: Option<i128>) -> Value {
    match o {
        Some(e) => json!([e as i64]),
        None => json!([]),
    }
}
fn optr(o: Option<Rational>) -> Value {
    match o {
        Some(e) => json!([rat(&e)]),
        None => json!([]),
    }
}

enum Out {
    One(Expr),
    Many(Vec<Expr>),
    Both(Vec<Expr>, Box<dyn Fn() -> Value>),
    Data(Value),
}

// the accessors of the node itself: its operands, and what the node types say about it
fn view(x: &Expr) -> Value {
    let atom = x.atom();
    let mut each: Vec<Value> = vec![];
    atom.for_each_arg(|a| each.push(enc(a)));
    let iter: Vec<Value> = x.iter_args().map(enc).collect();
    let slice: Vec<Value> = atom.args().iter().map(enc).collect();
    let first = |a: Option<&Atom>| opt(a.map(|a| Expr::from(a.clone())));
    let node = match atom {
        Atom::Sum(s) => json!({"z": s.is_zero(), "u": s.is_undef(), "first": first(s.first()), "n": s.n_args()}),
        Atom::Prod(p) => json!({"z": p.is_zero(), "o": p.is_one(), "u": p.is_undef(), "first": first(p.first()), "n": p.n_args(), "term": opt(p.term())}),
        Atom::Pow(p) => json!({"b": enc(p.base()), "x": enc(p.exponent())}),
        Atom::Func(f) => {
            let log = f.try_unwrap_log_ref().ok().map(|(b, _)| Expr::from(b.clone()));
            json!({"name": f.name(), "trig": f.is_trig(), "nat": f.is_nat_log(), "natarg": opt(f.try_unwrap_nat_log_ref().cloned()), "base": opt(log),
                "two": opt(f.try_unwrap_log_base(&Real::Rational(Rational::from(2))).cloned())})
        }
        _ => json!({}),
    };
    json!({"args": each.clone(), "agree": each == iter && each == slice, "node": node})
}

pub fn exec(ins: &Value, regs: &mut Regs) -> Value {
    let a = ins.as_array().unwrap();
    let op = a[0].as_str().unwrap();
    // operands: every plain integer argument is a register
    let mut e: Vec<Expr> = vec![];
    for v in &a[1..] {
        let mut get = |v: &Value| -> bool {
            match v.as_u64() {
                Some(i) => match regs.get(i as usize - 1) {
                    Some(Some(x)) => {
                        e.push(x.clone());
                        true
                    }
                    _ => false,
                },
                None => true,
            }
        };
        let ok = get(v);
        if !ok {
            regs.push(None);
            return json!({"st": "skip"});
        }
    }
    match run(op, a, &e) {
        Out::One(x) => {
            if nodes(&x, CAP) > CAP {
                regs.push(None);
                return json!({"st": "big"});
            }
            let j = enc(&x);
            regs.push(Some(x));
            json!({"st": "ok", "r": [j]})
        }
        Out::Many(xs) => {
            if xs.iter().map(|x| nodes(x, CAP)).sum::<usize>() > 4 * CAP {
                regs.push(None);
                return json!({"st": "big"});
            }
            let r: Vec<Value> = xs.iter().map(enc).collect();
            regs.push(xs.into_iter().next());
            json!({"st": "ok", "r": r})
        }
        Out::Both(xs, ys) => {
            if xs.iter().map(|x| nodes(x, CAP)).sum::<usize>() > 4 * CAP {
                regs.push(None);
                return json!({"st": "big"});
            }
            let r: Vec<Value> = xs.iter().map(enc).collect();
            regs.push(xs.into_iter().next());
            json!({"st": "ok", "r": r, "x": ys()})
        }
        Out::Data(d) => {
            regs.push(None);
            json!({"st": "ok", "r": [], "x": d})
        }
    }
}

fn run(op: &str, a: &[Value], e: &[Expr]) -> Out {
    use Out::*;
    let pairs = || -> Vec<(&Expr, &Expr)> { e[1..].chunks(2).map(|c| (&c[0], &c[1])).collect() };
    match op {
        "lit" => One(dec(&a[1])),
        "build" => One(build(&a[1])),
        "add" => One(Expr::add(&e[0], &e[1])),
        "sub" => One(Expr::sub(&e[0], &e[1])),
        "mul" => One(Expr::mul(&e[0], &e[1])),
        "div" => One(Expr::div(&e[0], &e[1])),
        "pow" => One(Expr::pow(&e[0], &e[1])),
        "addraw" => One(Expr::add_raw(&e[0], &e[1])),
        "mulraw" => One(Expr::mul_raw(&e[0], &e[1])),
        "divraw" => One(Expr::div_raw(&e[0], &e[1])),
        "powraw" => One(Expr::pow_raw(&e[0], &e[1])),
        // every spelling of an operator
        "opforms" => {
            let (x, y) = (&e[0], &e[1]);
            macro_rules! forms {
                ($op:tt, $as:tt, $f:path) => {{
                    let mut t = x.clone();
                    t $as y;
                    let mut u = x.clone();
                    u $as y.clone();
                    vec![$f(x, y), x $op y, x $op y.clone(), x.clone() $op y, x.clone() $op y.clone(), t, u]
                }};
            }
            Many(match a[3].as_array().unwrap()[0].as_str().unwrap() {
                "add" => forms!(+, +=, Expr::add),
                "sub" => forms!(-, -=, Expr::sub),
                "mul" => forms!(*, *=, Expr::mul),
                _ => forms!(/, /=, Expr::div),
            })
        }
        "fn" => One(apply_func(a[2].as_array().unwrap()[0].as_str().unwrap(), &e[0])),
        "logb" => One(Expr::log(dec_real(&a[2]), &e[0])),
        "reduce" => One(e[0].reduce()),
        "reduceidem" => {
            let r = e[0].reduce();
            let rr = r.reduce();
            Many(vec![r, rr])
        }
        // reduction of the two / three operands combined in several orders and groupings
        "reduce2" => {
            let mk = |s: bool, v: Vec<Expr>| -> Expr {
                if s {
                    Atom::Sum(calcu_rs::atom::Sum { args: v }).into()
                } else {
                    Atom::Prod(calcu_rs::atom::Prod { args: v }).into()
                }
            };
            let mut r = vec![];
            for s in [true, false] {
                let (x, y, z) = (e[0].clone(), e[1].clone(), e[2].clone());
                for v in [
                    vec![x.clone(), y.clone(), z.clone()],
                    vec![x.clone(), z.clone(), y.clone()],
                    vec![y.clone(), x.clone(), z.clone()],
                    vec![y.clone(), z.clone(), x.clone()],
                    vec![z.clone(), x.clone(), y.clone()],
                    vec![z.clone(), y.clone(), x.clone()],
                    vec![mk(s, vec![x.clone(), y.clone()]), z.clone()],
                    vec![x.clone(), mk(s, vec![y.clone(), z.clone()])],
                ] {
                    r.push(mk(s, v).reduce());
                }
            }
            Many(r)
        }
        "expand" => One(e[0].expand()),
        "expandmain" => One(e[0].expand_main_op()),
        "distribute" => One(e[0].distribute()),
        "expandexp" => One(e[0].expand_exponential()),
        "expandtrig" => One(e[0].expand_trig()),
        "contracttrig" => One(e[0].contract_trig()),
        "substtrig" => One(e[0].substitute_trig()),
        "simptrig" => One(e[0].simplify_trig()),
        "expandln" => One(e[0].expand_ln()),
        "rationalize" => One(e[0].rationalize()),
        "factorout" => One(e[0].factor_out()),
        "cancel" => One(e[0].cancel()),
        // sorted, sorted again, sorted with all operands of sums and products the other way round;
        // and how neighbours compare in each sum and product of the result
        "sortargs" => {
            fn turn(e: &Expr) -> Expr {
                let mut e = e.clone().map_args(|a| *a = turn(a));
                if e.is_sum() || e.is_prod() {
                    e.args_mut().reverse();
                }
                e
            }
            fn neighbours(e: &Expr, out: &mut Vec<Value>) {
                if e.is_sum() || e.is_prod() {
                    out.push(e.args().windows(2).map(|w| w[0].cmp(&w[1]) as i32).collect());
                }
                e.args().iter().for_each(|a| neighbours(a, out));
            }
            let s = e[0].sort_args();
            let t = s.clone();
            Both(
                vec![s.clone(), s.sort_args(), turn(&e[0]).sort_args()],
                Box::new(move || {
                    let mut out = vec![];
                    neighbours(&t, &mut out);
                    Value::Array(out)
                }),
            )
        }
        "flatten" => One(e[0].flatten().clone()),
        "clone" => One(e[0].clone()),
        // the candidates, and the reduced results of the transformations one by one
        "simplify" => {
            let a = &e[0];
            let each = [
                a.expand(),
                a.expand_exponential(),
                a.expand_trig(),
                a.expand_ln(),
                a.contract_trig(),
                a.rationalize(),
                a.factor_out(),
                a.cancel(),
            ];
            let r = a.simplify();
            Both(r, Box::new(move || each.iter().map(|x| enc(&x.reduce())).collect()))
        }
        // differences of two spellings of the same polynomial
        "identity" => {
            let (a, b) = (&e[0], &e[1]);
            let zero = |d: Expr| d.expand().reduce();
            Many(vec![
                zero(a - a.expand()),
                zero(a * b - b.expand() * a.expand()),
                zero((a + b) * (a - b) - (a * a - b * b)),
                zero(Expr::pow(a + b, Expr::from(2)) - (Expr::pow(a, Expr::from(2)) + Expr::from(2) * a * b + b * b)),
            ])
        }
        // numerators of differences of two spellings of the same fraction
        "fracid" => {
            let (a, b, c) = (&e[0], &e[1], &e[2]);
            let zero = |d: Expr| d.rationalize().numerator().expand().reduce();
            Many(vec![
                zero(a / b - (a * c) / (b * c)),
                zero(a / b + b / c - (a * c + b * b) / (b * c)),
                zero(Expr::one() / (a / b + b / c) - (b * c) / (a * c + b * b)),
            ])
        }
        "trigid" => {
            let (a, b) = (&e[0], &e[1]);
            let zero = |d: Expr| d.simplify_trig().expand().reduce();
            Many(vec![
                zero(a - a.expand_trig()),
                zero(a - a.contract_trig()),
                zero(a * b - b.expand_trig() * a.contract_trig()),
            ])
        }
        "numden" => Many(vec![e[0].numerator(), e[0].denominator()]),
        "baseexp" => Many(vec![e[0].base(), e[0].exponent()]),
        "asdiv" => match e[0].try_as_div() {
            Some((n, d)) => Many(vec![n, d]),
            None => Many(vec![]),
        },
        "coeffterm" => Data(json!({"c": optr(e[0].rational_coeff()), "t": opt(e[0].non_rational_term())})),
        "bin" => match e[0].atom() {
            Atom::Sum(s) => {
                let (x, y) = s.as_binary_sum();
                Many(vec![x, y])
            }
            Atom::Prod(p) => {
                let (x, y) = p.as_binary_mul();
                Many(vec![x, y])
            }
            _ => Many(vec![]),
        },
        "sepfac" => {
            let (x, y) = e[0].separate_factors(&e[1]);
            Many(vec![x, y])
        }
        "sepsc" => {
            let (x, y) = calcu_rs::algos::separate_sin_cos(&e[0]);
            Many(vec![x, y])
        }
        "fct" => {
            let (f, (l, r)) = Expr::factorize_common_terms(&e[0], &e[1]);
            Many(vec![f, l, r, Expr::common_factors(&e[0], &e[1])])
        }
        "deriv" => One(e[0].derivative(&e[1])),
        "subst" => One(e[0].substitude(&e[1], &e[2])),
        "seqsubst" => One(e[0].seq_substitude(pairs())),
        "csubst" => {
            let p = pairs();
            One(match p.len() {
                1 => e[0].concurr_substitude([p[0]]),
                2 => e[0].concurr_substitude([p[0], p[1]]),
                _ => e[0].concurr_substitude([p[0], p[1], p[2]]),
            })
        }
        "freeof" => Data(json!({
            "f": e[0].free_of(&e[1]),
            "fs": e[0].free_of_set([&e[1]]),
            "fs2": e[0].free_of_set(e[1..].iter()),
        })),
        "vars" => {
            let mut v: Vec<Expr> = e[0].variables().into_iter().collect();
            v.sort();
            Many(v)
        }
        "subs" => Many(e[0].iter_compl_sub_exprs().cloned().collect()),
        "preds" => {
            let x = &e[0];
            Data(json!({
                "zero": x.is_zero(), "one": x.is_one(), "m1": x.is_min_one(), "neg": x.is_neg(), "pos": x.is_pos(),
                "int": x.is_int(), "even": x.is_even(), "odd": x.is_odd(), "num": x.is_number(), "pi": x.is_pi(), "e": x.is_e(),
                "irr": x.is_irreducible(), "atom": x.is_atom(), "expo": x.is_exponential(), "trig": x.is_trig(),
                "const": x.is_const(), "sin": x.is_sin(), "cos": x.is_cos(),
                "nargs": x.n_args(), "toint": opti(x.try_unwrap_int().filter(|i| i.abs() < crate::ast::SMALL)),
                "real": x.is_real(), "asreal": opt(x.try_as_real().map(Expr::from)), "same": x.try_as_real().map(|r| r == *x.atom()).unwrap_or(true),
                "ratand": x.is_rational_and(|r| r.is_int() && !r.is_zero()), "view": view(x),
            }))
        }
        "cmp" => {
            let (x, y) = (&e[0], &e[1]);
            fn node<T: Ord + Hash>(a: &T, b: &T) -> Value {
                let h = |x: &T| {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    x.hash(&mut h);
                    h.finish()
                };
                json!([a == b, ord(a.cmp(b)), ord(b.cmp(a)), h(a) == h(b), a.partial_cmp(b).map(ord).unwrap_or(9)])
            }
            let node = match (x.atom(), y.atom()) {
                (Atom::Sum(a), Atom::Sum(b)) => node(a, b),
                (Atom::Prod(a), Atom::Prod(b)) => node(a, b),
                (Atom::Pow(a), Atom::Pow(b)) => node(a, b),
                (Atom::Func(a), Atom::Func(b)) => node(a, b),
                (a, b) => node(a, b),
            };
            Data(json!({"node": node, "eq": x == y, "ne": x != y, "qe": y == x, "ab": ord(x.cmp(y)), "ba": ord(y.cmp(x)),
                "pab": x.partial_cmp(y).map(ord).unwrap_or(9), "h": hash(x) == hash(y),
                "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}))
        }
        // the whole comparison table of a pool of expressions
        "cmpm" => {
            let c: Vec<Vec<i64>> = e.iter().map(|x| e.iter().map(|y| ord(x.cmp(y))).collect()).collect();
            let q: Vec<Vec<bool>> = e.iter().map(|x| e.iter().map(|y| x == y).collect()).collect();
            let h: Vec<String> = e.iter().map(hash).collect();
            let mut s: Vec<usize> = (0..e.len()).collect();
            s.sort_by(|&i, &j| e[i].cmp(&e[j]));
            Data(json!({"c": c, "q": q, "h": h, "s": s.iter().map(|i| i + 1).collect::<Vec<_>>()}))
        }
        "disp" => Data(json!({
            "s": e[0].to_string().chars().map(|c| c as u32).collect::<Vec<_>>(),
            "a": format!("{}", e[0].atom()) == e[0].to_string() && e[0].fmt_ast().to_string() == e[0].to_string(),
        })),
        "serde" => {
            let s = serde_json::to_string(&e[0]).expect("serialize");
            let b: Expr = serde_json::from_str(&s).expect("deserialize");
            let s2 = serde_json::to_string(&b).expect("serialize again");
            let ok = b == e[0] && s == s2 && hash(&b) == hash(&e[0]);
            if !ok {
                return Data(json!({"ok": ok}));
            }
            One(b)
        }
        "poly" => {
            let vs: VarSet = e[1..].to_vec().into();
            let vs = &vs;
            let p = e[0].as_polynomial_view(vs);
            let mut co: Vec<Value> = vec![];
            for (d, c) in p.coeffs() {
                co.push(json!({"vp": vp(&d, vs), "c": enc(&c)}));
            }
            co.sort_by_key(|v| v.to_string());
            let per: Vec<Value> = e[1..]
                .iter()
                .map(|v| {
                    let mut m: Vec<(i128, Value)> = p.coeffs_of(v).into_iter().map(|(d, c)| (d, enc(&c))).collect();
                    m.sort_by_key(|x| x.0);
                    let by: Vec<Value> = m.iter().map(|(d, _)| opt(p.coeffs_of_deg(v, d))).collect();
                    json!({"deg": opti(p.degree_of(v)), "lead": opt(p.leading_coeff_of(v)),
                        "co": m.iter().map(|(d, c)| json!([*d as i64, c])).collect::<Vec<_>>(), "by": by,
                        "miss": opt(p.coeffs_of_deg(v, &97))})
                })
                .collect();
            Data(json!({"check": p.check(), "deg": opti(p.degree()), "co": co, "per": per, "col": opt(p.collect_terms())}))
        }
        "mono" => {
            let vs: VarSet = e[1..].to_vec().into();
            let vs = &vs;
            let m = e[0].as_monomial_view(vs);
            let c = match m.coeff() {
                Some((c, d)) => json!([{"vp": vp(&d, vs), "c": enc(&c)}]),
                None => json!([]),
            };
            let per: Vec<Value> = e[1..].iter().map(|v| opti(m.degree_of(v))).collect();
            Data(json!({"check": m.check(), "deg": opti(m.degree()), "co": c, "per": per}))
        }
        // exact rational arithmetic: the arguments are two rational literals
        "rat" => {
            let (x, y) = (dec_rat(&a[1]), dec_rat(&a[2]));
            let mut m = serde_json::Map::new();
            let mut lim: Vec<Value> = vec![];
            // every operation on its own: one that runs out of 128 bits is recorded as refused
            let mut put = |k: &str, f: &dyn Fn() -> Value| {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                match r {
                    Ok(v) => {
                        m.insert(k.to_string(), v);
                    }
                    Err(p) => {
                        let msg = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
                        if !msg.contains("overflow") {
                            std::panic::resume_unwind(p);
                        }
                        lim.push(json!(k));
                    }
                }
            };
            macro_rules! assign {
                ($k:literal, $op:tt, $y:expr) => {
                    put($k, &|| {
                        let mut t = x;
                        t $op $y;
                        rat(&t)
                    })
                };
            }
            put("add", &|| rat(&(x + y)));
            put("addr", &|| rat(&(x + &y)));
            put("sub", &|| rat(&(x - y)));
            put("subr", &|| rat(&(x - &y)));
            put("mul", &|| rat(&(x * y)));
            put("mulr", &|| rat(&(x * &y)));
            assign!("adda", +=, y);
            assign!("addar", +=, &y);
            assign!("suba", -=, y);
            assign!("subar", -=, &y);
            assign!("mula", *=, y);
            assign!("mular", *=, &y);
            if !y.is_zero() {
                put("div", &|| rat(&(x / y)));
                put("divr", &|| rat(&(x / &y)));
                assign!("diva", /=, y);
                assign!("divar", /=, &y);
            }
            put("inv", &|| optr(x.inverse()));
            put("abs", &|| rat(&x.abs()));
            put("floor", &|| rat(&Rational::new_int(x.floor())));
            put("quot", &|| rat(&x.div_rem().0));
            put("rem", &|| rat(&x.div_rem().1));
            put("toint", &|| optr(x.to_int().map(Rational::new_int)));
            put("gcd", &|| optr(if x.is_zero() && y.is_zero() { None } else { x.int_gcd(&y) }));
            put("cmp", &|| json!(ord(x.cmp(&y))));
            put("ops", &|| json!([x < y, x <= y, x > y, x >= y]));
            put("mm", &|| json!([rat(&std::cmp::min(x, y)), rat(&std::cmp::max(x, y))]));
            put("eq", &|| json!(x == y));
            put("xcmp", &|| json!(ord(Expr::from(x).cmp(&Expr::from(y)))));
            put("self", &|| rat(&x));
            put("f64", &|| float(x.f64_approx()));
            put("from", &|| {
                let (n, d) = (x.numer(), x.denom());
                let mut v = vec![rat(&Rational::from((n, d))), rat(&Rational::from((-n, -d))), rat(&(Rational::new_int(n) / Rational::new_int(d)))];
                if let (Ok(n), Ok(d)) = (i32::try_from(n), i32::try_from(d)) {
                    v.push(rat(&Rational::from((n, d))));
                    v.push(rat(&Rational::from((-n, -d))));
                }
                if d == 1 {
                    v.push(rat(&Rational::from(n)));
                    if let Ok(n) = i64::try_from(n) {
                        v.push(rat(&Rational::from(n)));
                    }
                    if let Ok(n) = u64::try_from(n) {
                        v.push(rat(&Rational::from(n)));
                    }
                    if let Ok(n) = i32::try_from(n) {
                        v.push(rat(&Rational::from(n)));
                    }
                    if let Ok(n) = u32::try_from(n) {
                        v.push(rat(&Rational::from(n)));
                    }
                }
                json!(v)
            });
            put("pr", &|| json!([x.is_zero(), x.is_one(), x.is_min_one(), x.is_two(), x.is_min_two(), x.is_pos(), x.is_neg(), x.is_int(), x.is_fraction(), x.is_even(), x.is_odd()]));
            put("str", &|| json!(x.to_string().chars().map(|c| c.to_string()).collect::<Vec<_>>()));
            m.insert("lim".into(), Value::Array(lim));
            Data(Value::Object(m))
        }
        "ratpow" => {
            let (x, y) = (dec_rat(&a[1]), dec_rat(&a[2]));
            let (p, r) = x.pow(y);
            Data(json!({"p": rat(&p), "r": rat(&r), "b": optr(x.pow_basic(y))}))
        }
        // operands accumulated one by one
        "accum" => {
            let (mut s, mut p, mut q) = (Sum::zero(), Prod::one(), Prod::one());
            for x in e {
                s.add_rhs(x);
                p.mul_rhs(x);
                q.mul_rhs_raw(x);
            }
            Many(vec![Atom::Sum(s).into(), Atom::Prod(p).into(), Atom::Prod(q).into()])
        }
        "powrec" => match e[0].atom() {
            Atom::Pow(p) => Many(vec![p.expand_pow_rec(true), p.expand_pow_rec(false), p.expand()]),
            _ => Many(vec![]),
        },
        "derivf" => match e[0].atom() {
            Atom::Func(f) => Many(vec![f.derivative(&e[1])]),
            _ => Many(vec![]),
        },
        // the reduction of a node by itself
        "reducetop" => match e[0].atom() {
            Atom::Sum(s) => Many(vec![s.reduce()]),
            Atom::Prod(p) => Many(vec![p.reduce()]),
            Atom::Pow(p) => Many(vec![p.reduce()]),
            Atom::Func(f) => Many(vec![f.reduce()]),
            _ => Many(vec![]),
        },
        // copies that are written to: the original stays what it was
        "mutate" => {
            let (x, y) = (&e[0], &e[1]);
            let k = a[3].as_array().unwrap()[0].as_u64().unwrap() as usize;
            let mut arg = x.clone();
            let n = arg.args_mut().len();
            if n > 0 {
                arg.args_mut()[k % n] = y.clone();
            }
            let mut atom = x.clone();
            *atom.atom_mut() = y.atom().clone();
            let all = x.clone().map_args(|a| *a = y.clone());
            let mut vars = x.clone();
            vars.for_each_compl_sub_expr(|s| {
                if s.is_var() {
                    *s = Expr::from(7);
                }
            });
            let mut outer = x.clone();
            outer.try_for_each_compl_sub_expr(|s| {
                if s.is_func() {
                    return ControlFlow::Break(());
                }
                if s.is_var() {
                    *s = Expr::from(7);
                }
                ControlFlow::Continue(())
            });
            Many(vec![arg, atom, all, vars, outer, x.clone()])
        }
        // two real numbers
        "real" => {
            let (x, y) = (dec_real(&a[1]), dec_real(&a[2]));
            Data(json!({"f": [float(x.f64_approx()), float(y.f64_approx())], "c": ord(x.cmp(&y)), "r": ord(y.cmp(&x)), "p": x.partial_cmp(&y).map(ord).unwrap_or(9), "eq": x == y,
                "at": [x == Atom::from(x.clone()), x == Atom::from(y.clone()), Atom::from(y.clone()) == x],
                "xs": [enc(&Expr::from(x.clone())), enc(&Expr::from(y.clone()))]}))
        }
        // monomials x^d in several generalised variables: [[variable, exponent], ..] twice
        "varpow" => {
            let pairs = |v: &Value| -> Vec<(Expr, i128)> {
                v.as_array().unwrap().iter().map(|p| (e[p[0].as_u64().unwrap() as usize - 1].clone(), p[1].as_i64().unwrap() as i128)).collect()
            };
            let (p, q) = (pairs(&a[1]), pairs(&a[2]));
            let rev: Vec<_> = p.iter().rev().cloned().collect();
            let (x, y, z) = (VarPow::from(p), VarPow::from(rev), VarPow::from(q));
            let vs = VarSet::new(e.iter());
            let some = VarSet::new(e[1..].iter());
            let one = VarSet::from(e[0].clone());
            let h = |x: &VarPow| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                x.hash(&mut h);
                format!("{:x}", h.finish())
            };
            Data(json!({"x": vp(&x, &vs), "z": vp(&z, &vs), "c": [x.is_const(), z.is_const()], "perm": x == y && x.cmp(&y) == Ordering::Equal && h(&x) == h(&y),
                "eq": x == z, "o": ord(x.cmp(&z)), "r": ord(z.cmp(&x)), "h": h(&x) == h(&z),
                "has": e.iter().map(|v| json!([vs.has(v), some.has(v), one.has(v)])).collect::<Vec<_>>(),
                "n": [vs.iter().count(), some.iter().count(), one.iter().count()]}))
        }
        // a polynomial put together from coefficients (registers) and monomials
        "gpe" => {
            let nv = a[1].as_array().unwrap()[0].as_u64().unwrap() as usize;
            let (vs, cs) = e.split_at(nv);
            let mut g = GPE::default();
            let mut found = vec![];
            for (c, d) in cs.iter().zip(a[2].as_array().unwrap()) {
                let d: Vec<i128> = d.as_array().unwrap().iter().map(|d| d.as_i64().unwrap() as i128).collect();
                let p: Vec<_> = vs.iter().cloned().zip(d).filter(|(_, d)| *d > 0).collect();
                let m = VarPow::from(p);
                let before = g.find_mut(&m).is_some();
                g.add(c.clone(), m.clone());
                found.push(json!([before, g.find_mut(&m).is_some()]));
            }
            let absent = g.find_mut(&VarPow::from(vec![(vs[0].clone(), 97)])).is_some();
            let x = g.into_expr();
            if nodes(&x, CAP) > CAP {
                return Data(json!({"big": true}));
            }
            Data(json!({"v": enc(&x), "found": found, "absent": absent}))
        }
        "binom" => {
            let n = |j: usize| a[j].as_array().unwrap()[0].as_i64().unwrap() as i128;
            Data(json!(calcu_rs::rational::binomial_coeff(n(1), n(2)) as i64))
        }
        "consts" => Many(vec![
            Expr::zero(), Expr::one(), Expr::two(), Expr::min_one(), Expr::min_two(), Expr::undef(), Expr::pi(), Expr::e(),
            Atom::ZERO.into(), Atom::ONE.into(), Atom::TWO.into(), Atom::MINUS_ONE.into(), Atom::MINUS_TWO.into(), Atom::UNDEF.into(), Atom::PI.into(), Atom::E.into(),
            Expr::from(Real::PI), Expr::from(Real::E), Expr::from(Rational::ZERO), Expr::from(Rational::MINUS_TWO), Expr::rational(3), Expr::from(-4i32), Expr::rational((2i32, -6i32)),
            Expr::var("consts"), Expr::from("consts"), Atom::Sum(Sum::zero()).into(), Atom::Prod(Prod::one()).into(),
        ]),
        _ => panic!("harness: op {op}"),
    }
}
