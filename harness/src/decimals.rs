//! C10, C11: decimals.
use crate::engine::*;
use crate::floats::{argument, reference, Want};
use crate::grammar::*;
use crate::integers::evaluate;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use prexel::context::{Config, Context, DefaultContext, Grouping};
use rust_decimal::prelude::{FromPrimitive, ToPrimitive};
use rust_decimal::Decimal;

/// An exact rational number.
#[derive(Clone, Debug)]
struct Q {
    n: BigInt,
    d: BigInt,
}

impl Q {
    fn new(n: BigInt, d: BigInt) -> Q {
        if d.is_negative() {
            Q { n: -n, d: -d }
        } else {
            Q { n, d }
        }
    }
    fn of(v: Decimal) -> Q {
        Q::new(v.mantissa().into(), ten(v.scale()))
    }
    fn add(&self, o: &Q) -> Q {
        Q::new(&self.n * &o.d + &o.n * &self.d, &self.d * &o.d)
    }
    fn sub(&self, o: &Q) -> Q {
        Q::new(&self.n * &o.d - &o.n * &self.d, &self.d * &o.d)
    }
    fn mul(&self, o: &Q) -> Q {
        Q::new(&self.n * &o.n, &self.d * &o.d)
    }
    fn div(&self, o: &Q) -> Q {
        Q::new(&self.n * &o.d, &self.d * &o.n)
    }
    fn trunc(&self) -> BigInt {
        &self.n / &self.d
    }
    fn floor(&self) -> BigInt {
        let t = self.trunc();
        if self.n.is_negative() && !(&self.n % &self.d).is_zero() {
            t - 1
        } else {
            t
        }
    }
    fn rem(&self, o: &Q) -> Q {
        self.sub(&o.mul(&Q::new(self.div(o).trunc(), BigInt::one())))
    }
    fn pow(&self, e: i64) -> Q {
        let p = |b: &BigInt| num_traits::pow(b.clone(), e.unsigned_abs() as usize);
        let q = Q { n: p(&self.n), d: p(&self.d) };
        if e < 0 {
            Q::new(q.d, q.n)
        } else {
            q
        }
    }
    fn less(&self, o: &Q) -> bool {
        &self.n * &o.d < &o.n * &self.d
    }
    fn abs(&self) -> Q {
        Q { n: self.n.abs(), d: self.d.clone() }
    }
    fn same(&self, o: &Q) -> bool {
        &self.n * &o.d == &o.n * &self.d
    }
    fn whole(n: BigInt) -> Q {
        Q { n, d: BigInt::one() }
    }
    /// If the decimal type has this value.
    fn representable(&self) -> bool {
        let scaled = &self.n * ten(28);
        if !(&scaled % &self.d).is_zero() {
            return false;
        }
        let mut m = (scaled / &self.d).abs();
        let mut scale = 28;
        let t = BigInt::from(10);
        while scale > 0 && (&m % &t).is_zero() {
            m /= &t;
            scale -= 1;
        }
        m <= limit()
    }
    fn f64(&self) -> f64 {
        // Enough digits of the quotient
        let shift = self.d.bits() as i64 - self.n.bits() as i64 + 80;
        let (mut n, mut d) = (self.n.clone(), self.d.clone());
        if shift > 0 {
            n <<= shift as usize;
        } else {
            d <<= (-shift) as usize;
        }
        (n / d).to_string().parse::<f64>().unwrap() * 2f64.powi(-shift as i32)
    }
}

fn ten(e: u32) -> BigInt {
    num_traits::pow(BigInt::from(10), e as usize)
}

/// The largest mantissa, and the largest value.
fn limit() -> BigInt {
    (BigInt::one() << 96usize) - 1
}

/// A decimal: small, with few or many digits, or at the limits.
fn gen_decimal(g: &mut Gen) -> Decimal {
    let (m, scale) = match g.below(9) {
        0 => (g.below(20) as i128, 0),
        1 | 2 => (g.below(1000) as i128, g.below(4) as u32),
        3 => (g.below(100_000_000) as i128, g.below(10) as u32),
        4 => (g.u64() as i128, g.below(20) as u32),
        5 => ((g.u128() >> 32) as i128, g.below(29) as u32),
        6 => ((1i128 << 96) - 1 - g.below(3) as i128, g.below(29) as u32),
        7 => (1 + g.below(3) as i128, 28 - g.below(4) as u32),
        _ => (10i128.pow(g.below(29) as u32), g.below(29) as u32),
    };
    let mut v = Decimal::from_i128_with_scale(m, scale);
    if g.chance(35) {
        v.set_sign_negative(true);
    }
    v
}

/// What an exact value becomes: an overflow, or a value not further than a tolerance.
fn compare(exact: &Q, tol: &Q, got: &Result<Decimal, String>) -> Result<&'static str, String> {
    let abs = exact.abs();
    let max = Q::whole(limit());
    let one = Q::whole(BigInt::one());
    match got {
        Err(e) => {
            if abs.less(&max.sub(&one)) {
                Err(format!("expected {} but got the error {}", exact.f64(), e))
            } else if e != "Overflow" {
                Err(format!("expected an overflow but got the error {}", e))
            } else {
                Ok("overflow")
            }
        }
        Ok(v) => {
            let v = Q::of(*v);
            if max.add(&one).less(&abs) {
                return Err(format!("expected an overflow but got {}", v.f64()));
            }
            let error = v.sub(exact).abs();
            if exact.representable() {
                if !error.n.is_zero() {
                    return Err(format!("expected exactly {} but got {}", exact.f64(), got.as_ref().unwrap()));
                }
                return Ok("exact");
            }
            if tol.less(&error) {
                return Err(format!("expected {} but got {}, {:e} away", exact.f64(), got.as_ref().unwrap(), error.f64()));
            }
            Ok("rounded")
        }
    }
}

fn run(vars: &[(&str, Decimal)], text: &str) -> Result<Result<Decimal, String>, String> {
    let config = Config::new().with_grouping(Grouping::Bracket);
    let mut ctx: DefaultContext<'static, Decimal> = DefaultContext::with_config_decimal(config);
    for (n, v) in vars {
        ctx.set_variable(n, *v).unwrap();
    }
    evaluate(ctx, text)
}

/// The error of a rounding to 28 or 29 digits.
fn rounding(exact: &Q) -> Q {
    let smallest = Q::new(BigInt::one(), ten(28));
    let relative = exact.abs().mul(&Q::new(BigInt::from(1), ten(27)));
    if relative.less(&smallest) {
        smallest
    } else {
        relative
    }
}

fn operation_case(g: &mut Gen) -> Out {
    let (a, b) = (gen_decimal(g), gen_decimal(g));
    let (x, y) = (Q::of(a), Q::of(b));
    let vars = [("a", a), ("b", b)];
    let op = *g.pick(&["+", "-", "*", "/", "mod"]);
    // As text, a number has to be read exactly too
    let text = if g.chance(50) {
        format!("a {} b", op)
    } else {
        let b = if b.is_sign_negative() { format!("({})", b) } else { b.to_string() };
        format!("{} {} {}", a, op, b)
    };
    let desc = format!("{} {} {}", a, op, b);
    let got = match run(&vars, &text) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    if (op == "/" || op == "mod") && y.n.is_zero() {
        return match got {
            Err(e) if e == "DivisionByZero" => ok(desc, true, "division by zero"),
            r => fail(desc, format!("expected a division by zero but got {:?}", r)),
        };
    }
    if op == "mod" {
        // The remainder of the decimal library is wrong if an operand does not fit at the other's scale
        let scale = a.scale().max(b.scale());
        let fits = |v: Decimal| BigInt::from(v.mantissa()).abs() * ten(scale - v.scale()) <= limit();
        if !fits(a) || !fits(b) {
            return discard();
        }
    }
    let exact = match op {
        "+" => x.add(&y),
        "-" => x.sub(&y),
        "*" => x.mul(&y),
        "/" => x.div(&y),
        _ => x.rem(&y),
    };
    match compare(&exact, &rounding(&exact), &got) {
        Ok(class) => ok(desc, true, class),
        Err(e) => fail(desc, e),
    }
}

fn integral_case(g: &mut Gen) -> Out {
    let n = if g.chance(15) { 6 + g.below(14) } else { 1 + g.below(5) };
    let args: Vec<Decimal> = (0..n).map(|_| gen_decimal(g)).collect();
    let names = [
        "a", "b", "c", "d", "p", "a1", "b1", "c1", "d1", "p1", "a2", "b2", "c2", "d2", "p2", "a3", "b3", "c3", "d3",
        "p3",
    ];
    let vars: Vec<(&str, Decimal)> = names.iter().copied().zip(args.iter().copied()).collect();
    let q: Vec<Q> = args.iter().map(|v| Q::of(*v)).collect();
    let f = *g.pick(&["floor", "ceil", "truncate", "round", "max", "min", "sum", "avg", "product", "-", "+"]);
    let (text, exact, single) = match f {
        "-" => ("-a".to_string(), Q::new(-q[0].n.clone(), q[0].d.clone()), true),
        "+" => ("+a".to_string(), q[0].clone(), true),
        "floor" => (format!("{}(a)", f), Q::whole(q[0].floor()), true),
        "ceil" => (format!("{}(a)", f), Q::whole(-Q::new(-q[0].n.clone(), q[0].d.clone()).floor()), true),
        "truncate" => (format!("{}(a)", f), Q::whole(q[0].trunc()), true),
        "round" => {
            let half = Q::new(1.into(), 2.into());
            let up = q[0].add(&half);
            if up.same(&Q::whole(up.floor())) {
                // Any direction for a tie
                let got = match run(&vars, "round(a)") {
                    Ok(Ok(v)) => v,
                    r => return fail(format!("round({})", args[0]), format!("got {:?}", r)),
                };
                let away = Q::of(got).sub(&q[0]).abs();
                return if away.same(&half) {
                    ok(format!("round({})", args[0]), true, "tie")
                } else {
                    fail(format!("round({})", args[0]), format!("got {}", got))
                };
            }
            ("round(a)".to_string(), Q::whole(up.floor()), true)
        }
        "max" | "min" => {
            if n == 1 {
                return discard();
            }
            let mut best = q[0].clone();
            for v in &q[1..] {
                if if f == "max" { best.less(v) } else { v.less(&best) } {
                    best = v.clone();
                }
            }
            (format!("{}({})", f, names[..n].join(",")), best, false)
        }
        "product" => {
            let mut all = q[0].clone();
            for v in &q[1..] {
                all = all.mul(v);
                // A rounding, or an overflow, on the way to the result
                if !all.representable() {
                    return discard();
                }
            }
            (format!("product({})", names[..n].join(",")), all, false)
        }
        _ => {
            let mut all = q[0].clone();
            for v in &q[1..] {
                all = all.add(v);
                if !all.representable() {
                    return discard();
                }
            }
            if f == "avg" {
                all = all.div(&Q::whole(n.into()));
            }
            (format!("{}({})", f, names[..n].join(",")), all, false)
        }
    };
    let shown: Vec<String> = args.iter().take(if single { 1 } else { n }).map(|a| a.to_string()).collect();
    let desc = format!("{}({})", f, shown.join(", "));
    match run(&vars, &text) {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(got) => match compare(&exact, &rounding(&exact), &got) {
            Ok(class) => ok(desc, true, class),
            Err(e) => fail(desc, e),
        },
    }
}

fn power_case(g: &mut Gen) -> Out {
    let a = if g.chance(60) {
        let v = Decimal::from_i128_with_scale(g.below(2000) as i128, g.below(4) as u32);
        if g.chance(30) {
            -v
        } else {
            v
        }
    } else {
        gen_decimal(g)
    };
    let e = g.range(-9, 30);
    let x = Q::of(a);
    let text = format!("({}) ^ ({})", a, e);
    let desc = format!("{} ^ {}", a, e);
    let got = match run(&[], &text) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    if x.n.is_zero() && e < 0 {
        return match got {
            Err(_) => ok(desc, true, "inverse of zero"),
            r => fail(desc, format!("expected an error but got {:?}", r)),
        };
    }
    let exact = x.pow(e);
    let abs = exact.abs();
    // Also the inverse of the base, and the powers on the way, are rounded to 28 decimals
    let mut slack = rounding(&exact).mul(&Q::whole((4 * (1 + e.abs())).into()));
    if e < 0 {
        let loss = abs.mul(&x.abs()).mul(&Q::new((2 * e.abs()).into(), ten(28)));
        slack = slack.add(&loss);
        // The inverse has no digits, or the last ones
        if Q::whole(ten(20)).less(&x.abs()) || Q::whole(ten(27)).less(&abs) {
            return discard();
        }
    }
    let small = Q::new(BigInt::one(), ten(6));
    if e > 0 && x.abs().less(&small) {
        slack = slack.add(&Q::new(BigInt::one(), ten(27)));
    }
    // Its powers on the way may round
    let got_exact = exact.representable() && e < 0;
    match compare(&exact, &slack, &got) {
        Ok(class) => ok(desc, e.abs() > 1, class),
        Err(_) if got_exact => {
            let v = got.map(Q::of);
            match v {
                Ok(v) if !slack.less(&v.sub(&exact).abs()) => ok(desc, true, "rounded"),
                v => fail(desc, format!("expected {} but got {:?}", exact.f64(), v.map(|v| v.f64()))),
            }
        }
        Err(m) => fail(desc, m),
    }
}

/// Large exponents, of numbers near to one in size.
fn long_power_case(g: &mut Gen) -> Out {
    let (a, e): (Decimal, i64) = match g.below(8) {
        // 1, -1 and 0 to any power
        0 | 1 => {
            let e = match g.below(4) {
                0 => g.range(-300, 300),
                1 => (g.u64() >> g.below(64)) as i64,
                2 => -((g.u64() >> (1 + g.below(63))) as i64),
                _ => (g.u64() >> (1 + g.below(63))) as i64,
            };
            (Decimal::from([1, -1, 0][g.below(3)]), e)
        }
        k => {
            let digits = 1 + g.below(8) as u32;
            let most = 10u64.pow(digits - 1) * if k < 4 { 1 } else { 10 };
            let d = Decimal::from_i128_with_scale(g.range(-(most.min(100_000_000) as i64), most.min(100_000_000) as i64) as i128, digits);
            let a = if g.chance(40) { -(Decimal::ONE + d) } else { Decimal::ONE + d };
            let e = match g.below(3) {
                0 => g.range(-130, 130),
                1 => g.range(-1200, 1200),
                _ => [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025][g.below(14)] * [1, -1][g.below(2)],
            };
            (a, e)
        }
    };
    let desc = format!("{} ^ {}", a, e);
    let text = if g.chance(50) { format!("({}) ^ ({})", a, e) } else { "u ^ v".to_string() };
    let got = match run(&[("u", a), ("v", Decimal::from(e))], &text) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    let x = Q::of(a);
    if x.n.is_zero() && e < 0 {
        return match got {
            Err(_) => ok(desc, true, "inverse of zero"),
            r => fail(desc, format!("expected an error but got {:?}", r)),
        };
    }
    let one = Q::whole(BigInt::one());
    if x.n.is_zero() || !x.abs().less(&one) && !one.less(&x.abs()) {
        let want = if x.n.is_zero() && e != 0 { Decimal::ZERO } else if x.n.is_negative() && e % 2 != 0 { -Decimal::ONE } else { Decimal::ONE };
        return match got {
            Ok(v) if v == want => ok(desc, true, "of 0 or 1"),
            r => fail(desc, format!("expected {} but got {:?}", want, r)),
        };
    }
    let exact = x.pow(e);
    let abs = exact.abs();
    if Q::whole(ten(28)).less(&abs) {
        return match got {
            Err(k) if k == "Overflow" => ok(desc, true, "too large"),
            // Near to the limit
            _ if abs.less(&Q::whole(ten(29))) => ok(desc, false, "at the limit"),
            r => fail(desc, format!("expected an overflow but got {:?}", r)),
        };
    }
    if e < 0 && x.abs().less(&Q::new(BigInt::one(), ten(3))) {
        return discard();
    }
    let digit = Q::new((8 * (e.abs() + 10)).into(), ten(28));
    let slack = if abs.less(&one) { digit } else { digit.mul(&abs) };
    match got {
        Ok(v) if !slack.less(&Q::of(v).sub(&exact).abs()) => ok(desc, true, "power"),
        r => fail(desc, format!("expected {} but got {:?}", exact.f64(), r)),
    }
}

//////////////////// Expressions ////////////////////

struct DecAlg;

const SKIP: &str = "skip";

fn kept(q: Q) -> Result<Q, String> {
    if q.representable() {
        Ok(q)
    } else {
        Err(SKIP.into())
    }
}

impl Alg for DecAlg {
    type V = Q;
    fn num(&mut self, s: &str) -> Result<Q, String> {
        let decimals = s.find('.').map_or(0, |i| s.len() - i - 1);
        let digits: String = s.chars().filter(|c| *c != '.').collect();
        kept(Q::new(digits.parse().unwrap(), ten(decimals as u32)))
    }
    fn var(&mut self, _: usize) -> Result<Q, String> {
        unreachable!()
    }
    fn konst(&mut self, _: usize) -> Result<Q, String> {
        unreachable!()
    }
    fn prefix(&mut self, i: usize, v: Q) -> Result<Q, String> {
        Ok(if i == 0 { Q::new(-v.n, v.d) } else { v })
    }
    fn postfix(&mut self, _: usize, _: Q) -> Result<Q, String> {
        unreachable!()
    }
    fn bin(&mut self, i: usize, l: Q, r: Q) -> Result<Q, String> {
        match i {
            0 => kept(l.add(&r)),
            1 => kept(l.sub(&r)),
            2 => kept(l.mul(&r)),
            _ if r.n.is_zero() => Err("DivisionByZero".into()),
            3 => kept(l.div(&r)),
            _ => kept(l.rem(&r)),
        }
    }
    fn call(&mut self, i: usize, args: Vec<Q>) -> Result<Q, String> {
        let mut it = args.into_iter();
        let mut acc = it.next().unwrap();
        for v in it {
            acc = match i {
                0 => kept(acc.add(&v))?,
                1 => {
                    if acc.less(&v) {
                        v
                    } else {
                        acc
                    }
                }
                _ => {
                    if v.less(&acc) {
                        v
                    } else {
                        acc
                    }
                }
            };
        }
        Ok(acc)
    }
}

fn number(g: &mut Gen) -> String {
    match g.below(8) {
        0..=2 => g.below(12).to_string(),
        3 => ["2", "4", "5", "8", "10", "0.5", "0.25", "1.25"][g.below(8)].to_string(),
        4 | 5 => format!("{}.{}", g.below(20), g.below(100)),
        6 => format!("0.{:03}", g.below(1000)),
        _ => format!("{}.{:06}", g.below(100_000), g.below(1_000_000)),
    }
}

fn expression_case(g: &mut Gen) -> Out {
    let bin = |name, prec| Bin { name, prec, right: false };
    let t = Table {
        bins: vec![bin("+", 1), bin("-", 1), bin("*", 2), bin("/", 2), bin("mod", 2)],
        prefix: vec!["-", "+"],
        postfix: vec![],
        funcs: vec!["sum", "max", "min"],
        vars: vec![],
        consts: vec![],
        custom_call: false,
    };
    let s = Shape {
        max_ops: 6,
        max_depth: 3,
        max_args: 3,
        num: number,
        arity: |f| if f == 0 { (1, 3) } else { (2, 3) },
        groups: &['(', '['],
        juxt: false,
    };
    let c = gen_chain(g, &t, &s, 0);
    let expected = eval_chain(&t, &c, &mut DecAlg);
    if expected.as_ref().err().map(|e| e.as_str()) == Some(SKIP) {
        return discard();
    }
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    let text = join_tight(&t, &tokens);
    let got = match run(&[], &text) {
        Err(p) => return fail(text, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    match (&expected, &got) {
        (Ok(q), Ok(v)) if Q::of(*v).same(q) => ok(text, weight(&c) > 0, "exact"),
        (Err(e), Err(k)) if e == k => ok(text, true, "division by zero"),
        _ => fail(text, format!("expected {:?} but got {:?}", expected.map(|q| q.f64()), got)),
    }
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "Decimals of any mantissa and scale (small, many digits, at the limits), as variables or numbers: each operator and each of the functions floor, ceil, truncate, round, max, min, sum, avg and product, and integer powers (of numbers near to one also large ones), against exact rationals: the exact result if the type has it, else within rounding of it, or an overflow or division by zero; and random expressions with an exact result at each step, to equality; and calls with up to 65 thousand arguments. Non-trivial: all that is compared with an operation.",
        subs: vec![
            sub("operations", 1_200_000, 24, || Box::new(operation_case)),
            sub("functions", 900_000, 50, || Box::new(integral_case)),
            sub("powers", 400_000, 16, || Box::new(power_case)),
            sub("long-powers", 60_000, 16, || Box::new(long_power_case)),
            sub("expressions", 700_000, 70, || Box::new(expression_case)),
            crate::many::c10(),
        ],
    }
}

//////////////////// C11 ////////////////////

const FUNCS: [&str; 33] = [
    "sqrt", "cbrt", "exp", "ln", "log", "to_radians", "to_degrees", "sin", "cos", "tan", "csc", "sec", "cot",
    "asin", "acos", "atan", "acsc", "asec", "acot", "sinh", "cosh", "tanh", "csch", "sech", "coth", "asinh",
    "acosh", "atanh", "acsch", "asech", "acoth", "log", "atan",
];

/// The reference of a decimal function: as the floats, with the results of the inverses in radians.
fn dec_reference(f: &str, a: &[f64]) -> Want {
    use Want::*;
    let x = a[0];
    let inverse = f.starts_with('a');
    // Values which the type has few digits for, or none
    if matches!(f, "exp" | "sinh" | "cosh" | "tanh" | "csch" | "sech" | "coth") && x.abs() > 60.0 {
        return Skip;
    }
    match f {
        "sqrt" if x < 0.0 => return Error,
        "sqrt" => return Val(x.sqrt(), 1e-12 * x.sqrt() + 1e-14),
        "cbrt" => return Val(x.cbrt(), 1e-12 * x.abs().cbrt() + 1e-12),
        "ln" if x <= 0.0 => return Error,
        "log" if x <= 0.0 => return Error,
        "log" if a.len() == 2 && a[1] <= 0.0 => return Error,
        "log" if a.len() == 2 && a[1] == 1.0 => return Error,
        "ln" => return Val(x.ln(), 1e-12 * (1.0 + x.ln().abs())),
        "log" if a.len() == 1 => return Val(x.log10(), 1e-12 * (1.0 + x.log10().abs())),
        "log" if (a[1] - 1.0).abs() < 1e-3 => return Skip,
        "log" => {
            let v = x.ln() / a[1].ln();
            return Val(v, 1e-12 * (1.0 + v.abs()) + 1e-13 / a[1].ln().abs());
        }
        // The angle is zero
        "atan" if a.len() == 2 && x == 0.0 && a[1] == 0.0 => return Skip,
        "acot" if x == 0.0 => return Skip,
        "acsc" | "asec" if x == 0.0 => return Error,
        "csch" | "coth" if x == 0.0 => return Error,
        "tan" if x % 180.0 != 0.0 && x % 90.0 == 0.0 => return if x.abs() < 36000.0 { Error } else { Skip },
        "cot" if x % 180.0 != 0.0 && x % 90.0 == 0.0 => return Skip,
        "sin" | "cos" | "tan" | "csc" | "sec" | "cot" if x.abs() > 1e5 => return Skip,
        "to_degrees" if x.abs() > 1e26 => return Skip,
        _ => {}
    }
    match reference(f, a) {
        Val(v, tol) if inverse => {
            let r = v / 180.0 * std::f64::consts::PI;
            // Close to the limits of the domain the argument as a float is not enough
            let slope = match f {
                "asin" | "acos" | "atanh" | "asech" if x.abs() != 1.0 && x.abs() > 0.999 => return Skip,
                "acsc" | "asec" | "acoth" | "acosh" if x.abs() != 1.0 && x.abs() < 1.001 => return Skip,
                _ => 1e-12,
            };
            let _ = tol;
            Val(r, slope * (1.0 + r.abs()))
        }
        Val(v, tol) => {
            let tight = match f {
                "sin" | "cos" => 1e-11,
                "exp" => 1e-11 * v.abs() + 1e-26,
                "sinh" | "cosh" | "tanh" | "to_radians" | "to_degrees" => 1e-11 * v.abs() + 1e-15,
                "csch" | "sech" | "coth" => 1e-11 * v.abs() + 1e-15,
                _ => tol,
            };
            Val(v, tight)
        }
        w => w,
    }
}

fn function_case(g: &mut Gen) -> Out {
    let f = *g.pick(&FUNCS);
    let n = if f == "log" || f == "atan" { 1 + g.below(2) } else { 1 };
    let args: Vec<Decimal> = (0..n)
        .map(|_| {
            if g.chance(25) {
                return gen_decimal(g);
            }
            let v = argument(g);
            let v = if matches!(f, "exp" | "sinh" | "cosh" | "tanh" | "csch" | "sech" | "coth") { v % 60.0 } else { v };
            Decimal::from_f64(v).unwrap_or_default()
        })
        .collect();
    let mut wide: Vec<f64> = args.iter().map(|a| a.to_f64().unwrap()).collect();
    if matches!(f, "sin" | "cos" | "tan" | "csc" | "sec" | "cot") && wide[0].abs() > 360.0 && wide[0].abs() < 1e10 {
        wide[0] = Q::of(args[0]).rem(&Q::whole(360.into())).f64();
    }
    let want = dec_reference(f, &wide);
    if want == Want::Skip {
        return discard();
    }
    let shown: Vec<String> = args.iter().map(|a| a.to_string()).collect();
    let text = format!("{}({})", f, shown.join(", "));
    let got = match run(&[], &text) {
        Err(p) => return fail(text, format!("expected {:?} but panicked: {}", want, p)),
        Ok(r) => r,
    };
    match (&want, &got) {
        (Want::Error, Err(_)) => ok(text, true, "out of the domain"),
        (Want::Val(v, tol), Ok(x)) if (x.to_f64().unwrap() - v).abs() <= *tol => ok(text, true, "value"),
        _ => fail(text, format!("expected {:?} but got {:?}", want, got)),
    }
}

/// A power with a fraction.
fn fraction_case(g: &mut Gen) -> Out {
    let b = match g.below(3) {
        0 => Decimal::from_i128_with_scale(1 + g.below(5000) as i128, g.below(4) as u32),
        1 => Decimal::from_i128_with_scale(1 + g.below(30) as i128, 0),
        _ if g.chance(40) => gen_decimal(g).abs(),
        _ => Decimal::from_f64(argument(g).abs()).unwrap_or_default(),
    };
    let mut e = Decimal::from_i128_with_scale(g.range(-8000, 8000) as i128, 3);
    if g.chance(40) {
        e = *g.pick(&[Decimal::from_i128_with_scale(5, 1), Decimal::from_i128_with_scale(25, 2), Decimal::from_i128_with_scale(-5, 1)]);
    }
    if (e % Decimal::ONE).is_zero() {
        return discard();
    }
    let text = format!("{} ^ ({})", b, e);
    let got = match run(&[], &text) {
        Err(p) => return fail(text, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    if b.is_zero() {
        return match (e.is_sign_negative(), &got) {
            (true, Err(_)) => ok(text, true, "inverse of zero"),
            (false, Ok(v)) if v.is_zero() => ok(text, true, "zero"),
            _ => fail(text, format!("got {:?}", got)),
        };
    }
    let v = b.to_f64().unwrap().powf(e.to_f64().unwrap());
    if v > 1e27 || v < 1e-12 {
        return discard();
    }
    match got {
        Ok(x) if (x.to_f64().unwrap() - v).abs() <= 1e-10 * v + 1e-15 => ok(text, true, "power"),
        r => fail(text, format!("expected {} but got {:?}", v, r)),
    }
}

/// Roots are exact but for the last digits.
fn root_case(g: &mut Gen) -> Out {
    let x = if g.chance(30) {
        // A perfect power
        let r = Q::of(Decimal::from_i128_with_scale(g.u64() as i128 >> g.below(64), g.below(7) as u32));
        let p = if g.chance(50) { r.mul(&r) } else { r.mul(&r).mul(&r) };
        if !p.representable() {
            return discard();
        }
        let scale = 21;
        let m = (&p.n * ten(scale) / &p.d).to_i128();
        match m.filter(|m| BigInt::from(*m) <= limit()) {
            Some(m) => Decimal::from_i128_with_scale(m, scale),
            None => return discard(),
        }
    } else {
        gen_decimal(g).abs()
    };
    let cube = g.chance(40);
    let x = if cube && g.chance(30) { -x } else { x };
    let text = format!("{}(x) x={}", if cube { "cbrt" } else { "sqrt" }, x);
    let got = match run(&[("x", x)], if cube { "cbrt(x)" } else { "sqrt(x)" }) {
        Err(p) => return fail(text, format!("panicked: {}", p)),
        Ok(Err(e)) => return fail(text, format!("got the error {}", e)),
        Ok(Ok(v)) => v,
    };
    let (x, r) = (Q::of(x), Q::of(got));
    // A square root to some units of the last digit, of the 28 significant or decimal ones
    let unit = |e| Q::new(BigInt::one(), ten(e));
    let d = if cube { r.abs().mul(&unit(12)).add(&unit(17)) } else { r.abs().mul(&unit(26)).add(&unit(26)) };
    let power = |v: Q| if cube { v.mul(&v).mul(&v) } else { v.mul(&v) };
    let low = r.sub(&d);
    let low = if cube || !low.n.is_negative() { power(low) } else { Q::whole(BigInt::zero()) };
    if r.n.is_negative() && !cube || x.less(&low) || power(r.add(&d)).less(&x) {
        fail(text, format!("got {}", got))
    } else {
        ok(text, true, if cube { "cube root" } else { "square root" })
    }
}

/// The functions as methods of the type, where angles are in radians.
fn method_case(g: &mut Gen) -> Out {
    use prexel::decimal::decimal_ext::DecimalExt;
    const METHODS: [&str; 22] = [
        "sqrt", "cbrt", "log", "ln", "exp", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh",
        "acosh", "atanh", "to_radians", "to_degrees", "inv", "powd", "is_integer",
    ];
    let f = *g.pick(&METHODS);
    let angle = matches!(f, "sin" | "cos" | "tan");
    let mut value = |g: &mut Gen| {
        if g.chance(35) {
            return gen_decimal(g);
        }
        let v = argument(g);
        Decimal::from_f64(match f {
            "exp" | "sinh" | "cosh" | "tanh" => v % 60.0,
            _ if angle => v.to_radians(),
            _ => v,
        })
        .unwrap_or_default()
    };
    let (x, y) = (value(g), value(g));
    let two = f == "powd" || (f == "log" || f == "atan") && g.chance(50);
    let (a, b) = (x.to_f64().unwrap(), y.to_f64().unwrap());
    let desc = if two { format!("{} of {} and {}", f, x, y) } else { format!("{} of {}", f, x) };
    let got = guard(|| match f {
        "sqrt" => x.checked_sqrt(),
        "cbrt" => x.checked_cbrt(),
        "log" if two => x.checked_log(y),
        "log" => x.checked_log(Decimal::TEN),
        "ln" => DecimalExt::checked_ln(x),
        "exp" => DecimalExt::checked_exp(x),
        "sin" => DecimalExt::checked_sin(x),
        "cos" => DecimalExt::checked_cos(x),
        "tan" => DecimalExt::checked_tan(x),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" if two => Some(x.atan2(y)),
        "atan" => Some(x.atan()),
        "sinh" => x.sinh(),
        "cosh" => x.cosh(),
        "tanh" => x.tanh(),
        "asinh" => x.checked_asinh(),
        "acosh" => x.acosh(),
        "atanh" => x.atanh(),
        "to_radians" => Some(x.to_radians()),
        "to_degrees" => x.checked_to_degrees(),
        "inv" => x.checked_inv(),
        "powd" => DecimalExt::checked_powd(x, y),
        _ => Some(Decimal::from(DecimalExt::is_integer(&x) as u8)),
    });
    let got = match got {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    let want = match f {
        "is_integer" => Want::Val((&Q::of(x).n % &Q::of(x).d == BigInt::zero()) as u8 as f64, 0.0),
        "inv" if x.is_zero() => Want::Error,
        "inv" => Want::Val(1.0 / a, 1e-14 / a.abs() + 1e-28),
        // Powers are compared as expressions
        "powd" => Want::Skip,
        _ if angle && a.abs() > 1000.0 => Want::Skip,
        "sin" => Want::Val(a.sin(), 1e-11),
        "cos" => Want::Val(a.cos(), 1e-11),
        "tan" if a.cos().abs() < 1e-3 => Want::Skip,
        "tan" => Want::Val(a.tan(), 1e-11 * (1.0 + a.tan() * a.tan())),
        _ if two => dec_reference(f, &[a, b]),
        _ => dec_reference(f, &[a]),
    };
    match (&want, &got) {
        (Want::Skip, _) => ok(desc, false, "ends"),
        (Want::Error, None) => ok(desc, true, "out of the domain"),
        (Want::Val(v, tol), Some(x)) if (x.to_f64().unwrap() - v).abs() <= *tol => ok(desc, true, "value"),
        _ => fail(desc, format!("expected {:?} but got {:?}", want, got)),
    }
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: "A function of the decimal context with random arguments (nice angles, multiples of 90, numbers at and around the limits of its domain, of magnitudes from 1e-12 to 1e12), or a power with a fraction, or the functions as methods of the type, against the mathematical library of floats with a relative tolerance of about 1e-11, or an error out of the domain. Non-trivial: all that is compared; ill-conditioned values are discarded.",
        subs: vec![
            sub("functions", 400_000, 24, || Box::new(function_case)),
            sub("roots", 300_000, 16, || Box::new(root_case)),
            sub("fractions", 60_000, 16, || Box::new(fraction_case)),
            sub("methods", 250_000, 24, || Box::new(method_case)),
        ],
    }
}
