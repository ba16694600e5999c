//! C09, C23: functions and operators of floats.
use crate::engine::*;
use crate::grammar::*;
use crate::integers::evaluate;
use prexel::context::{Context, DefaultContext};
use prexel::num::checked::CheckedNum;
use prexel::num::unchecked::UncheckedNum;

extern "C" {
    fn asinh(x: f64) -> f64;
    fn acosh(x: f64) -> f64;
    fn atanh(x: f64) -> f64;
    fn tgamma(x: f64) -> f64;
    fn log10(x: f64) -> f64;
    fn log(x: f64) -> f64;
    fn exp(x: f64) -> f64;
    fn pow(x: f64, y: f64) -> f64;
    fn sinh(x: f64) -> f64;
    fn cosh(x: f64) -> f64;
    fn tanh(x: f64) -> f64;
    fn asin(x: f64) -> f64;
    fn acos(x: f64) -> f64;
    fn atan(x: f64) -> f64;
    fn atan2(y: f64, x: f64) -> f64;
    fn sqrt(x: f64) -> f64;
}

/// What a call has to give.
#[derive(Debug, PartialEq)]
pub enum Want {
    /// A value, and how far from it the result can be.
    Val(f64, f64),
    Error,
    /// An error, or a value that is not finite.
    NoNumber,
    /// Not specified, or too close to where it changes.
    Skip,
}
use Want::*;

/// Functions snap values to integers closer than this.
const SNAP: f64 = 1e-10;
const PI: f64 = std::f64::consts::PI;

fn near(v: f64) -> Want {
    if v.is_finite() {
        Val(v, 1e-9 * v.abs() + 3e-10)
    } else {
        Skip
    }
}

/// Not snapped, and not with a slope that could show it.
fn relative(v: f64) -> Want {
    Val(v, 1e-9 * v.abs())
}

fn exact(v: f64) -> Want {
    Val(v, 0.0)
}

/// The angle in radians, reduced in degrees, where it is exact.
fn angle(deg: f64) -> f64 {
    (deg % 360.0) / 180.0 * PI
}

fn sin_deg(d: f64) -> f64 {
    angle(d).sin()
}

fn cos_deg(d: f64) -> f64 {
    angle(d).cos()
}

/// A reciprocal of a function of an angle, or a quotient: `n / d`, where `d` has a zero.
fn ratio(deg: f64, n: f64, d: f64, pole: bool) -> Want {
    if deg.abs() > 1e6 {
        return Skip;
    }
    if pole {
        return if deg.abs() <= 36000.0 { Error } else { Skip };
    }
    if d.abs() < 1e-6 {
        return Skip;
    }
    let v = n / d;
    // An error of the angle, and of the snapping
    let e = 8.0 * f64::EPSILON * angle(deg.abs().max(1.0)).abs().max(deg.abs()) + 1.1 * SNAP;
    Val(v, v.abs() * (e / d.abs() + 1e-9) + 4.0 * e)
}

fn degrees(r: f64) -> Want {
    near(r / PI * 180.0)
}

/// The value of the functions over a real argument, with the angles in degrees.
pub fn reference(f: &str, a: &[f64]) -> Want {
    let x = a[0];
    let odd = |d: f64| d % 180.0 != 0.0 && d % 90.0 == 0.0;
    unsafe {
        match f {
            "abs" => exact(x.abs()),
            "signum" => exact(if x > 0.0 {
                1.0
            } else if x < 0.0 {
                -1.0
            } else {
                0.0
            }),
            "floor" | "ceil" | "trunc" | "round" => {
                let gap = (x - x.round()).abs();
                if gap > 0.5 * SNAP && gap < 2.0 * SNAP {
                    return Skip;
                }
                let x = if gap < SNAP { x.round() } else { x };
                exact(match f {
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "trunc" => x.trunc(),
                    _ => x.round(),
                })
            }
            // Smaller numbers are taken for zero
            "sqrt" if x < -1e-11 => {
                if x < -1e-9 { NoNumber } else { Skip }
            }
            "sqrt" if x < 1e-9 => Val(0.0, 4e-5),
            "sqrt" => near(sqrt(x)),
            "exp" if x.abs() > 600.0 => Skip,
            "exp" => relative(exp(x)),
            "ln" if x < 1e-11 => NoNumber,
            "ln" if x < 1e-9 => Skip,
            "ln" => near(log(x)),
            "log" if a.len() == 1 => {
                if x <= 0.0 {
                    Error
                } else {
                    near(log10(x))
                }
            }
            "log" => {
                let b = a[1];
                if x <= 0.0 || b < 0.0 {
                    return Error;
                }
                if b == 0.0 || (b - 1.0).abs() < 1e-3 {
                    return if b == 1.0 && x != 1.0 { Error } else { Skip };
                }
                near(log(x) / log(b))
            }
            "to_radians" => near(x / 180.0 * PI),
            "to_degrees" => {
                let v = x / PI * 180.0;
                // Snapped in radians
                Val(v, 1e-9 * v.abs().max(10.0))
            }
            "sin" | "cos" if x.abs() > 1e6 => Skip,
            "sin" => near(sin_deg(x)),
            "cos" => near(cos_deg(x)),
            // A pole is not seen by rounding
            "tan" if odd(x) => Skip,
            "tan" => ratio(x, sin_deg(x), cos_deg(x), false),
            "csc" => ratio(x, 1.0, sin_deg(x), x % 180.0 == 0.0),
            "sec" => ratio(x, 1.0, cos_deg(x), odd(x)),
            "cot" if odd(x) && x.abs() <= 36000.0 => near(0.0),
            "cot" => ratio(x, cos_deg(x), sin_deg(x), x % 180.0 == 0.0),
            "asin" | "acos" if x.abs() > 1.0 => Error,
            // The slope is infinite at the limits
            "asin" | "acos" if x.abs() != 1.0 && x.abs() > 1.0 - 1e-12 => Skip,
            "asin" => degrees(asin(x)),
            "acos" => degrees(acos(x)),
            "atan" if a.len() == 1 => degrees(atan(x)),
            "atan" if x == 0.0 && a[1] == 0.0 => Error,
            "atan" => degrees(atan2(x, a[1])),
            "acsc" | "asec" if x.abs() < 1.0 => Error,
            "acsc" | "asec" if x.abs() != 1.0 && x.abs() < 1.0 + 1e-9 => Skip,
            "acsc" => degrees(asin(1.0 / x)),
            "asec" => degrees(acos(1.0 / x)),
            "acot" if x == 0.0 && x.is_sign_negative() => Skip,
            "acot" if x == 0.0 => near(90.0),
            "acot" => degrees(atan(1.0 / x)),
            "sinh" | "cosh" if x.abs() > 300.0 => Skip,
            "sinh" => near(sinh(x)),
            "cosh" => near(cosh(x)),
            "tanh" => near(tanh(x)),
            "csch" | "coth" if x.abs() < 1e-3 => Skip,
            "csch" | "sech" if x.abs() > 300.0 => Skip,
            "csch" => relative(1.0 / sinh(x)),
            "sech" => relative(1.0 / cosh(x)),
            "coth" => near(1.0 / tanh(x)),
            "asinh" => degrees(asinh(x)),
            "acosh" if x < 1.0 => Error,
            "acosh" => degrees(acosh(x)),
            "atanh" if x.abs() >= 1.0 => Error,
            "atanh" if x.abs() > 1.0 - 1e-6 => Skip,
            "atanh" => degrees(atanh(x)),
            "acsch" if x == 0.0 => Error,
            "acsch" => degrees(asinh(1.0 / x)),
            "asech" if x <= 0.0 || x > 1.0 => Error,
            "asech" => degrees(acosh(1.0 / x)),
            "acoth" if x.abs() <= 1.0 => Error,
            "acoth" if x.abs() < 1.0 + 1e-6 => Skip,
            "acoth" => degrees(atanh(1.0 / x)),
            "max" => exact(a.iter().copied().fold(f64::MIN, f64::max)),
            "min" => exact(a.iter().copied().fold(f64::MAX, f64::min)),
            "sum" => Val(a.iter().sum(), 1e-13 * a.iter().map(|v| v.abs()).sum::<f64>()),
            "avg" => Val(a.iter().sum::<f64>() / a.len() as f64, 1e-13 * a.iter().map(|v| v.abs()).sum::<f64>()),
            "product" => {
                let v: f64 = a.iter().product();
                Val(v, 1e-13 * v.abs())
            }
            _ => unreachable!("{}", f),
        }
    }
}

const FUNCS: [&str; 45] = [
    "abs", "signum", "floor", "ceil", "trunc", "round", "sqrt", "exp", "ln", "log", "to_radians", "to_degrees",
    "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec", "acot", "sinh", "cosh",
    "tanh", "csch", "sech", "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth", "max", "min", "sum",
    "avg", "product", "log", "atan", "sin", "cos",
];
/// Of checked contexts only.
const CHECKED: [&str; 6] = ["abs", "signum", "floor", "ceil", "trunc", "round"];

/// An argument: angles, fractions, numbers at the limits of domains, of any magnitude.
pub fn argument(g: &mut Gen) -> f64 {
    let v = match g.below(10) {
        0 => g.below(12) as f64,
        1 => g.below(25) as f64 * 15.0,
        2 => g.below(1000) as f64 / 1000.0,
        3 => g.below(4000) as f64 / 100.0,
        4 => *g.pick(&[0.0, 1.0, 0.5, 90.0, 180.0, 270.0, 360.0, 45.0, 1.0000001, 0.9999999, 2.5, 0.1]),
        5 => g.range(0, 1000) as f64 * 90.0,
        6 => g.u64() as f64 / 18446744073709551616.0,
        7 => g.u64() as f64 / 18446744073709551616.0 * 10f64.powi(g.range(-6, 6) as i32),
        8 => g.range(0, 40) as f64 / 2.0 + g.range(-1, 1) as f64 * 10f64.powi(-(g.range(3, 13) as i32)),
        _ => g.range(0, 1_000_000_000) as f64 / 1000.0,
    };
    if g.chance(40) {
        -v
    } else {
        v
    }
}

pub trait Float: CheckedNum + UncheckedNum + 'static {
    /// The relative error of a value.
    const EPS: f64;
    fn from_wide(v: f64) -> Self;
    fn wide(&self) -> f64;
}
impl Float for f64 {
    const EPS: f64 = 0.0;
    fn from_wide(v: f64) -> f64 {
        v
    }
    fn wide(&self) -> f64 {
        *self
    }
}
impl Float for f32 {
    const EPS: f64 = 2e-7;
    fn from_wide(v: f64) -> f32 {
        v as f32
    }
    fn wide(&self) -> f64 {
        *self as f64
    }
}

fn args_for(g: &mut Gen, f: &str) -> Vec<f64> {
    let n = match f {
        "max" | "min" | "sum" | "avg" | "product" if g.chance(15) => 5 + g.below(16),
        "max" | "min" => 2 + g.below(3),
        "sum" | "avg" | "product" => 1 + g.below(4),
        "log" | "atan" => 1 + g.below(2),
        _ => 1,
    };
    // Of any magnitude
    let wild = g.chance(10);
    (0..n)
        .map(|_| match f64::from_bits(g.u64()) {
            v if wild && v.is_finite() => v,
            _ => argument(g),
        })
        .collect()
}

fn function_case<T: Float>(g: &mut Gen) -> Out {
    let f = *g.pick(&FUNCS);
    let args: Vec<T> = args_for(g, f).into_iter().map(T::from_wide).collect();
    let wide: Vec<f64> = args.iter().map(|a| a.wide()).collect();
    if wide.iter().any(|v| !v.is_finite()) {
        return discard();
    }
    let unchecked = g.chance(40) && !CHECKED.contains(&f);
    let want = reference(f, &wide);
    match want {
        Skip => return discard(),
        Val(v, tol) if !v.is_finite() || !tol.is_finite() => return discard(),
        // Out of the range of the type, maybe on the way to the result
        _ if f == "product" && {
            let sizes = || wide.iter().map(|v| v.abs()).filter(|v| *v != 0.0);
            let limit = if T::EPS > 0.0 { 1e37 } else { 1e300 };
            sizes().map(|v| v.max(1.0)).product::<f64>() > limit
                || sizes().map(|v| v.min(1.0)).product::<f64>() < 1.0 / limit
        } =>
        {
            return discard()
        }
        Val(v, _) if T::EPS > 0.0 && (v.abs() > 1e37 || (v != 0.0 && v.abs() < 1e-37)) => return discard(),
        _ => {}
    }
    let literal = g.chance(50);
    let mut ctx: DefaultContext<'static, T> =
        if unchecked { DefaultContext::new_unchecked() } else { DefaultContext::new_checked() };
    let mut texts = Vec::new();
    for (i, a) in args.iter().enumerate() {
        if literal {
            texts.push(format!("{}", a));
        } else {
            let name = format!("v{}", i);
            ctx.set_variable(&name, a.clone()).unwrap();
            texts.push(name);
        }
    }
    let text = format!("{}({})", f, texts.join(", "));
    let shown: Vec<String> = args.iter().map(|a| a.to_string()).collect();
    let name = std::any::type_name::<T>();
    let kind = if unchecked { "unchecked" } else { "checked" };
    let desc = format!("{} {} {}({})", name, kind, f, shown.join(", "));
    let got = match evaluate(ctx, &text) {
        Err(p) => return fail(desc, format!("expected {:?} but panicked: {}", want, p)),
        Ok(r) => r,
    };
    match (&want, &got) {
        (Error, Err(_)) | (NoNumber, Err(_)) => ok(desc, true, "out of the domain"),
        (NoNumber, Ok(x)) if !x.wide().is_finite() => ok(desc, true, "out of the domain"),
        (Val(v, tol), Ok(x)) => {
            let x = x.wide();
            // A sum is rounded at the magnitude of its terms
            let size = if f == "sum" || f == "avg" { wide.iter().map(|a| a.abs()).sum() } else { v.abs() };
            if (x - v).abs() <= tol + T::EPS * (2 + wide.len()) as f64 * size {
                ok(desc, true, "value")
            } else {
                fail(desc, format!("expected {} but got {}", v, x))
            }
        }
        _ => fail(desc, format!("expected {:?} but got {:?}", want, got)),
    }
}

//////////////////// Operators ////////////////////

struct FloatAlg<'b> {
    vars: &'b [f64],
}

impl Alg for FloatAlg<'_> {
    type V = f64;
    fn num(&mut self, s: &str) -> Result<f64, String> {
        Ok(s.parse().unwrap())
    }
    fn var(&mut self, i: usize) -> Result<f64, String> {
        Ok(self.vars[i])
    }
    fn konst(&mut self, i: usize) -> Result<f64, String> {
        Ok([PI, std::f64::consts::E][i])
    }
    fn prefix(&mut self, i: usize, v: f64) -> Result<f64, String> {
        Ok(if i == 0 { -v } else { v })
    }
    fn postfix(&mut self, _: usize, _: f64) -> Result<f64, String> {
        unreachable!()
    }
    fn bin(&mut self, i: usize, l: f64, r: f64) -> Result<f64, String> {
        Ok(match i {
            0 => l + r,
            1 => l - r,
            2 => l * r,
            _ if r == 0.0 => return Err("DivisionByZero".into()),
            3 => l / r,
            _ => l % r,
        })
    }
    fn call(&mut self, _: usize, _: Vec<f64>) -> Result<f64, String> {
        unreachable!()
    }
}

fn float_table() -> Table {
    let bin = |name, prec| Bin { name, prec, right: false };
    Table {
        bins: vec![bin("+", 1), bin("-", 1), bin("*", 2), bin("/", 2), bin("mod", 2)],
        prefix: vec!["-", "+"],
        postfix: vec![],
        funcs: vec![],
        vars: vec!["x", "y", "z"],
        consts: vec!["PI", "E"],
        custom_call: false,
    }
}

fn decimal_literal(g: &mut Gen) -> String {
    match g.below(5) {
        0 | 1 => g.below(20).to_string(),
        2 => format!("{}.{}", g.below(100), g.below(1000)),
        3 => g.u64().to_string(),
        _ => format!("0.{:06}", g.below(1_000_000)),
    }
}

fn operators_case(g: &mut Gen) -> Out {
    let t = float_table();
    let s = Shape {
        max_ops: 6,
        max_depth: 3,
        max_args: 0,
        num: decimal_literal,
        arity: |_| (0, 0),
        groups: &['('],
        juxt: false,
    };
    let vars: Vec<f64> = (0..3)
        .map(|_| match g.below(4) {
            0 | 1 => argument(g),
            2 => f64::from_bits(g.u64()),
            _ => *g.pick(&[0.0, -0.0, f64::MAX, f64::MIN_POSITIVE, 1e-300, 1e300, -1e17]),
        })
        .map(|v| if v.is_finite() { v } else { 7.25 })
        .collect();
    let c = gen_chain(g, &t, &s, 0);
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    let text = join_tight(&t, &tokens);
    let desc = format!("{} x={:e} y={:e} z={:e}", text, vars[0], vars[1], vars[2]);
    let expected = eval_chain(&t, &c, &mut FloatAlg { vars: &vars });
    let unchecked = g.chance(30);
    if unchecked && expected.is_err() {
        return discard();
    }
    let mut ctx: DefaultContext<'static, f64> =
        if unchecked { DefaultContext::new_unchecked() } else { DefaultContext::new_checked() };
    for (n, v) in t.vars.iter().zip(&vars) {
        ctx.set_variable(n, *v).unwrap();
    }
    let got = match evaluate(ctx, &text) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    match (&expected, &got) {
        (Ok(v), Ok(x)) if v.to_bits() == x.to_bits() || (v.is_nan() && x.is_nan()) => {
            ok(desc, weight(&c) > 0, if unchecked { "unchecked" } else { "checked" })
        }
        (Err(e), Err(k)) if e == k => ok(desc, true, "division by zero"),
        _ => fail(desc, format!("expected {:?} but got {:?}", expected, got)),
    }
}

fn power_case<T: Float>(g: &mut Gen) -> Out {
    let b = match g.below(10) {
        0..=3 => g.range(-12, 12) as f64,
        // Powers of these last
        4 => 1.0 + g.range(-1000, 1000) as f64 / [1e3, 1e4, 1e6, 1e9][g.below(4)],
        5 => (g.u64() >> g.below(64)) as f64 * [1.0, -1.0, 0.5, 0.001, 1e60][g.below(5)],
        _ => argument(g),
    };
    let e = match g.below(8) {
        0..=2 => g.range(-8, 20) as f64,
        3 => g.range(-40, 40) as f64 / 4.0,
        4 => g.range(-1100, 1100) as f64,
        5 => (g.u64() >> g.below(64)) as f64 * [1.0, -1.0][g.below(2)],
        6 => g.range(-4000, 4000) as f64 / 8.0,
        _ => argument(g) % 20.0,
    };
    // Negative numbers have no fractional powers
    let b = if e.fract() != 0.0 { b.abs() } else { b };
    let (b, e) = (T::from_wide(b), T::from_wide(e));
    let (x, y) = (b.wide(), e.wide());
    let v = unsafe { pow(x, y) };
    let unchecked = g.chance(40);
    let desc = format!("{} {} ^ {}", std::any::type_name::<T>(), x, y);
    let (most, least) = if T::EPS > 0.0 { (1e37, 1e-37) } else { (1e307, 1e-300) };
    if v.is_nan() {
        return discard();
    }
    let mut ctx: DefaultContext<'static, T> =
        if unchecked { DefaultContext::new_unchecked() } else { DefaultContext::new_checked() };
    ctx.set_variable("u", b).unwrap();
    ctx.set_variable("v", e).unwrap();
    match evaluate(ctx, "u ^ v") {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(_)) if v.abs() > most => ok(desc, true, "too large"),
        Ok(Ok(r)) if v.abs() > most && r.wide().abs() >= most && (r.wide() > 0.0) == (v > 0.0) => ok(desc, true, "too large"),
        Ok(Ok(r)) if v.abs() < least && r.wide().abs() <= 2.0 * least => ok(desc, true, "too small"),
        Ok(Ok(r)) if (r.wide() - v).abs() <= (1e-13 + T::EPS) * v.abs() => ok(desc, true, "power"),
        Ok(r) => fail(desc, format!("expected {} but got {:?}", v, r)),
    }
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "Over f64 and f32, checked and unchecked: a function with random arguments (nice angles, multiples of 90, numbers at and around the limits of its domain, of magnitudes from 1e-12 to 1e12), where the reference is the C mathematical library and an exact reduction of the angles, or an error out of its domain; powers; and random expressions of + - * / mod over numbers, constants and variables of any finite value, that have to be the IEEE ones to the bit; and calls with up to 65 thousand arguments. Non-trivial: all that is compared; values where the result is ill-conditioned are discarded.",
        subs: vec![
            sub("functions", 3_000_000, 70, || {
                Box::new(|g| if g.chance(75) { function_case::<f64>(g) } else { function_case::<f32>(g) })
            }),
            sub("operators", 1_000_000, 70, || Box::new(operators_case)),
            sub("powers", 800_000, 12, || {
                Box::new(|g| if g.chance(75) { power_case::<f64>(g) } else { power_case::<f32>(g) })
            }),
            crate::many::c09(),
        ],
    }
}

//////////////////// C23 ////////////////////

fn factorial_argument(g: &mut Gen) -> f64 {
    match g.below(8) {
        0 | 1 => g.below(30) as f64,
        2 => g.below(171) as f64,
        3 => g.below(1200) as f64 / 100.0,
        4 => g.u64() as f64 / 18446744073709551616.0,
        5 => g.u64() as f64 / 18446744073709551616.0 * 165.0,
        6 => g.below(60) as f64 + g.range(-1, 1) as f64 * 10f64.powi(-(g.range(1, 15) as i32)),
        _ => g.below(340) as f64 / 2.0,
    }
}

fn factorial_case<T: Float>(g: &mut Gen) -> Out {
    let unchecked = g.chance(40);
    let name = std::any::type_name::<T>();
    let v = if g.chance(12) {
        // Out of the domain, or too large
        if g.chance(60) {
            -factorial_argument(g)
        } else {
            172.0 + argument(g).abs()
        }
    } else {
        factorial_argument(g)
    };
    let v = T::from_wide(v).wide();
    let text = if v.is_sign_negative() { format!("({})!", v) } else { format!("{}!", v) };
    let desc = format!("{} {} {}", name, if unchecked { "unchecked" } else { "checked" }, text);
    let ctx: DefaultContext<'static, T> =
        if unchecked { DefaultContext::new_unchecked() } else { DefaultContext::new_checked() };
    let got = match evaluate(ctx, &text) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(r) => r.map(|x| x.wide()),
    };
    if v < 0.0 {
        return match got {
            Err(e) if e == "NegativeValue" => ok(desc, true, "negative"),
            r => fail(desc, format!("expected an error but got {:?}", r)),
        };
    }
    let want = unsafe { tgamma(v + 1.0) };
    if want > if T::EPS > 0.0 { 3.0e38 } else { 1.7e308 } {
        return match got {
            Ok(x) if x.is_finite() && !(want.is_finite() && (x - want).abs() <= 1e-5 * want) => {
                fail(desc, format!("expected an infinite value or an error but got {}", x))
            }
            _ => ok(desc, true, "too large"),
        };
    }
    let whole = v == v.trunc();
    // Below 23! they are exact
    let tolerance = if T::EPS > 0.0 {
        2e-5
    } else if whole && v <= 22.0 {
        0.0
    } else if whole {
        1e-12
    } else {
        1e-9
    };
    let want = if whole && v <= 22.0 { (1..=v as u64).fold(1.0, |a: f64, n| a * n as f64) } else { want };
    match got {
        Ok(x) if (x - want).abs() <= tolerance * want => ok(desc, true, if whole { "integer" } else { "fraction" }),
        r => fail(desc, format!("expected {:e} but got {:?}", want, r)),
    }
}

fn decimal_factorial_case(g: &mut Gen) -> Out {
    use num_traits::ToPrimitive;
    use rust_decimal::Decimal;
    let v = if g.chance(40) {
        Decimal::from(g.below(34) as u64)
    } else {
        match g.below(4) {
            0 => Decimal::from_i128_with_scale(g.below(27_000) as i128, 3),
            1 => Decimal::from_i128_with_scale(g.below(1_000_000_000) as i128, 9),
            2 => {
                let tiny = Decimal::from_i128_with_scale(1, 1 + g.below(27) as u32);
                let n = Decimal::from(1 + g.below(26) as u64);
                if g.chance(50) {
                    n + tiny
                } else {
                    n - tiny
                }
            }
            _ => Decimal::from_i128_with_scale(g.u64() as i128 * 3 / 2, 18),
        }
    };
    let v = if g.chance(10) && !v.is_zero() { -v } else { v };
    let text = format!("({})!", v);
    let got = match evaluate(DefaultContext::new_decimal(), &text) {
        Err(p) => return fail(text, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    if v < Decimal::from(0) {
        return match got {
            Err(_) => ok(text, true, "negative"),
            r => fail(text, format!("expected an error but got {:?}", r)),
        };
    }
    if v.fract().is_zero() {
        let n = v.to_u64().unwrap();
        return match (n <= 27, got) {
            (true, Ok(x)) if x.fract().is_zero() && x.to_i128() == Some((1..=n as i128).product()) => ok(text, true, "integer"),
            (false, Err(e)) if e == "Overflow" => ok(text, true, "too large"),
            (_, r) => fail(text, format!("got {:?}", r)),
        };
    }
    let x = v.to_f64().unwrap();
    let want = unsafe { tgamma(x + 1.0) };
    match got {
        Ok(r) if (r.to_f64().unwrap() - want).abs() <= 1e-9 * want => ok(text, true, "fraction"),
        // It gets larger on the way
        Err(_) if want > 7.0e28 => ok(text, true, "too large"),
        r => fail(text, format!("expected {:e} but got {:?}", want, r)),
    }
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        rule: "Factorials of f64 and f32, checked and unchecked, and of decimals: integers, fractions, numbers next to an integer, negative and too large ones; against exact products, the gamma function of the C library, or an error. Non-trivial: all.",
        subs: vec![
            sub("floats", 800_000, 12, || {
                Box::new(|g| if g.chance(70) { factorial_case::<f64>(g) } else { factorial_case::<f32>(g) })
            }),
            sub("decimals", 250_000, 12, || Box::new(decimal_factorial_case)),
        ],
    }
}
