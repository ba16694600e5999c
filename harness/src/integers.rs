//! C07, C08: arithmetic of integers, and of unchecked contexts.
use crate::engine::*;
use crate::grammar::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::evaluator::Evaluator;
use prexel::num::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedNum, CheckedRem, CheckedSub};
use prexel::num::unchecked::UncheckedNum;

pub trait Int: CheckedNum + UncheckedNum + std::fmt::Debug + 'static {
    const NAME: &'static str;
    const BITS: u32;
    fn from_wide(v: i128) -> Self;
}

macro_rules! ints {
    ($($t:ty),*) => ($(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = <$t>::BITS;
            fn from_wide(v: i128) -> Self {
                v as $t
            }
        }
    )*)
}
ints!(i8, i16, i32, i64, i128, isize);

/// The range of a type of integers.
struct Range {
    min: i128,
    max: i128,
}

impl Range {
    fn of<T: Int>() -> Range {
        let max = (1u128 << (T::BITS - 1)).wrapping_sub(1) as i128;
        Range { min: -max - 1, max }
    }
    fn check(&self, v: BigInt) -> Result<BigInt, String> {
        if v < BigInt::from(self.min) || v > BigInt::from(self.max) {
            Err("Overflow".into())
        } else {
            Ok(v)
        }
    }
}

const FUNCS: [&str; 12] =
    ["sum", "product", "avg", "max", "min", "abs", "signum", "floor", "ceil", "trunc", "round", "sqrt"];

fn table(functions: &[&'static str]) -> Table {
    let bin = |name, prec, right| Bin { name, prec, right };
    Table {
        bins: vec![
            bin("+", 1, false),
            bin("-", 1, false),
            bin("*", 2, false),
            bin("/", 2, false),
            bin("mod", 2, false),
            bin("^", 3, true),
        ],
        prefix: vec!["-", "+"],
        postfix: vec!["!"],
        funcs: functions.to_vec(),
        vars: vec!["a", "b", "c", "d"],
        consts: vec![],
        custom_call: false,
    }
}

fn arity(f: usize) -> (usize, usize) {
    match f {
        0..=2 => (1, 4),
        3 | 4 => (2, 4),
        _ => (1, 1),
    }
}

/// Numbers of any size, most of them small.
fn int_literal(g: &mut Gen) -> String {
    match g.below(12) {
        0..=7 => g.below(13).to_string(),
        8 => g.below(300).to_string(),
        9 => ((1u128 << (7 + g.below(57))) + g.below(3) as u128 - 1).to_string(),
        10 => {
            let at = *g.pick(&[7u32, 15, 31, 63, 127]);
            ((1u128 << at) - 1 - g.below(2) as u128).to_string()
        }
        _ => g.u64().to_string(),
    }
}

/// A value of a variable: small, at the limits, around powers of two and square roots of the limits.
fn int_value(g: &mut Gen, r: &Range, bits: u32) -> i128 {
    let v = match g.below(8) {
        0 => g.range(-6, 13) as i128,
        1 => r.max - g.below(4) as i128,
        2 => r.min + g.below(4) as i128,
        3 => r.max / (2 + g.below(4) as i128) + g.range(-2, 2) as i128,
        4 => r.min / (2 + g.below(4) as i128) + g.range(-2, 2) as i128,
        5 => {
            let root = (r.max as f64).sqrt() as i128;
            (root + g.range(-2, 2) as i128) * if g.chance(50) { -1 } else { 1 }
        }
        6 => {
            let p = 1i128 << g.below(bits as usize - 1);
            (p + g.range(-1, 1) as i128) * if g.chance(50) { -1 } else { 1 }
        }
        _ => (g.u128() as i128) >> (128 - bits),
    };
    v.clamp(r.min, r.max)
}

/// The exact arithmetic of a type of integers: the error is that of the first operation that fails.
struct IntAlg<'b> {
    r: &'b Range,
    vars: &'b [i128],
    funcs: &'b [&'static str],
}

/// Not specified, or out of what is compared.
const SKIP: &str = "skip";

impl Alg for IntAlg<'_> {
    type V = BigInt;
    fn num(&mut self, s: &str) -> Result<BigInt, String> {
        self.r.check(s.parse().unwrap()).map_err(|_| "literal".to_string())
    }
    fn var(&mut self, i: usize) -> Result<BigInt, String> {
        Ok(self.vars[i].into())
    }
    fn konst(&mut self, _: usize) -> Result<BigInt, String> {
        unreachable!()
    }
    fn prefix(&mut self, i: usize, v: BigInt) -> Result<BigInt, String> {
        self.r.check(if i == 0 { -v } else { v })
    }
    fn postfix(&mut self, _: usize, v: BigInt) -> Result<BigInt, String> {
        if v.is_negative() {
            return Err("NegativeValue".into());
        }
        if v > BigInt::from(40) {
            return Err("Overflow".into());
        }
        let mut n = BigInt::one();
        for i in 2..=v.to_u32().unwrap() {
            n *= i;
        }
        self.r.check(n)
    }
    fn bin(&mut self, i: usize, l: BigInt, r: BigInt) -> Result<BigInt, String> {
        let minus_one = BigInt::from(-1);
        match i {
            0 => self.r.check(l + r),
            1 => self.r.check(l - r),
            2 => self.r.check(l * r),
            3 | 4 if r.is_zero() => Err("DivisionByZero".into()),
            3 => self.r.check(l / r),
            // As the primitive types
            4 if r == minus_one && l == BigInt::from(self.r.min) => Err("Overflow".into()),
            4 => Ok(l % r),
            _ => {
                if l.is_one() || r.is_zero() {
                    return Ok(BigInt::one());
                }
                if l.is_zero() {
                    return if r.is_negative() { Err("Overflow".into()) } else { Ok(l) };
                }
                if l == minus_one {
                    // Handled as a float, without a digit for the parity
                    if r < BigInt::from(-(1i64 << 53)) || r > BigInt::from(u64::MAX) {
                        return Err(SKIP.into());
                    }
                    return Ok(if (r % 2u32).is_zero() { BigInt::one() } else { l });
                }
                if r.is_negative() {
                    return Ok(BigInt::zero());
                }
                match r.to_usize() {
                    Some(e) if e <= 128 => self.r.check(num_traits::pow(l, e)),
                    _ => Err("Overflow".into()),
                }
            }
        }
    }
    fn call(&mut self, i: usize, args: Vec<BigInt>) -> Result<BigInt, String> {
        let n = args.len();
        let fold = |f: &mut dyn FnMut(BigInt, BigInt) -> BigInt| {
            let mut it = args.iter().cloned();
            let mut acc = it.next().unwrap();
            for v in it {
                acc = self.r.check(f(acc, v))?;
            }
            Ok(acc)
        };
        match self.funcs[i] {
            "sum" => fold(&mut |a, b| a + b),
            "product" => fold(&mut |a, b| a * b),
            "avg" => fold(&mut |a, b| a + b).map(|s: BigInt| s / BigInt::from(n)),
            "max" => Ok(args.into_iter().max().unwrap()),
            "min" => Ok(args.into_iter().min().unwrap()),
            "abs" => self.r.check(args[0].abs()),
            "signum" => Ok(args[0].signum()),
            "sqrt" => {
                let x = args[0].to_i128().unwrap();
                let root = (x.max(0) as f64).sqrt() as i128;
                if x >= 0 && root < 1 << 26 && root * root == x {
                    Ok(root.into())
                } else {
                    Err(SKIP.into())
                }
            }
            // An integer is rounded to itself
            _ => Ok(args[0].clone()),
        }
    }
}

fn shape() -> Shape {
    Shape {
        max_ops: 5,
        max_depth: 3,
        max_args: 4,
        num: int_literal,
        arity,
        groups: &['('],
        juxt: false,
    }
}

pub fn kind_name<N>(r: prexel::Result<N>) -> Result<N, String> {
    r.map_err(|e| format!("{:?}", e.kind()))
}

pub fn evaluate<N: Clone + std::str::FromStr + 'static>(
    ctx: DefaultContext<'static, N>,
    text: &str,
) -> Result<Result<N, String>, String>
where
    N: std::fmt::Debug,
{
    let ev: *mut Evaluator<'static, N> = Box::into_raw(Box::new(Evaluator::with_context(ctx)));
    // No result borrows from the evaluator
    let r = guard(|| kind_name(unsafe { &*ev }.eval(text)));
    drop(unsafe { Box::from_raw(ev) });
    r
}

fn describe<T: Int>(text: &str, vars: &[i128], t: &Table) -> String {
    let used: Vec<String> = t
        .vars
        .iter()
        .zip(vars)
        .filter(|(n, _)| text.split(|c: char| !c.is_alphanumeric()).any(|w| w == **n))
        .map(|(n, v)| format!("{}={}", n, v))
        .collect();
    format!("{} {} {}", T::NAME, text, used.join(" "))
}

fn checked_case<T: Int>(g: &mut Gen) -> Out {
    let t = table(&FUNCS);
    let r = Range::of::<T>();
    let vars: Vec<i128> = (0..4).map(|_| int_value(g, &r, T::BITS)).collect();
    let c = gen_chain(g, &t, &shape(), 0);
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    let text = join_tight(&t, &tokens);
    let desc = describe::<T>(&text, &vars, &t);
    let w = weight(&c);

    let out_of_range = tokens.iter().any(|x| {
        x.parse::<BigInt>().map_or(false, |v| r.check(v).is_err())
    });
    let expected = if out_of_range {
        Err("literal".to_string())
    } else {
        eval_chain(&t, &c, &mut IntAlg { r: &r, vars: &vars, funcs: &FUNCS })
    };
    if expected == Err(SKIP.to_string()) {
        return discard();
    }
    let mut ctx: DefaultContext<'static, T> = DefaultContext::new_checked();
    for (n, v) in t.vars.iter().zip(&vars) {
        ctx.set_variable(n, T::from_wide(*v)).unwrap();
    }
    let got = match evaluate(ctx, &text) {
        Err(p) => return fail(desc, format!("expected {:?} but panicked: {}", expected, p)),
        Ok(r) => r,
    };
    match (expected, got) {
        (Ok(v), Ok(x)) if x.to_string() == v.to_string() => ok(desc, w >= 1, "value"),
        (Err(e), Err(_)) if e == "literal" => ok(desc, false, "literal out of range"),
        (Err(e), Err(k)) if e == k => {
            let class = match e.as_str() {
                "Overflow" => "overflow",
                "DivisionByZero" => "division by zero",
                _ => "negative factorial",
            };
            ok(desc, w >= 1, class)
        }
        (e, r) => fail(desc, format!("expected {} but got {:?}", show_result(&e), r)),
    }
}

fn show_result(r: &Result<BigInt, String>) -> String {
    match r {
        Ok(v) => format!("Ok({})", v),
        Err(e) => format!("Err({})", e),
    }
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "A random type among i8, i16, i32, i64, i128 and isize, random values of 4 variables (small, at the limits of the type, around its fractions, powers of two and the square root of the maximum, or any), and a random expression of + - * / mod ^ ! and functions over them and numbers; the result has to be the exact one by arithmetic of any precision where each operation is in range, or else the kind of error of the first operation that is not; and calls with up to 65 thousand arguments; and the checked operations of all integer types, unsigned ones too. Non-trivial: at least an operation, and no number out of range.",
        subs: vec![
            sub("expressions", 1_200_000, 120, || {
                Box::new(|g| match g.below(6) {
                    0 => checked_case::<i32>(g),
                    1 => checked_case::<i64>(g),
                    2 => checked_case::<i128>(g),
                    3 => checked_case::<i8>(g),
                    4 => checked_case::<i16>(g),
                    _ => checked_case::<isize>(g),
                })
            }),
            // A single operation over the extreme values
            sub("operations", 1_500_000, 24, || {
                Box::new(|g| match g.below(5) {
                    0 => operation_case::<i32>(g),
                    1 => operation_case::<i64>(g),
                    2 => operation_case::<i128>(g),
                    3 => operation_case::<i8>(g),
                    _ => operation_case::<i16>(g),
                })
            }),
            crate::many::c07(),
            sub("traits", 600_000, 12, || {
                Box::new(|g| match g.below(12) {
                    0 => trait_case::<i32>(g),
                    1 => trait_case::<i64>(g),
                    2 => trait_case::<i128>(g),
                    3 => trait_case::<i8>(g),
                    4 => trait_case::<i16>(g),
                    5 => trait_case::<isize>(g),
                    6 => trait_case::<u8>(g),
                    7 => trait_case::<u16>(g),
                    8 => trait_case::<u32>(g),
                    9 => trait_case::<u64>(g),
                    10 => trait_case::<u128>(g),
                    _ => trait_case::<usize>(g),
                })
            }),
        ],
    }
}

/// An integer type with the checked operations, unsigned ones have no negation.
trait Checked: CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + CheckedRem + Copy + std::fmt::Display {
    const NAME: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    fn of_bits(v: u128) -> Self;
    fn negated(&self) -> Option<Option<Self>>;
}
macro_rules! checked {
    ($($t:ty, $signed:expr, $neg:expr;)*) => ($(
        impl Checked for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = <$t>::BITS;
            const SIGNED: bool = $signed;
            fn of_bits(v: u128) -> Self {
                v as $t
            }
            fn negated(&self) -> Option<Option<Self>> {
                let neg: Option<fn(&$t) -> Option<$t>> = $neg;
                neg.map(|f| f(self))
            }
        }
    )*)
}
checked! {
    i8, true, Some(CheckedNeg::checked_neg);
    i16, true, Some(CheckedNeg::checked_neg);
    i32, true, Some(CheckedNeg::checked_neg);
    i64, true, Some(CheckedNeg::checked_neg);
    i128, true, Some(CheckedNeg::checked_neg);
    isize, true, Some(CheckedNeg::checked_neg);
    u8, false, None;
    u16, false, None;
    u32, false, None;
    u64, false, None;
    u128, false, None;
    usize, false, None;
}

/// A checked operation of a type, apart from any context.
fn trait_case<T: Checked>(g: &mut Gen) -> Out {
    let one = |g: &mut Gen| {
        let bits = match g.below(6) {
            0 => g.below(20) as u128,
            1 => (g.below(20) as u128).wrapping_neg(),
            // Next to the limits, and to powers of two
            2 | 3 => {
                let p = 1u128.checked_shl(if g.chance(50) { T::BITS - 1 } else { g.below(T::BITS as usize + 1) as u32 }).unwrap_or(0);
                p.wrapping_add(g.below(6) as u128).wrapping_sub(3)
            }
            4 => (1u128 << (T::BITS / 2)).wrapping_add(g.below(8) as u128).wrapping_sub(4),
            _ => g.u128() >> g.below(128),
        };
        T::of_bits(bits)
    };
    let (a, b) = (one(g), one(g));
    let op = *g.pick(&["+", "-", "*", "/", "mod", "neg"]);
    let desc = format!("{} {} {} {}", T::NAME, a, op, b);
    let (x, y): (BigInt, BigInt) = (a.to_string().parse().unwrap(), b.to_string().parse().unwrap());
    let got = guard(|| match op {
        "+" => Some(a.checked_add(&b)),
        "-" => Some(a.checked_sub(&b)),
        "*" => Some(a.checked_mul(&b)),
        "/" => Some(a.checked_div(&b)),
        "mod" => Some(a.checked_rem(&b)),
        _ => a.negated(),
    });
    let got = match got {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(None) => return discard(),
        Ok(Some(r)) => r.map(|v| v.to_string()),
    };
    let limit = BigInt::one() << (T::BITS - T::SIGNED as u32) as usize;
    let low = if T::SIGNED { -limit.clone() } else { BigInt::zero() };
    let exact = match op {
        "+" => Some(&x + &y),
        "-" => Some(&x - &y),
        "*" => Some(&x * &y),
        "/" if !y.is_zero() => Some(&x / &y),
        // It is 0, of a division that overflows
        "mod" if x == low && T::SIGNED && y == -BigInt::one() => return discard(),
        "mod" if !y.is_zero() => Some(&x % &y),
        "neg" => Some(-&x),
        _ => None,
    };
    let want = exact.filter(|v| *v >= low && *v < limit).map(|v| v.to_string());
    if want != got {
        return fail(desc, format!("expected {:?} but got {:?}", want, got));
    }
    ok(desc, true, if want.is_some() { "value of a trait" } else { "none of a trait" })
}

fn operation_case<T: Int>(g: &mut Gen) -> Out {
    let t = table(&FUNCS);
    let r = Range::of::<T>();
    let vars: Vec<i128> = (0..4).map(|_| int_value(g, &r, T::BITS)).collect();
    let mut vars = vars;
    // A base and an exponent
    vars[2] = (g.below(134) as i128 - 4).min(r.max);
    if g.chance(50) {
        vars[1] = g.range(-12, 12) as i128;
    }
    let mut alg = IntAlg { r: &r, vars: &vars, funcs: &FUNCS };
    let big = |i: usize| BigInt::from(vars[i]);
    let (text, expected) = match g.below(12) {
        0 => ("-a".to_string(), alg.prefix(0, big(0))),
        1 => ("c!".to_string(), alg.postfix(0, big(2))),
        2 => ("b ^ c".to_string(), alg.bin(5, big(1), big(2))),
        3 => ("b ^ a".to_string(), alg.bin(5, big(1), big(0))),
        4 => {
            let i = g.below(FUNCS.len());
            let n = arity(i).0.max(1 + g.below(arity(i).1));
            let args = vars[..n].iter().map(|v| BigInt::from(*v)).collect();
            (format!("{}({})", FUNCS[i], t.vars[..n].join(",")), alg.call(i, args))
        }
        k => {
            let i = (k - 5) % 6;
            (format!("a {} b", t.bins[i].name), alg.bin(i, big(0), big(1)))
        }
    };
    if expected == Err(SKIP.to_string()) {
        return discard();
    }
    let desc = describe::<T>(&text, &vars, &t);
    let mut ctx: DefaultContext<'static, T> = DefaultContext::new_checked();
    for (n, v) in t.vars.iter().zip(&vars) {
        ctx.set_variable(n, T::from_wide(*v)).unwrap();
    }
    match evaluate(ctx, &text) {
        Err(p) => fail(desc, format!("expected {} but panicked: {}", show_result(&expected), p)),
        Ok(Ok(x)) if expected.as_ref().map(|v| v.to_string()) == Ok(x.to_string()) => ok(desc, true, "value"),
        Ok(Err(k)) if expected == Err(k.clone()) => ok(desc, true, "error"),
        Ok(r) => fail(desc, format!("expected {} but got {:?}", show_result(&expected), r)),
    }
}

//////////////////// C08 ////////////////////

const SHARED: [&str; 6] = ["sum", "product", "avg", "max", "min", "sqrt"];

fn shared_arity(f: usize) -> (usize, usize) {
    match f {
        0..=2 => (1, 4),
        3 | 4 => (2, 4),
        _ => (1, 1),
    }
}

fn unchecked_case<T: Int>(g: &mut Gen) -> Out {
    let t = table(&SHARED);
    let r = Range::of::<T>();
    let vars: Vec<i128> = (0..4).map(|_| int_value(g, &r, T::BITS)).collect();
    let mut s = shape();
    s.arity = shared_arity;
    let c = gen_chain(g, &t, &s, 0);
    let expected = match eval_chain(&t, &c, &mut IntAlg { r: &r, vars: &vars, funcs: &SHARED }) {
        Ok(v) => v,
        // What an unchecked context does then is not specified
        Err(_) => return discard(),
    };
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    let text = join_tight(&t, &tokens);
    let desc = describe::<T>(&text, &vars, &t);
    let mut ctx: DefaultContext<'static, T> = DefaultContext::new_unchecked();
    for (n, v) in t.vars.iter().zip(&vars) {
        ctx.set_variable(n, T::from_wide(*v)).unwrap();
    }
    match evaluate(ctx, &text) {
        Err(p) => fail(desc, format!("expected {} but panicked: {}", expected, p)),
        Ok(Ok(x)) if x.to_string() == expected.to_string() => ok(desc, weight(&c) >= 1, "integers"),
        Ok(r) => fail(desc, format!("expected {} but got {:?}", expected, r)),
    }
}

fn float_literal(g: &mut Gen) -> String {
    match g.below(6) {
        0 | 1 => g.below(20).to_string(),
        2 => format!("{}.{}", g.below(30), g.below(1000)),
        3 => format!("0.{:04}", g.below(10000)),
        4 => g.below(1_000_000).to_string(),
        _ => format!("{}.{}", g.u64() >> 20, g.below(100)),
    }
}

const FLOAT_SHARED: [&str; 5] = ["sum", "product", "avg", "max", "min"];

/// Functions both contexts have, that round.
const FLOAT_FUNCS: [&str; 34] = [
    "sqrt", "ln", "log", "exp", "to_radians", "to_degrees", "sin", "cos", "tan", "csc", "sec", "cot", "asin",
    "acos", "atan", "acsc", "asec", "acot", "sinh", "cosh", "tanh", "csch", "sech", "coth", "asinh", "acosh",
    "atanh", "acsch", "asech", "acoth", "atan", "log", "max", "min",
];

pub trait Float: CheckedNum + UncheckedNum + std::fmt::Debug + 'static {
    fn wide(&self) -> f64;
    const EPS: f64;
}
impl Float for f64 {
    fn wide(&self) -> f64 {
        *self
    }
    const EPS: f64 = 1e-12;
}
impl Float for f32 {
    fn wide(&self) -> f64 {
        *self as f64
    }
    const EPS: f64 = 1e-5;
}

fn same_bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn config() -> Config {
    Config::new().with_grouping(Grouping::Bracket)
}

fn float_case<T: Float>(g: &mut Gen) -> Out {
    let single = g.chance(35);
    let (text, w) = if single {
        // One operation of those that round
        let x = float_literal(g);
        let neg = if g.chance(30) { "-" } else { "" };
        let f = *g.pick(&FLOAT_FUNCS);
        let text = match f {
            _ if g.chance(15) => format!("{}{}!", neg, g.below(60)),
            _ if g.chance(10) => format!("({}0.{})!", g.below(30), g.below(100)),
            _ if g.chance(15) => format!("({}{})^({}{})", neg, x, if g.chance(30) { "-" } else { "" }, float_literal(g)),
            "atan" | "log" | "max" | "min" if g.chance(50) => format!("{}({}{}, {})", f, neg, x, float_literal(g)),
            _ => format!("{}({}{})", f, neg, x),
        };
        (text, 1)
    } else {
        let mut t = table(&FLOAT_SHARED);
        t.bins.truncate(5);
        t.vars.clear();
        t.consts = vec!["PI", "E"];
        t.postfix.clear();
        let mut s = shape();
        s.num = float_literal;
        s.arity = shared_arity;
        let c = gen_chain(g, &t, &s, 0);
        let mut tokens = Vec::new();
        write_chain(&t, &c, &mut tokens);
        (join_tight(&t, &tokens), weight(&c))
    };
    let name = std::any::type_name::<T>();
    let desc = format!("{} {}", name, text);
    let checked = match evaluate(DefaultContext::<T>::with_config_checked(config()), &text) {
        Err(p) => return fail(desc, format!("checked panicked: {}", p)),
        Ok(r) => r,
    };
    let unchecked = match evaluate(DefaultContext::<T>::with_config_unchecked(config()), &text) {
        Err(p) => return fail(desc, format!("unchecked panicked: {}", p)),
        Ok(r) => r,
    };
    match (&checked, &unchecked) {
        (Ok(a), Ok(b)) => {
            let (x, y) = (a.wide(), b.wide());
            let near = (x - y).abs() <= T::EPS * x.abs().max(1e-300);
            if same_bits(x, y) || (single && near) {
                ok(desc, w >= 1, if single { "float functions" } else { "float operators" })
            } else {
                fail(desc, format!("checked {:?} but unchecked {:?}", a, b))
            }
        }
        (Ok(a), Err(e)) => fail(desc, format!("checked {:?} but unchecked error {}", a, e)),
        (Err(_), _) => ok(desc, false, "checked error"),
    }
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "Random expressions over an unchecked context: of integers for which no operation of the exact evaluation leaves the range (otherwise discarded), the value has to be the exact one; of f32 and f64, the value of the checked context where that has one, to the bit for operators, sum, product, avg, max and min, and to rounding for a single function, factorial or power; and calls with up to 65 thousand arguments. Non-trivial: at least an operation that was compared.",
        subs: vec![
            sub("integers", 1_200_000, 90, || {
                Box::new(|g| match g.below(4) {
                    0 => unchecked_case::<i32>(g),
                    1 => unchecked_case::<i64>(g),
                    2 => unchecked_case::<i128>(g),
                    _ => unchecked_case::<i16>(g),
                })
            }),
            sub("floats", 800_000, 90, || {
                Box::new(|g| if g.chance(70) { float_case::<f64>(g) } else { float_case::<f32>(g) })
            }),
            crate::many::c08(),
        ],
    }
}
