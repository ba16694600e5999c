//! C20: number types defined with the macros.
use crate::engine::*;
use crate::floats::argument;
use crate::grammar::*;
use crate::integers::evaluate;
use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
use prexel::context::{Context, DefaultContext};
use prexel::num::checked::*;
use std::fmt::{Debug, Display};
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};
use std::str::FromStr;

/// The macros need these names, and no other.
mod types {
    use super::Wrapper;
    use num_traits::{FromPrimitive, One, ToPrimitive, Zero};

    macro_rules! wrapper {
        ($name:ident, $t:ty) => {
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::build(v)
                }
            }
            impl Wrapper for $name {
                type Raw = $t;
                fn raw(&self) -> $t {
                    self.get()
                }
                fn wrap(v: $t) -> Self {
                    Self::build(v)
                }
            }
        };
    }

    pub struct Long(i64);
    impl Long {
        fn build(v: i64) -> Self {
            Long(v)
        }
        fn get(&self) -> i64 {
            self.0
        }
    }
    wrapper!(Long, i64);
    prexel::impl_checked_num_traits_with_field_and_from_str!(Long => 0, i64);

    /// The field is not the only one, and has a name.
    pub struct Int {
        _made: u8,
        value: i32,
    }
    impl Int {
        fn build(value: i32) -> Self {
            Int { _made: 1, value }
        }
        fn get(&self) -> i32 {
            self.value
        }
    }
    wrapper!(Int, i32);
    prexel::impl_checked_num_traits_with_field_and_from_str!(Int => value, i32);

    pub struct Real(f64);
    impl Real {
        fn build(v: f64) -> Self {
            Real(v)
        }
        fn get(&self) -> f64 {
            self.0
        }
    }
    impl From<i32> for Real {
        fn from(v: i32) -> Self {
            Real(v.into())
        }
    }
    wrapper!(Real, f64);
    prexel::impl_checked_num_traits_with_field_and_from_str!(Real => 0, f64);

    /// Without the checked traits.
    pub struct Plain(i64);
    impl Plain {
        fn build(v: i64) -> Self {
            Plain(v)
        }
        fn get(&self) -> i64 {
            self.0
        }
    }
    wrapper!(Plain, i64);
    prexel::impl_unchecked_num_traits_with_field_and_from_str!(Plain => 0, i64);
}
pub use types::*;

pub trait Wrapper: Sized {
    type Raw;
    fn raw(&self) -> Self::Raw;
    fn wrap(v: Self::Raw) -> Self;
}

/// The operations of a type on two values, as text, with the panics.
fn unchecked<T>(make: impl Fn() -> (T, T)) -> Vec<(&'static str, String)>
where
    T: Add<Output = T>
        + Sub<Output = T>
        + Mul<Output = T>
        + Div<Output = T>
        + Rem<Output = T>
        + Neg<Output = T>
        + Zero
        + One
        + PartialOrd
        + ToPrimitive
        + FromPrimitive
        + Clone
        + Display
        + Debug
        + FromStr,
{
    let run = |f: &dyn Fn(T, T) -> String| match guard(|| {
        let (a, b) = make();
        f(a, b)
    }) {
        Ok(s) => s,
        Err(_) => "panic".to_string(),
    };
    vec![
        ("+", run(&|a, b| format!("{}", a + b))),
        ("-", run(&|a, b| format!("{}", a - b))),
        ("*", run(&|a, b| format!("{}", a * b))),
        ("/", run(&|a, b| format!("{}", a / b))),
        ("%", run(&|a, b| format!("{}", a % b))),
        ("neg", run(&|a, _| format!("{}", -a))),
        ("zero", run(&|a, _| format!("{} {}", T::zero(), a.is_zero()))),
        ("one", run(&|a, _| format!("{} {}", T::one(), a.is_one()))),
        ("order", run(&|a, b| format!("{:?} {:?}", a.partial_cmp(&b), b.partial_cmp(&a)))),
        ("equality", run(&|a, b| format!("{} {} {}", a == b, a != b, a.eq(&a)))),
        ("comparisons", run(&|a, b| format!("{} {} {} {}", a < b, a <= b, a > b, a >= b))),
        ("to", run(&|a, _| format!("{:?} {:?} {:?} {:?}", a.to_i64(), a.to_u64(), a.to_f64(), a.to_i32()))),
        (
            "from",
            run(&|_, b| {
                let n = b.to_i64().unwrap_or(7);
                format!("{:?} {:?} {:?}", T::from_i64(n), T::from_u64(n as u64), T::from_f64(n as f64 / 4.0))
            }),
        ),
        ("clone", run(&|a, _| format!("{}", a.clone()))),
        ("display", run(&|a, _| format!("{} {:?} {:>12} {:+}", a, a, a, a))),
        ("text", run(&|a, _| match T::from_str(&a.to_string()) {
            Ok(v) => format!("{} {}", v, v == a),
            Err(_) => "error".into(),
        })),
        ("bad text", run(&|a, _| format!("{}", T::from_str(&format!("{}x", a)).is_err()))),
    ]
}

fn checked<T: CheckedNum>(make: impl Fn() -> (T, T)) -> Vec<(&'static str, String)> {
    let run = |f: &dyn Fn(T, T) -> Option<T>| match guard(|| {
        let (a, b) = make();
        f(a, b).map(|v| v.to_string())
    }) {
        Ok(s) => format!("{:?}", s),
        Err(_) => "panic".to_string(),
    };
    vec![
        ("checked_add", run(&|a, b| a.checked_add(&b))),
        ("checked_sub", run(&|a, b| a.checked_sub(&b))),
        ("checked_mul", run(&|a, b| a.checked_mul(&b))),
        ("checked_div", run(&|a, b| a.checked_div(&b))),
        ("checked_rem", run(&|a, b| a.checked_rem(&b))),
        ("checked_neg", run(&|a, _| a.checked_neg())),
    ]
}

fn compare(desc: String, a: Vec<(&'static str, String)>, b: Vec<(&'static str, String)>) -> Out {
    for ((op, x), (_, y)) in a.into_iter().zip(b) {
        if x != y {
            return fail(desc, format!("`{}` gives {} but the field's gives {}", op, x, y));
        }
    }
    ok(desc, true, "same")
}

fn integer(g: &mut Gen, bits: u32) -> i64 {
    let max = (1i128 << (bits - 1)) - 1;
    let v = match g.below(6) {
        0 | 1 => g.range(-12, 12) as i128,
        2 => g.range(-100_000, 100_000) as i128,
        3 => max - g.below(3) as i128,
        4 => -max - 1 + g.below(3) as i128,
        _ => (g.u128() as i128) >> (128 - bits),
    };
    v as i64
}

fn operations_case(g: &mut Gen) -> Out {
    match g.below(4) {
        0 => {
            let (a, b) = (integer(g, 64), integer(g, 64));
            let all = [unchecked(|| (Long::wrap(a), Long::wrap(b))), checked(|| (Long::wrap(a), Long::wrap(b)))].concat();
            compare(format!("i64 {} {}", a, b), all, [unchecked(|| (a, b)), checked(|| (a, b))].concat())
        }
        1 => {
            let (a, b) = (integer(g, 32) as i32, integer(g, 32) as i32);
            let all = [unchecked(|| (Int::wrap(a), Int::wrap(b))), checked(|| (Int::wrap(a), Int::wrap(b)))].concat();
            compare(format!("i32 {} {}", a, b), all, [unchecked(|| (a, b)), checked(|| (a, b))].concat())
        }
        2 => {
            let mut v = || match g.below(8) {
                0 => *g.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::MAX, f64::MIN_POSITIVE]),
                _ => argument(g),
            };
            let (a, b) = (v(), v());
            let all = [unchecked(|| (Real::wrap(a), Real::wrap(b))), checked(|| (Real::wrap(a), Real::wrap(b)))].concat();
            compare(format!("f64 {} {}", a, b), all, [unchecked(|| (a, b)), checked(|| (a, b))].concat())
        }
        _ => {
            let (a, b) = (integer(g, 64), integer(g, 64));
            compare(format!("plain i64 {} {}", a, b), unchecked(|| (Plain::wrap(a), Plain::wrap(b))), unchecked(|| (a, b)))
        }
    }
}

fn table() -> Table {
    let bin = |name, prec, right| Bin { name, prec, right };
    Table {
        bins: vec![
            bin("+", 1, false),
            bin("-", 1, false),
            bin("*", 2, false),
            bin("/", 2, false),
            bin("mod", 2, false),
            bin("^", 3, true),
        ],
        prefix: vec!["-", "+"],
        postfix: vec!["!"],
        funcs: vec!["sum", "product", "avg", "max", "min", "abs", "signum", "sqrt", "floor", "round", "sin", "atan", "log"],
        vars: vec!["x", "y"],
        consts: vec!["PI", "E"],
        custom_call: false,
    }
}

fn number(g: &mut Gen) -> String {
    match g.below(6) {
        0..=3 => g.below(13).to_string(),
        4 => g.below(100_000).to_string(),
        _ => (i32::MAX as i64 - g.below(3) as i64).to_string(),
    }
}

/// The same expression over a type and its wrapper.
fn same_expression<W>(g: &mut Gen, name: &str, tolerance: f64, values: [W::Raw; 2]) -> Out
where
    W: Wrapper + CheckedNum + 'static,
    W::Raw: CheckedNum + Clone + 'static,
{
    let t = table();
    let s = Shape {
        max_ops: 4,
        max_depth: 2,
        max_args: 3,
        num: number,
        arity: |f| match f {
            0..=2 => (1, 3),
            3 | 4 => (2, 3),
            _ => (1, 1),
        },
        groups: &['('],
        juxt: false,
    };
    let c = gen_chain(g, &t, &s, 0);
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    let text = join_spaced(&tokens);
    let desc = format!("{} {} x={} y={}", name, text, values[0], values[1]);
    let mut raw: DefaultContext<'static, W::Raw> = DefaultContext::new_checked();
    let mut wrapped: DefaultContext<'static, W> = DefaultContext::new_checked();
    for (n, v) in t.vars.iter().zip(&values) {
        raw.set_variable(n, v.clone()).unwrap();
        wrapped.set_variable(n, W::wrap(v.clone())).unwrap();
    }
    let (want, got) = match (evaluate(raw, &text), evaluate(wrapped, &text)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return fail(desc, format!("panicked: {:?} {:?}", a.err(), b.err())),
    };
    match (&want, &got) {
        (Err(a), Err(b)) if a == b => ok(desc, true, "error"),
        (Ok(a), Ok(b)) => {
            let (x, y) = (a.to_f64().unwrap(), b.raw().to_f64().unwrap());
            let close = a.to_string() == b.to_string() || (x - y).abs() <= tolerance * x.abs() || (x.is_nan() && y.is_nan());
            if close {
                ok(desc, weight(&c) > 0, "value")
            } else {
                fail(desc, format!("{} but the field's type gives {}", b, a))
            }
        }
        _ => fail(desc, format!("{:?} but the field's type gives {:?}", got, want)),
    }
}

fn expression_case(g: &mut Gen) -> Out {
    match g.below(3) {
        0 => {
            let v = [integer(g, 64), integer(g, 64)];
            same_expression::<Long>(g, "i64", 0.0, v)
        }
        1 => {
            let v = [integer(g, 32) as i32, integer(g, 32) as i32];
            same_expression::<Int>(g, "i32", 0.0, v)
        }
        _ => {
            let v = [argument(g), argument(g)];
            same_expression::<Real>(g, "f64", 1e-9, v)
        }
    }
}

macro_rules! many {
    ($($name:ident $t:ty),*) => {$(
        impl crate::many::Many for $name {
            const LOW: i128 = <$t as crate::many::Many>::LOW;
            const HIGH: i128 = <$t as crate::many::Many>::HIGH;
            const WHOLE: bool = <$t as crate::many::Many>::WHOLE;
            fn of(v: i64) -> Self {
                Self::wrap(<$t as crate::many::Many>::of(v))
            }
            fn is(&self, num: i128, den: i128) -> bool {
                self.raw().is(num, den)
            }
        }
    )*}
}
many!(Long i64, Int i32, Real f64);

pub fn c20() -> Property {
    Property {
        id: "C20",
        rule: "Types defined with the macros over i64, i32 (a named field) and f64, checked and unchecked, each operation on random and extreme values against that of the field's type, panics included; and random expressions over the checked context of both types, and calls with many arguments. Non-trivial: all operations, and expressions with one.",
        subs: vec![
            sub("operations", 300_000, 16, || Box::new(operations_case)),
            sub("expressions", 300_000, 60, || Box::new(expression_case)),
            crate::many::c20(),
        ],
    }
}
