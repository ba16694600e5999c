//! Calls with hundreds or thousands of arguments, for the properties of each type of number.
use crate::engine::*;
use crate::integers::{evaluate, kind_name};
use crate::large::{count, huge};
use num_complex::Complex;
use prexel::context::{Context, DefaultContext};
use rust_decimal::prelude::ToPrimitive;
use rust_decimal::Decimal;
use std::fmt::Debug;
use std::str::FromStr;

/// A number that can be checked against an exact quotient.
pub trait Many: FromStr + Debug + Clone + PartialEq + 'static {
    /// All the integers within the limits are exact.
    const LOW: i128;
    const HIGH: i128;
    const WHOLE: bool;
    fn of(v: i64) -> Self;
    /// If it is the quotient: truncated for integers, otherwise rounded.
    fn is(&self, num: i128, den: i128) -> bool;
}

macro_rules! ints {
    ($($t:ident),*) => {$(
        impl Many for $t {
            const LOW: i128 = $t::MIN as i128;
            const HIGH: i128 = $t::MAX as i128;
            const WHOLE: bool = true;
            fn of(v: i64) -> Self {
                v as $t
            }
            fn is(&self, num: i128, den: i128) -> bool {
                *self as i128 == num / den
            }
        }
    )*}
}
ints!(i8, i16, i32, i64, i128, isize);

macro_rules! floats {
    ($($t:ident $limit:expr),*) => {$(
        impl Many for $t {
            const LOW: i128 = -$limit;
            const HIGH: i128 = $limit;
            const WHOLE: bool = false;
            fn of(v: i64) -> Self {
                v as $t
            }
            fn is(&self, num: i128, den: i128) -> bool {
                let want = num as $t / den as $t;
                (*self - want).abs() <= want.abs() * 4.0 * $t::EPSILON
            }
        }
        impl Many for Complex<$t> {
            const LOW: i128 = -$limit;
            const HIGH: i128 = $limit;
            const WHOLE: bool = false;
            fn of(v: i64) -> Self {
                Complex::new(v as $t, 0.0)
            }
            fn is(&self, num: i128, den: i128) -> bool {
                self.im == 0.0 && self.re.is(num, den)
            }
        }
    )*}
}
floats!(f32 (1 << 24), f64 (1 << 53));

impl Many for Decimal {
    const LOW: i128 = -(1 << 95);
    const HIGH: i128 = 1 << 95;
    const WHOLE: bool = false;
    fn of(v: i64) -> Self {
        Decimal::from(v)
    }
    fn is(&self, num: i128, den: i128) -> bool {
        // The operands have few digits, so the decimal keeps enough of them
        let back = *self * Decimal::from(den as i64) - Decimal::from(num as i64);
        back.to_f64().unwrap().abs() <= 1e-20
    }
}

/// A function over many arguments, called, or evaluated from text.
/// `unchecked` discards what leaves the range, otherwise that has to be an error.
fn long_case<N: Many>(g: &mut Gen, name: &str, unchecked: bool, ctx: DefaultContext<'static, N>) -> Out {
    let comparable = ctx.is_function("max");
    let f = *g.pick(if comparable { &["sum", "avg", "product", "max", "min"][..] } else { &["sum", "avg", "product"][..] });
    let direct = g.chance(50);
    let n = if direct && g.chance(5) { huge(g) } else { count(g) };
    let k = 1 + g.below(5);
    let most = if N::HIGH < 1000 { 3 } else { 200 };
    let mut pool: Vec<i64> = (0..k)
        .map(|_| match f {
            "product" => 1 - 2 * g.below(2) as i64,
            _ => g.range(-most, most),
        })
        .collect();
    if g.chance(30) {
        // Without a change of the sign the sum is large
        pool.iter_mut().for_each(|v| *v = v.abs());
    }
    let mut values: Vec<i64> = (0..n).map(|i| pool[i % k]).collect();
    for _ in 0..g.below(4) {
        // Another value, at any place, also the last
        let at = if g.chance(50) { n - 1 - g.below(n.min(3)) } else { g.below(n) };
        values[at] = g.range(-100, 100);
    }
    let desc = format!("{} {} of {} arguments, {:?}...", name, f, n, &values[..n.min(8)]);
    // The exact value, and if a step leaves the range
    let mut exact = values[0] as i128;
    let mut out = false;
    for v in &values[1..] {
        let v = *v as i128;
        exact = match f {
            "product" => exact * v,
            "max" => exact.max(v),
            "min" => exact.min(v),
            _ => exact + v,
        };
        out |= exact < N::LOW || exact > N::HIGH;
        if out {
            break;
        }
    }
    let den = if f == "avg" { n as i128 } else { 1 };
    out |= den > N::HIGH;
    if out && (unchecked || !N::WHOLE) {
        return discard();
    }
    let args: Vec<N> = values.iter().map(|v| N::of(*v)).collect();
    let got = if direct {
        match guard(|| kind_name(ctx.get_function(f).expect("the function").call(&args))) {
            Ok(r) => r,
            Err(p) => return fail(desc, format!("panicked: {}", p)),
        }
    } else {
        let mut ctx = ctx;
        let mut known: Vec<i64> = Vec::new();
        let mut text = format!("{}(", f);
        for (i, v) in values.iter().enumerate() {
            let at = known.iter().position(|k| k == v).unwrap_or_else(|| {
                known.push(*v);
                ctx.set_variable(&format!("v{}", known.len() - 1), N::of(*v)).unwrap();
                known.len() - 1
            });
            text.push_str(&format!("{}v{}", if i > 0 { ", " } else { "" }, at));
        }
        text.push(')');
        match evaluate(ctx, &text) {
            Ok(r) => r,
            Err(p) => return fail(desc, format!("panicked: {}", p)),
        }
    };
    match got {
        Err(e) if out && e == "Overflow" => ok(desc, true, "overflow"),
        Ok(v) if !out && v.is(exact, den) => ok(desc, n > 20, f),
        r => fail(desc, format!("expected {}{} but got {:?}", exact as f64 / den as f64, if out { " out of range" } else { "" }, r)),
    }
}

const CASES: u64 = 20_000;

pub fn c07() -> Sub {
    sub("many", CASES, 30, || {
        Box::new(|g| match g.below(6) {
            0 => long_case::<i32>(g, "i32", false, DefaultContext::new_checked()),
            1 => long_case::<i64>(g, "i64", false, DefaultContext::new_checked()),
            2 => long_case::<i8>(g, "i8", false, DefaultContext::new_checked()),
            3 => long_case::<i16>(g, "i16", false, DefaultContext::new_checked()),
            4 => long_case::<isize>(g, "isize", false, DefaultContext::new_checked()),
            _ => long_case::<i128>(g, "i128", false, DefaultContext::new_checked()),
        })
    })
}

pub fn c08() -> Sub {
    sub("many", CASES, 30, || {
        Box::new(|g| match g.below(6) {
            0 => long_case::<i32>(g, "i32 unchecked", true, DefaultContext::new_unchecked()),
            1 => long_case::<i64>(g, "i64 unchecked", true, DefaultContext::new_unchecked()),
            2 => long_case::<i16>(g, "i16 unchecked", true, DefaultContext::new_unchecked()),
            3 => long_case::<f32>(g, "f32 unchecked", true, DefaultContext::new_unchecked()),
            4 => long_case::<f64>(g, "f64 unchecked", true, DefaultContext::new_unchecked()),
            _ => long_case::<i128>(g, "i128 unchecked", true, DefaultContext::new_unchecked()),
        })
    })
}

pub fn c09() -> Sub {
    sub("many", CASES, 30, || {
        Box::new(|g| match g.below(4) {
            0 => long_case::<f64>(g, "f64", false, DefaultContext::new_checked()),
            1 => long_case::<f32>(g, "f32", false, DefaultContext::new_checked()),
            2 => long_case::<f64>(g, "f64 unchecked", false, DefaultContext::new_unchecked()),
            _ => long_case::<f32>(g, "f32 unchecked", false, DefaultContext::new_unchecked()),
        })
    })
}

pub fn c10() -> Sub {
    sub("many", CASES, 30, || Box::new(|g| long_case::<Decimal>(g, "decimal", false, DefaultContext::new_decimal())))
}

pub fn c12() -> Sub {
    sub("many", CASES, 30, || {
        Box::new(|g| {
            if g.chance(70) {
                long_case::<Complex<f64>>(g, "complex", false, DefaultContext::new_complex())
            } else {
                long_case::<Complex<f32>>(g, "complex f32", false, DefaultContext::new_complex())
            }
        })
    })
}

pub fn c20() -> Sub {
    use crate::wrappers::{Int, Long, Real};
    sub("many", CASES / 2, 30, || {
        Box::new(|g| match g.below(3) {
            0 => long_case::<Long>(g, "wrapped i64", false, DefaultContext::new_checked()),
            1 => long_case::<Int>(g, "wrapped i32", false, DefaultContext::new_checked()),
            _ => long_case::<Real>(g, "wrapped f64", false, DefaultContext::new_checked()),
        })
    })
}
