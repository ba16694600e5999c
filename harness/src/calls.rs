//! C19: what functions accept, and random numbers.
use crate::engine::*;
use crate::integers::{evaluate, kind_name};
use num_complex::Complex;
use prexel::context::{Context, DefaultContext};
use rust_decimal::Decimal;
use std::fmt::Debug;
use std::str::FromStr;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Checked,
    Unchecked,
    Dec,
    Comp,
}
use Kind::*;

/// No maximum.
const ANY: usize = usize::MAX;

const TRIG: &str = "sin cos tan csc sec cot asin acos acsc asec acot sinh cosh tanh csch sech coth asinh acosh atanh acsch asech acoth";

/// The functions of a context, and the counts of arguments they accept.
fn functions(k: Kind) -> Vec<(&'static str, usize, usize)> {
    let mut all: Vec<(&'static str, usize, usize)> = TRIG.split(' ').map(|f| (f, 1, 1)).collect();
    all.extend(["sqrt", "exp", "ln"].iter().map(|f| (*f, 1, 1)));
    all.extend([("sum", 1, ANY), ("avg", 1, ANY), ("product", 1, ANY), ("random", 0, 2), ("log", 1, 2)]);
    all.push(("atan", 1, if k == Comp { 1 } else { 2 }));
    if k != Comp {
        all.extend([("max", 2, ANY), ("min", 2, ANY), ("to_radians", 1, 1), ("to_degrees", 1, 1)]);
    }
    match k {
        Checked => all.extend(["abs", "signum", "floor", "ceil", "trunc", "round"].iter().map(|f| (*f, 1, 1))),
        Dec => all.extend(["cbrt", "floor", "ceil", "truncate", "round"].iter().map(|f| (*f, 1, 1))),
        _ => {}
    }
    all
}

fn count_case<N: FromStr + Debug + Clone + PartialEq + 'static>(
    g: &mut Gen,
    name: &str,
    kind: Kind,
    ctx: DefaultContext<'static, N>,
) -> Out {
    const ARGS: [&str; 12] = ["0", "1", "2", "3", "10", "90", "5", "7", "(1)", "(2 + 1)", "4 * 2", "sum(1, 2)"];
    let all = functions(kind);
    let (f, low, high) = *g.pick(&all);
    let n = match g.below(10_000) {
        9_980 => *g.pick(&[65_536usize, 65_537, 65_538, 65_539]),
        9_981..=9_999 => *g.pick(&[1024usize, 1025, 1026, 32_769]),
        9_800..=9_890 => *g.pick(&[128usize, 129, 130, 255, 256, 257, 258, 259, 513, 514]),
        9_700..=9_799 => 10 + g.below(60),
        _ => [0, 1, 1, 2, 2, 3, 3, 4, 5, 9][g.below(10)],
    };
    // No more choices than these for many arguments
    let first: Vec<&str> = (0..n.min(9)).map(|_| *g.pick(&ARGS)).collect();
    let args: Vec<&str> = (0..n).map(|i| if n < 10 { first[i] } else { "1" }).collect();
    let shown = match g.below(4) {
        0 => f.to_ascii_uppercase(),
        _ => f.to_string(),
    };
    let around = g.below(4);
    let call = format!("{}({})", shown, args.join(", "));
    // The other operands are not arguments
    let text = match around {
        0 => format!("1 + {}", call),
        1 => format!("2 * ({})", call),
        _ => call,
    };
    let desc = format!("{} {}", name, crate::large::shorten(&text, n));
    let accepted = (low..=high).contains(&n);
    let values: Vec<N> = args.iter().map(|_| N::from_str("1").ok().unwrap()).collect();
    let direct = match ctx.get_function(f) {
        None => return fail(desc, "the function does not exist"),
        Some(f) => match guard(|| kind_name(f.call(&values))) {
            Ok(r) => r,
            Err(p) => return fail(desc, format!("panicked when called: {}", p)),
        },
    };
    let got = match evaluate(ctx, &text) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    for (how, r) in [("evaluated", &got), ("called", &direct)] {
        let refused = r.as_ref().err().map(|e| e.as_str()) == Some("InvalidArgumentCount");
        if accepted == refused || (!accepted && r.is_ok()) {
            return fail(desc, format!("{} arguments {}: {:?}", n, how, r));
        }
    }
    ok(desc, true, if accepted { "accepted" } else { "rejected" })
}

fn any_count(g: &mut Gen) -> Out {
    match g.below(9) {
        0 => count_case::<f64>(g, "f64", Checked, DefaultContext::new_checked()),
        1 => count_case::<f32>(g, "f32", Checked, DefaultContext::new_checked()),
        2 => count_case::<i32>(g, "i32", Checked, DefaultContext::new_checked()),
        3 => count_case::<i128>(g, "i128", Checked, DefaultContext::new_checked()),
        4 => count_case::<f64>(g, "f64 unchecked", Unchecked, DefaultContext::new_unchecked()),
        5 => count_case::<f32>(g, "f32 unchecked", Unchecked, DefaultContext::new_unchecked()),
        6 => count_case::<Decimal>(g, "decimal", Dec, DefaultContext::new_decimal()),
        7 => count_case::<Complex<f32>>(g, "complex f32", Comp, DefaultContext::new_complex()),
        _ => count_case::<Complex<f64>>(g, "complex", Comp, DefaultContext::new_complex()),
    }
}

//////////////////// Random ////////////////////

/// The real components of a number.
trait Parts {
    fn parts(&self) -> Vec<f64>;
}
macro_rules! parts {
    ($($t:ty),*) => ($(impl Parts for $t {
        fn parts(&self) -> Vec<f64> {
            vec![*self as f64]
        }
    })*)
}
parts!(i16, i32, i64, i128, f32, f64);
impl Parts for Decimal {
    fn parts(&self) -> Vec<f64> {
        vec![num_traits::ToPrimitive::to_f64(self).unwrap()]
    }
}
impl Parts for Complex<f64> {
    fn parts(&self) -> Vec<f64> {
        vec![self.re, self.im]
    }
}

fn limit(g: &mut Gen, whole: bool) -> f64 {
    let v = match g.below(4) {
        0 => g.range(0, 10) as f64,
        1 => g.range(0, 3000) as f64,
        2 if !whole => g.range(0, 100_000) as f64 / 1000.0,
        3 if !whole => g.range(0, 1000) as f64 / 1_000_000.0,
        _ => g.range(0, 30_000) as f64,
    };
    if g.chance(40) {
        -v
    } else {
        v
    }
}

fn random_case<N>(g: &mut Gen, name: &str, whole: bool, make: fn() -> DefaultContext<'static, N>) -> Out
where
    N: FromStr + Debug + Clone + PartialEq + Parts + 'static,
{
    let n = g.below(3);
    let limits: Vec<f64> = (0..n)
        .map(|_| limit(g, whole))
        // No negative zero
        .map(|v| if v == 0.0 { 0.0 } else { v })
        .collect();
    let texts: Vec<String> = limits.iter().map(|v| format!("{}", v)).collect();
    let text = format!("random({})", texts.join(", "));
    let desc = format!("{} {}", name, text);
    let (low, high) = match n {
        0 => (0.0, 1.0),
        1 => (0.0, limits[0]),
        _ => (limits[0], limits[1]),
    };
    let slack = 1e-6 * (low.abs() + high.abs());
    let mut seen: Vec<Vec<f64>> = Vec::new();
    for _ in 0..40 {
        let got = match evaluate(make(), &text) {
            Err(p) => return fail(desc, format!("panicked: {}", p)),
            Ok(r) => r,
        };
        if low > high {
            let want = if n == 1 { "NegativeValue" } else { "InvalidInput" };
            return match got {
                Err(e) if e == want => ok(desc, true, "not a range"),
                r => fail(desc, format!("expected an error but got {:?}", r)),
            };
        }
        match got {
            Ok(v) if v.parts().iter().all(|x| (low - slack..=high + slack).contains(x)) => seen.push(v.parts()),
            r => return fail(desc, format!("out of the range: {:?}", r)),
        }
    }
    if !whole && low < high {
        for part in 0..seen[0].len() {
            let middle = (low + high) / 2.0;
            let under = seen.iter().filter(|v| v[part] < middle).count();
            if under == 0 || under == seen.len() {
                return fail(desc, format!("not random: {:?}", seen));
            }
            // Any two of them are equal with a negligible probability
            let mut sorted: Vec<f64> = seen.iter().map(|v| v[part]).collect();
            sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
            sorted.dedup();
            if sorted.len() < 15 {
                return fail(desc, format!("not random: {:?}", seen));
            }
        }
        if seen[0].len() == 2 && seen.iter().all(|v| v[0] == v[1]) {
            return fail(desc, "both parts are the same".to_string());
        }
    }
    ok(desc, true, "in range")
}

fn any_random(g: &mut Gen) -> Out {
    match g.below(8) {
        0 => random_case::<f64>(g, "f64", false, DefaultContext::new_checked),
        1 => random_case::<f32>(g, "f32", false, DefaultContext::new_checked),
        2 => random_case::<f64>(g, "f64 unchecked", false, DefaultContext::new_unchecked),
        3 => random_case::<i64>(g, "i64", true, DefaultContext::new_checked),
        4 => random_case::<i128>(g, "i128", true, DefaultContext::new_checked),
        5 => random_case::<i16>(g, "i16", true, DefaultContext::new_checked),
        6 => random_case::<Decimal>(g, "decimal", false, DefaultContext::new_decimal),
        _ => random_case::<Complex<f64>>(g, "complex", false, DefaultContext::new_complex),
    }
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        rule: "Any function of any context (f64 and f32, checked and unchecked, i32, i128, decimal, complex) with 0 to 9 and now and then up to 65 thousand arguments, evaluated from text within another expression, and called directly, against the counts it is to accept; and `random` without, with one and with two limits, 40 times, for its range, its errors, and (if not of integers) that both halves of the range appear. Non-trivial: all.",
        subs: vec![
            sub("counts", 500_000, 24, || Box::new(any_count)),
            sub("random", 20_000, 16, || Box::new(any_random)),
        ],
    }
}
