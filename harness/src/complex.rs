//! C12: complex numbers.
use crate::engine::*;
use crate::grammar::*;
use crate::integers::evaluate;
use num_complex::Complex;
use prexel::context::{Context, DefaultContext};

type C = Complex<f64>;

/// The C type of complex numbers, which has this representation.
#[repr(C)]
#[derive(Clone, Copy)]
struct Cc {
    re: f64,
    im: f64,
}

extern "C" {
    fn csqrt(z: Cc) -> Cc;
    fn cexp(z: Cc) -> Cc;
    fn clog(z: Cc) -> Cc;
    fn csin(z: Cc) -> Cc;
    fn ccos(z: Cc) -> Cc;
    fn ctan(z: Cc) -> Cc;
    fn casin(z: Cc) -> Cc;
    fn cacos(z: Cc) -> Cc;
    fn catan(z: Cc) -> Cc;
    fn csinh(z: Cc) -> Cc;
    fn ccosh(z: Cc) -> Cc;
    fn ctanh(z: Cc) -> Cc;
    fn casinh(z: Cc) -> Cc;
    fn cacosh(z: Cc) -> Cc;
    fn catanh(z: Cc) -> Cc;
}

fn c1(f: unsafe extern "C" fn(Cc) -> Cc, z: C) -> C {
    let r = unsafe { f(Cc { re: z.re, im: z.im }) };
    C::new(r.re, r.im)
}

const FUNCS: [&str; 31] = [
    "sqrt", "exp", "ln", "log", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec",
    "acot", "sinh", "cosh", "tanh", "csch", "sech", "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth",
    "sum", "avg", "product",
];

fn inverse(z: C) -> C {
    C::new(1.0, 0.0) / z
}

fn apply(f: &str, z: C) -> C {
    let inv = inverse;
    match f {
        "sqrt" => c1(csqrt, z),
        "exp" => c1(cexp, z),
        "ln" => c1(clog, z),
        "log" => c1(clog, z) / std::f64::consts::LN_10,
        "sin" => c1(csin, z),
        "cos" => c1(ccos, z),
        "tan" => c1(ctan, z),
        "csc" => inv(c1(csin, z)),
        "sec" => inv(c1(ccos, z)),
        "cot" => inv(c1(ctan, z)),
        "asin" => c1(casin, z),
        "acos" => c1(cacos, z),
        "atan" => c1(catan, z),
        "sinh" => c1(csinh, z),
        "cosh" => c1(ccosh, z),
        "tanh" => c1(ctanh, z),
        "csch" => inv(c1(csinh, z)),
        "sech" => inv(c1(ccosh, z)),
        "coth" => inv(c1(ctanh, z)),
        "asinh" => c1(casinh, z),
        "acosh" => c1(cacosh, z),
        "atanh" => c1(catanh, z),
        _ => unreachable!(),
    }
}

/// The values a function may have: over a cut, those of both sides.
fn sides(z: C) -> Vec<C> {
    let mut all = vec![z];
    if z.im == 0.0 {
        all = vec![C::new(z.re, 0.0), C::new(z.re, -0.0)];
    }
    if z.re == 0.0 {
        all = all.into_iter().flat_map(|z| vec![C::new(0.0, z.im), C::new(-0.0, z.im)]).collect();
    }
    all
}

fn component(g: &mut Gen) -> f64 {
    let v = match g.below(6) {
        0 => 0.0,
        1 | 2 => g.range(0, 6) as f64,
        3 => g.range(1, 400) as f64 / 100.0,
        4 => 0.02 + g.range(0, 1_000_000) as f64 / 300_000.0,
        _ => g.range(1, 40) as f64 / 4.0,
    };
    if g.chance(45) {
        -v
    } else {
        v
    }
}

fn number(g: &mut Gen) -> C {
    match g.below(6) {
        0 => C::new(component(g), 0.0),
        1 => C::new(0.0, component(g)),
        _ => C::new(component(g), component(g)),
    }
}

fn norm(z: C) -> f64 {
    z.re.hypot(z.im)
}

/// The text of a number, as an operation if it needs one.
fn write(z: C) -> String {
    if z.im == 0.0 {
        format!("{}", z.re)
    } else if z.re == 0.0 {
        format!("{}i", z.im)
    } else {
        format!("{} {} {}i", z.re, if z.im < 0.0 { "-" } else { "+" }, z.im.abs())
    }
}

fn run(vars: &[(&str, C)], text: &str, narrow: bool) -> Result<Result<C, String>, String> {
    if narrow {
        let mut ctx: DefaultContext<'static, Complex<f32>> = DefaultContext::new_complex();
        for (n, v) in vars {
            ctx.set_variable(n, Complex::new(v.re as f32, v.im as f32)).unwrap();
        }
        evaluate(ctx, text).map(|r| r.map(|z| C::new(z.re as f64, z.im as f64)))
    } else {
        let mut ctx: DefaultContext<'static, C> = DefaultContext::new_complex();
        for (n, v) in vars {
            ctx.set_variable(n, *v).unwrap();
        }
        evaluate(ctx, text)
    }
}

/// If functions are ill-conditioned here: close to a pole, a zero of it or the end of a cut.
fn delicate(f: &str, z: C) -> bool {
    let w = match f {
        "acsc" | "asec" | "acot" | "acsch" | "asech" | "acoth" => {
            if norm(z) < 0.02 {
                return true;
            }
            C::new(1.0, 0.0) / z
        }
        _ => z,
    };
    let at = |re: f64, im: f64| norm(w - C::new(re, im)) < 0.01;
    let on = |re: f64, im: f64| w.re == re && w.im == im;
    match f {
        "ln" | "log" | "sqrt" => norm(z) < 0.01 && !(f == "sqrt" && z.re == 0.0 && z.im == 0.0),
        "asin" | "acos" | "acsc" | "asec" | "acosh" | "asech" => {
            norm(w) > 100.0 || ((at(1.0, 0.0) || at(-1.0, 0.0)) && !on(1.0, 0.0) && !on(-1.0, 0.0))
        }
        "asinh" | "acsch" => norm(w) > 100.0 || ((at(0.0, 1.0) || at(0.0, -1.0)) && !on(0.0, 1.0) && !on(0.0, -1.0)),
        "atan" | "acot" => norm(w) > 100.0 || at(0.0, 1.0) || at(0.0, -1.0),
        "atanh" | "acoth" => norm(w) > 100.0 || at(1.0, 0.0) || at(-1.0, 0.0),
        "csc" => norm(apply("sin", z)) < 0.01,
        "sec" | "tan" => norm(apply("cos", z)) < 0.01,
        "cot" => norm(apply("sin", z)) < 0.01 || norm(apply("cos", z)) < 0.01,
        "csch" => norm(apply("sinh", z)) < 0.01,
        "sech" | "tanh" => norm(apply("cosh", z)) < 0.01,
        "coth" => norm(apply("sinh", z)) < 0.01 || norm(apply("cosh", z)) < 0.01,
        _ => false,
    }
}

fn function_case(g: &mut Gen) -> Out {
    let f = *g.pick(&FUNCS);
    let many = matches!(f, "sum" | "avg" | "product");
    let based = f == "log" && g.chance(50);
    let n = match g.below(100) {
        _ if !many => 1,
        0..=14 => 5 + g.below(12),
        _ => 1 + g.below(4),
    };
    let narrow = g.chance(15);
    let args: Vec<C> = (0..n).map(|_| number(g)).collect();
    let base: f64 = match g.below(10) {
        _ if !based => 10.0,
        0..=3 => *g.pick(&[2.0, 10.0, 3.0, 0.5, 7.25, 100.0]),
        4 => *g.pick(&[-2.0, -10.0, -0.5, -1.0]),
        5..=6 => (1 + g.below(4000)) as f64 / -32.0,
        _ => match (1 + g.below(4000)) as f64 / 32.0 {
            b if b == 1.0 => 2.0,
            b => b,
        },
    };
    let as_text = g.chance(50);
    let names = [
        "u", "v", "w", "z", "u1", "v1", "w1", "z1", "u2", "v2", "w2", "z2", "u3", "v3", "w3", "z3", "u4",
    ];
    let mut texts: Vec<String> = if as_text {
        args.iter().map(|z| write(*z)).collect()
    } else {
        names[..n].iter().map(|n| n.to_string()).collect()
    };
    if based {
        texts.push(if base < 0.0 { format!("0 {}", base).replace("-", "- ") } else { format!("{}", base) });
    }
    let text = format!("{}({})", f, texts.join(", "));
    let shown: Vec<String> = args.iter().map(|z| write(*z)).collect();
    let desc = format!("{}{}({}{})", if narrow { "f32 " } else { "" }, f, shown.join(", "), if based { format!(", {}", base) } else { String::new() });
    let wanted: Vec<C> = if many {
        let first = args[0];
        let all = args[1..].iter().fold(first, |a, z| if f == "product" { a * *z } else { a + *z });
        vec![if f == "avg" { all / n as f64 } else { all }]
    } else {
        if delicate(f, args[0]) || (narrow && norm(args[0]) > 5.0) {
            return discard();
        }
        let ten = C { re: std::f64::consts::LN_10, im: 0.0 };
        let scale = if based { ten / C { re: base.abs().ln(), im: if base < 0.0 { std::f64::consts::PI } else { 0.0 } } } else { ten / ten };
        let (f, z) = match f {
            "acsc" => ("asin", inverse(args[0])),
            "asec" => ("acos", inverse(args[0])),
            "acot" => ("atan", inverse(args[0])),
            "acsch" => ("asinh", inverse(args[0])),
            "asech" => ("acosh", inverse(args[0])),
            "acoth" => ("atanh", inverse(args[0])),
            _ => (f, args[0]),
        };
        sides(z).into_iter().map(|z| apply(f, z) * scale).collect()
    };
    if wanted.iter().any(|w| !norm(*w).is_finite()) {
        return discard();
    }
    let vars: Vec<(&str, C)> = names.iter().copied().zip(args.iter().copied()).collect();
    let got = match run(&vars, &text, narrow) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => return fail(desc, format!("expected {} but got the error {}", wanted[0], e)),
        Ok(Ok(z)) => z,
    };
    let size: f64 = args.iter().map(|z| norm(*z)).fold(1.0, f64::max).max(if f == "sum" || f == "avg" {
        args.iter().map(|z| norm(*z)).sum()
    } else {
        1.0
    });
    let eps = if narrow { 1e-3 } else { 1e-9 };
    if wanted.iter().any(|w| norm(got - *w) <= eps * (norm(*w) + size)) {
        ok(desc, true, if many { "many arguments" } else if args[0].im == 0.0 { "real" } else { "complex" })
    } else {
        fail(desc, format!("expected {} but got {}", wanted[0], got))
    }
}

//////////////////// Expressions ////////////////////

struct CAlg<'b> {
    vars: &'b [C],
}

/// A value, and a limit of its error.
#[derive(Clone, Debug)]
struct V(C, f64);

fn skip<T>() -> Result<T, String> {
    Err("skip".into())
}

fn kept(z: C, e: f64) -> Result<V, String> {
    let e = e + 1e-14 * norm(z);
    if !norm(z).is_finite() || norm(z) > 1e30 || e > 1e-6 * (1.0 + norm(z)) {
        return skip();
    }
    Ok(V(z, e))
}

impl Alg for CAlg<'_> {
    type V = V;
    fn num(&mut self, s: &str) -> Result<V, String> {
        match s.strip_suffix('i') {
            Some(s) => Ok(V(C::new(0.0, s.parse().unwrap()), 0.0)),
            None => Ok(V(C::new(s.parse().unwrap(), 0.0), 0.0)),
        }
    }
    fn var(&mut self, i: usize) -> Result<V, String> {
        Ok(V(self.vars[i], 0.0))
    }
    fn konst(&mut self, i: usize) -> Result<V, String> {
        use std::f64::consts::*;
        Ok(V([C::new(PI, 0.0), C::new(E, 0.0), C::new(0.0, 1.0)][i], 0.0))
    }
    fn prefix(&mut self, i: usize, v: V) -> Result<V, String> {
        Ok(if i == 0 { V(-v.0, v.1) } else { v })
    }
    fn postfix(&mut self, _: usize, _: V) -> Result<V, String> {
        unreachable!()
    }
    fn bin(&mut self, i: usize, l: V, r: V) -> Result<V, String> {
        let (a, b) = (l.0, r.0);
        let (x, y) = (norm(a), norm(b));
        match i {
            0 => kept(a + b, l.1 + r.1 + 1e-15 * (x + y)),
            1 => kept(a - b, l.1 + r.1 + 1e-15 * (x + y)),
            2 => kept(
                C::new(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re),
                x * r.1 + y * l.1 + l.1 * r.1 + 1e-14 * x * y,
            ),
            3 => {
                if y < 1e-3 || r.1 > 1e-3 * y {
                    return skip();
                }
                let d = y * y;
                let q = C::new((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d);
                kept(q, 2.0 * (l.1 / y + x * r.1 / d) + 1e-14 * norm(q))
            }
            4 => {
                // The remainder by the quotient without its fractions
                if y < 1e-3 || l.1 + r.1 > 1e-10 {
                    return skip();
                }
                let d = y * y;
                let q = C::new((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d);
                let close = |v: f64| v != 0.0 && (v - v.round()).abs() < 1e-7;
                if close(q.re) || close(q.im) || norm(q) > 1e6 {
                    return skip();
                }
                let t = C::new(q.re.trunc(), q.im.trunc());
                let m = C::new(b.re * t.re - b.im * t.im, b.re * t.im + b.im * t.re);
                kept(a - m, l.1 + (1.0 + norm(t)) * r.1 + 1e-14 * (x + norm(m)))
            }
            _ => {
                let zero = |v: &V| norm(v.0) == 0.0 && v.1 == 0.0;
                if zero(&r) {
                    return kept(C::new(1.0, 0.0), 0.0);
                }
                if zero(&l) {
                    return if b.re > 1e-3 { kept(C::new(0.0, 0.0), 0.0) } else { skip() };
                }
                let whole = b.im == 0.0 && b.re == b.re.trunc();
                // Over the cut
                if x < 1e-3 || l.1 > 1e-4 * x || (a.re < 0.0 && a.im.abs() < 1e-6 + 2.0 * l.1 && !(whole && r.1 == 0.0)) {
                    return skip();
                }
                let ln = c1(clog, a);
                let w = C::new(b.re * ln.re - b.im * ln.im, b.re * ln.im + b.im * ln.re);
                if norm(w) > 60.0 {
                    return skip();
                }
                let v = c1(cexp, w);
                kept(v, norm(v) * (2.0 * y * l.1 / x + 2.0 * norm(ln) * r.1 + 1e-13))
            }
        }
    }
    fn call(&mut self, _: usize, _: Vec<V>) -> Result<V, String> {
        unreachable!()
    }
}

fn literal(g: &mut Gen) -> String {
    let n = match g.below(4) {
        0 | 1 => g.below(10).to_string(),
        2 => format!("{}.{}", g.below(10), g.below(100)),
        _ => format!("{}", g.below(200) as f64 / 8.0),
    };
    if g.chance(40) {
        n + "i"
    } else {
        n
    }
}

fn expression_case(g: &mut Gen) -> Out {
    let bin = |name, prec, right| Bin { name, prec, right };
    let t = Table {
        bins: vec![
            bin("+", 1, false),
            bin("-", 1, false),
            bin("*", 2, false),
            bin("/", 2, false),
            bin("mod", 2, false),
            bin("^", 3, true),
        ],
        prefix: vec!["-", "+"],
        postfix: vec![],
        funcs: vec![],
        vars: vec!["x", "y", "z"],
        consts: vec!["PI", "E", "i"],
        custom_call: false,
    };
    let s = Shape { max_ops: 5, max_depth: 3, max_args: 0, num: literal, arity: |_| (0, 0), groups: &['('], juxt: false };
    let vars: Vec<C> = (0..3).map(|_| number(g)).collect();
    let c = gen_chain(g, &t, &s, 0);
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    let text = if g.chance(30) {
        join_spaced(&tokens)
    } else {
        // The unit is a name to the splitter
        let parts: Vec<String> = tokens
            .iter()
            .flat_map(|s| match s.strip_suffix('i').filter(|n| !n.is_empty()) {
                Some(n) => vec![n.to_string(), "i".to_string()],
                None => vec![s.clone()],
            })
            .collect();
        join_tight(&t, &parts)
    };
    let named: Vec<String> = t.vars.iter().zip(&vars).map(|(n, v)| format!("{}={}", n, write(*v))).collect();
    let desc = format!("{} {}", text, named.join(" "));
    let V(want, e) = match eval_chain(&t, &c, &mut CAlg { vars: &vars }) {
        Ok(v) => v,
        Err(_) => return discard(),
    };
    let all: Vec<(&str, C)> = t.vars.iter().copied().zip(vars.iter().copied()).collect();
    match run(&all, &text, false) {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Ok(z)) if norm(z - want) <= 4.0 * e + 1e-12 * norm(want) + 1e-14 => ok(desc, weight(&c) > 0, "value"),
        Ok(r) => fail(desc, format!("expected {} but got {:?}", want, r)),
    }
}

//////////////////// Powers ////////////////////

/// The power of operands that are exact: over the cut, the values of both sides are right.
fn power_case(g: &mut Gen) -> Out {
    let plain = |g: &mut Gen| C::new(component(g), 0.0);
    let (a, b) = match g.below(4) {
        0 | 1 => (plain(g), plain(g)),
        2 => (number(g), plain(g)),
        _ => (number(g), number(g)),
    };
    let narrow = g.chance(15);
    let desc = format!("{}({}) ^ ({})", if narrow { "f32 " } else { "" }, write(a), write(b));
    let text = if g.chance(50) { format!("({}) ^ ({})", write(a), write(b)) } else { "u ^ v".to_string() };
    let zero = |z: C| z.re == 0.0 && z.im == 0.0;
    let wanted = if zero(b) {
        vec![C::new(1.0, 0.0)]
    } else if zero(a) {
        if b.re <= 0.0 {
            return discard();
        }
        vec![C::new(0.0, 0.0)]
    } else {
        sides(a)
            .into_iter()
            .map(|a| {
                let ln = c1(clog, a);
                c1(cexp, C::new(b.re * ln.re - b.im * ln.im, b.re * ln.im + b.im * ln.re))
            })
            .collect()
    };
    let log = c1(clog, a);
    if !zero(a) && norm(log) * norm(b) > if narrow { 15.0 } else { 80.0 } {
        return discard();
    }
    let got = match run(&[("u", a), ("v", b)], &text, narrow) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => return fail(desc, format!("expected {} but got the error {}", wanted[0], e)),
        Ok(Ok(z)) => z,
    };
    let eps = if narrow { 1e-4 } else { 1e-11 };
    if wanted.iter().any(|w| norm(got - *w) <= eps * norm(*w)) {
        ok(desc, true, "power")
    } else {
        fail(desc, format!("expected {} but got {}", wanted[0], got))
    }
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "A function of the complex context with random arguments (real, imaginary or both, up to about 10), against the C library's complex functions, where over a cut the values of both sides are accepted; and random expressions of + - * / mod ^ over literals with an imaginary unit, constants and variables, with the error of each step bounded; and powers of a single pair of operands, mostly real. Over f64, and f32 with less precision. Sums, products and averages of up to 65 thousand arguments. Non-trivial: all that is compared with an operation; values next to poles, cuts' ends and quotients close to integers are discarded.",
        subs: vec![
            sub("functions", 800_000, 80, || Box::new(function_case)),
            sub("powers", 400_000, 12, || Box::new(power_case)),
            sub("expressions", 800_000, 70, || Box::new(expression_case)),
            crate::many::c12(),
        ],
    }
}
