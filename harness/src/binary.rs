//! C13: binary numbers.
use crate::engine::*;
use crate::grammar::*;
use crate::integers::kind_name;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::context::{Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use std::str::FromStr;

/// Symbols and names of the operators, with their precedences; each group of three is an operator.
const OPS: [(&[&str], u32); 11] = [
    (&["&", "and"], 11),
    (&["|", "or"], 13),
    (&["^", "xor"], 12),
    (&["==", "eq", "equal"], 10),
    (&["!=", "ne", "no_equal"], 10),
    (&[">", "gt"], 9),
    (&["<", "lt"], 9),
    (&[">=", "gte"], 9),
    (&["<=", "lte"], 9),
    (&[">>", "shr"], 7),
    (&["<<", "shl"], 7),
];

struct BinAlg<'b> {
    vars: &'b [i128],
    /// The operator of each name.
    ops: &'b [usize],
}

/// The bits of a number shifted, with the sign extended to the right.
fn shift(l: i128, r: i128, left: bool) -> Result<i128, String> {
    if !(0..128).contains(&r) {
        return Err("Overflow".into());
    }
    let mut v = l;
    for _ in 0..r {
        v = if left { (v as u128).wrapping_mul(2) as i128 } else { v.div_euclid(2) };
    }
    Ok(v)
}

fn bits(l: i128, r: i128, f: fn(bool, bool) -> bool) -> i128 {
    (0..128).fold(0u128, |v, i| {
        let bit = |n: i128| (n as u128 >> i) & 1 == 1;
        v | ((f(bit(l), bit(r)) as u128) << i)
    }) as i128
}

impl Alg for BinAlg<'_> {
    type V = i128;
    fn num(&mut self, s: &str) -> Result<i128, String> {
        Ok(match s.strip_prefix('b') {
            Some(s) => s.chars().fold(0, |v, c| v * 2 + (c == '1') as i128),
            None => s.chars().fold(0, |v, c| v * 10 + c.to_digit(10).unwrap() as i128),
        })
    }
    fn var(&mut self, i: usize) -> Result<i128, String> {
        Ok(self.vars[i])
    }
    fn konst(&mut self, _: usize) -> Result<i128, String> {
        unreachable!()
    }
    fn prefix(&mut self, _: usize, v: i128) -> Result<i128, String> {
        Ok(-1 - v)
    }
    fn postfix(&mut self, _: usize, _: i128) -> Result<i128, String> {
        unreachable!()
    }
    fn bin(&mut self, i: usize, l: i128, r: i128) -> Result<i128, String> {
        Ok(match self.ops[i] {
            0 => bits(l, r, |a, b| a && b),
            1 => bits(l, r, |a, b| a || b),
            2 => bits(l, r, |a, b| a != b),
            3 => (l == r) as i128,
            4 => (l != r) as i128,
            5 => (l > r) as i128,
            6 => (l < r) as i128,
            7 => (l >= r) as i128,
            8 => (l <= r) as i128,
            9 => shift(l, r, false)?,
            _ => shift(l, r, true)?,
        })
    }
    fn call(&mut self, _: usize, _: Vec<i128>) -> Result<i128, String> {
        unreachable!()
    }
}

fn binary(g: &mut Gen) -> String {
    let n = g.len(1, 127);
    let n = if g.chance(70) { n.min(8) } else { n };
    (0..n).fold("b".to_string(), |s, _| s + if g.chance(50) { "1" } else { "0" })
}

fn decimal(g: &mut Gen) -> String {
    match g.below(5) {
        0 | 1 => g.below(12).to_string(),
        2 => g.below(140).to_string(),
        3 => g.u64().to_string(),
        _ => (i128::MAX - g.below(3) as i128).to_string(),
    }
}

fn any_number(g: &mut Gen) -> String {
    if g.chance(60) {
        binary(g)
    } else {
        decimal(g)
    }
}

fn value(g: &mut Gen) -> i128 {
    let v = match g.below(6) {
        0 | 1 => g.range(-8, 8) as i128,
        2 => g.range(-2, 130) as i128,
        3 => g.u128() as i128,
        4 => 1i128 << g.below(127),
        _ => *g.pick(&[i128::MIN, i128::MAX, i128::MIN + 1, -1, 1 << 64, -(1 << 64)]),
    };
    v.wrapping_add(if g.chance(20) { 1 } else { 0 })
}

fn eval(text: &str, vars: &[i128], splitter: bool) -> Result<Result<Binary, String>, String> {
    guard(|| {
        let mut ctx = DefaultContext::new_binary();
        for (n, v) in ["x", "y", "z"].iter().zip(vars) {
            ctx.set_variable(n, Binary(*v)).unwrap();
        }
        if splitter {
            let t = Tokenizer::with_splitter(binary_number_splitter());
            let ev = Evaluator::with_context_and_tokenizer(ctx, t);
            let ev: &'static Evaluator<'static, Binary> = unsafe { std::mem::transmute(&ev) };
            kind_name(ev.eval(text))
        } else {
            let ev = Evaluator::with_context(ctx);
            let ev: &'static Evaluator<'static, Binary> = unsafe { std::mem::transmute(&ev) };
            kind_name(ev.eval(text))
        }
    })
}

fn expression_case(g: &mut Gen) -> Out {
    // A spelling of each operator
    let mut t = Table { prefix: vec!["~"], vars: vec!["x", "y", "z"], ..Table::default() };
    let mut ops = Vec::new();
    for (i, (names, prec)) in OPS.iter().enumerate() {
        for name in *names {
            t.bins.push(Bin { name, prec: *prec, right: false });
            ops.push(i);
        }
    }
    if g.chance(50) {
        t.prefix.push("not");
    }
    let splitter = g.chance(75);
    let s = Shape {
        max_ops: 6,
        max_depth: 3,
        max_args: 0,
        num: if splitter { any_number } else { decimal },
        arity: |_| (0, 0),
        groups: &['(', '[', '{'],
        juxt: false,
    };
    let vars: Vec<i128> = (0..3).map(|_| value(g)).collect();
    let c = gen_chain(g, &t, &s, 0);
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    if g.chance(15) {
        for x in tokens.iter_mut() {
            if x.len() > 1 && t.bins.iter().any(|b| b.name == x) {
                *x = x.to_ascii_uppercase();
            }
        }
    }
    let text = if g.chance(60) { join_spaced(&tokens) } else { join_tight(&t, &tokens) };
    let desc = format!("{} x={} y={} z={}", text, vars[0], vars[1], vars[2]);
    let want = eval_chain(&t, &c, &mut BinAlg { vars: &vars, ops: &ops });
    let got = match eval(&text, &vars, splitter) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(r) => r.map(|b| b.0),
    };
    if want == got {
        ok(desc, weight(&c) > 0, if got.is_ok() { "value" } else { "shift out of range" })
    } else {
        fail(desc, format!("expected {:?} but got {:?}", want, got))
    }
}

/// Reading and writing numbers.
fn text_case(g: &mut Gen) -> Out {
    match g.below(4) {
        // Written and read again
        0 => {
            let v = value(g);
            let shown = Binary(v).to_string();
            let digits: u128 = shown.chars().fold(0, |n: u128, c| n.wrapping_mul(2).wrapping_add((c == '1') as u128));
            if !shown.chars().all(|c| c == '0' || c == '1') || digits != v as u128 || (shown.len() > 1 && !shown.starts_with('1')) {
                return fail(format!("Binary({})", v), format!("shown as {}", shown));
            }
            if v < 0 {
                return ok(shown, true, "written");
            }
            match Binary::from_str(&format!("b{}", shown)) {
                Ok(Binary(x)) if x == v => {}
                r => return fail(shown, format!("read as {:?}", r)),
            }
            match eval(&format!("b{}", shown), &[], true) {
                Ok(Ok(Binary(x))) if x == v => ok(shown, true, "written and read"),
                r => fail(shown, format!("evaluated as {:?}", r)),
            }
        }
        1 => {
            let v = value(g);
            match Binary::from_str(&v.to_string()) {
                Ok(Binary(x)) if x == v => ok(v.to_string(), true, "decimal"),
                r => fail(v.to_string(), format!("read as {:?}", r)),
            }
        }
        // Too large, or not binary
        2 => {
            let n = 128 + g.below(10);
            let text = (0..n).fold("b1".to_string(), |s, _| s + if g.chance(50) { "1" } else { "0" });
            match (Binary::from_str(&text), eval(&text, &[], true)) {
                (Err(_), Ok(Err(_))) => ok(text, true, "too large"),
                r => fail(text, format!("got {:?}", r)),
            }
        }
        _ => {
            let n = g.len(1, 6);
            let bad = g.below(n);
            let text = (0..n).fold("b".to_string(), |s, i| {
                s + &if i == bad { 2 + g.below(8) } else { g.below(2) }.to_string()
            });
            match (Binary::from_str(&text), eval(&text, &[], true)) {
                (Err(_), Ok(Err(_))) => ok(text, true, "not binary"),
                r => fail(text, format!("got {:?}", r)),
            }
        }
    }
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "Random expressions of the binary context, by symbols and by names, over binary and decimal literals and variables of any 128-bit value, with its own splitter and (without binary literals) the default one, against a bit by bit reference; and numbers written, read, too large or with a digit that is not binary. Non-trivial: expressions with an operator, and all texts of numbers.",
        subs: vec![
            sub("expressions", 2_500_000, 90, || Box::new(expression_case)),
            sub("texts", 700_000, 140, || Box::new(text_case)),
        ],
    }
}
