//! C03, C04: any text is handled.
use crate::engine::*;
use num_complex::Complex;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::{rules, DefaultSplitter, SplitWhitespaceOption, Splitter};
use rust_decimal::Decimal;
use std::fmt::Debug;
use std::str::FromStr;

/// An evaluator, and what expressions for it can be made of.
pub struct Target {
    pub name: String,
    pub functions: Vec<String>,
    pub binary: Vec<String>,
    pub prefix: Vec<String>,
    pub postfix: Vec<String>,
    pub operands: Vec<String>,
    /// `Ok(true)` if it was evaluated, `Err` if it panicked.
    pub eval: Box<dyn Fn(&str) -> Result<bool, String>>,
}

fn target<N: FromStr + Debug + Clone + 'static>(
    name: &str,
    mut ctx: DefaultContext<'static, N>,
    binary: bool,
    vars: Vec<N>,
    literals: &[&str],
) -> Target {
    let mut operands: Vec<String> = literals.iter().map(|s| s.to_string()).collect();
    for (i, v) in vars.into_iter().enumerate() {
        let n = format!("v{}", i);
        ctx.set_variable(&n, v).unwrap();
        operands.push(n);
    }
    // The maps have a random order
    let sorted = |mut names: Vec<String>| {
        names.sort();
        names
    };
    operands.extend(sorted(ctx.constants().keys().map(|k| k.to_string()).collect()));
    let functions = sorted(ctx.functions().keys().map(|k| k.to_string()).collect());
    let bins = sorted(ctx.binary_functions().keys().map(|k| k.to_string()).collect());
    let (mut prefix, mut postfix) = (vec![], vec![]);
    for (k, f) in ctx.unary_functions().iter() {
        match f.notation() {
            prexel::function::Notation::Prefix => prefix.push(k.to_string()),
            prexel::function::Notation::Postfix => postfix.push(k.to_string()),
        }
    }
    let (prefix, postfix) = (sorted(prefix), sorted(postfix));
    let ev: &'static Evaluator<N> = Box::leak(Box::new(if binary {
        Evaluator::with_context_and_tokenizer(ctx, Tokenizer::with_splitter(binary_number_splitter()))
    } else {
        Evaluator::with_context(ctx)
    }));
    Target {
        name: name.to_string(),
        functions,
        binary: bins,
        prefix,
        postfix,
        operands,
        eval: Box::new(move |e| guard(|| ev.eval(e).is_ok())),
    }
}

fn configs() -> Vec<(&'static str, Config)> {
    vec![
        ("default", Config::new()),
        (
            "implicit multiplication, custom calls",
            Config::new()
                .with_grouping(Grouping::Bracket)
                .with_grouping(Grouping::Brace)
                .with_implicit_mul(true)
                .with_custom_function_call(true),
        ),
    ]
}

pub fn targets() -> Vec<Target> {
    const INTS: [&str; 12] = ["0", "1", "2", "3", "5", "7", "10", "20", "64", "100", "127", "9223372036854775807"];
    const FLOATS: [&str; 22] = [
        "0", "1", "2", "3", "0.5", "10", "45", "90", "180", "360", "0.1", "1.5", "2.5", "20", "170", "171", "1000",
        "0.00000000000000000001", "99999999999999999999", "3.0000000000001", "710", "270.",
    ];
    let mut all = Vec::new();
    for (c, config) in configs() {
        macro_rules! int {
            ($($t:ident),*) => {$(
                let vars: Vec<$t> = vec![$t::MIN, $t::MAX, -1, 0, $t::MIN + 1, $t::MAX / 2, -2, $t::MAX - 1];
                all.push(target(
                    &format!("{}, {}", stringify!($t), c),
                    DefaultContext::<$t>::with_config_checked(config.clone()),
                    false, vars, &INTS,
                ));
            )*};
        }
        int!(i8, i16, i32, i64, i128, isize);
        macro_rules! float {
            ($($t:ident),*) => {$(
                let vars: Vec<$t> = vec![
                    $t::NAN, $t::INFINITY, $t::NEG_INFINITY, $t::MAX, $t::MIN, $t::MIN_POSITIVE, -0.0,
                    $t::EPSILON, -1.0, -0.5, 1.0 + $t::EPSILON, 1e30, -1e30, 9007199254740993.0,
                ];
                all.push(target(
                    &format!("{}, {}", stringify!($t), c),
                    DefaultContext::<$t>::with_config_checked(config.clone()),
                    false, vars.clone(), &FLOATS,
                ));
                all.push(target(
                    &format!("unchecked {}, {}", stringify!($t), c),
                    DefaultContext::<$t>::with_config_unchecked(config.clone()),
                    false, vars.clone(), &FLOATS,
                ));
                let mut parts: Vec<Complex<$t>> = Vec::new();
                for x in &vars {
                    parts.push(Complex::new(*x, 0.0));
                    parts.push(Complex::new(0.0, *x));
                    parts.push(Complex::new(*x, *x));
                    parts.push(Complex::new(*x, 1.0));
                }
                all.push(target(
                    &format!("complex {}, {}", stringify!($t), c),
                    DefaultContext::<Complex<$t>>::with_config_complex(config.clone().with_complex_number(true)),
                    false, parts, &["0", "1", "2", "0.5", "i", "2i", "1.5i", "0i", "100", "90", "45i", "1000000000"],
                ));
            )*};
        }
        float!(f32, f64);
        let d = |s: &str| Decimal::from_str(s).unwrap();
        let decimals = vec![
            Decimal::MAX,
            Decimal::MIN,
            d("0.0000000000000000000000000001"),
            d("-0.0000000000000000000000000001"),
            d("0.9999999999999999999999999999"),
            d("1.0000000000000000000000000001"),
            d("1.0000000000000000000000000000"),
            d("-0"),
            d("-1"),
            d("-0.5"),
            d("39614081257132168796771975167"),
            d("7922816251426433759354395033"),
            d("66.5"),
            d("-66.5"),
            d("2.9999999999999999999999999999"),
            d("89.999999999999999999999"),
            d("1000000000000000"),
            d("12345678901234.567890123456789"),
        ];
        all.push(target(
            &format!("decimal, {}", c),
            DefaultContext::<Decimal>::with_config_decimal(config.clone()),
            false, decimals, &FLOATS,
        ));
        all.push(target(
            &format!("binary, {}", c),
            DefaultContext::<Binary>::with_config_binary(config.clone()),
            true,
            vec![Binary(i128::MIN), Binary(i128::MAX), Binary(-1), Binary(-128), Binary(0), Binary(128)],
            &["b0", "b1", "b101", "b11111111", "0", "1", "2", "64", "127", "128", "b2", "b", "b12"],
        ));
    }
    all
}

fn literal(g: &mut Gen) -> String {
    match g.below(8) {
        0..=2 => g.below(300).to_string(),
        3 => format!("{}.{}", g.below(400), g.below(1000)),
        4 => {
            let n = 1 + g.below(45);
            (0..n).map(|_| char::from(b'0' + g.below(10) as u8)).collect()
        }
        5 => {
            let n = 1 + g.below(35);
            let frac: String = (0..n).map(|_| char::from(b'0' + g.below(10) as u8)).collect();
            format!("{}.{}", g.below(100), frac)
        }
        6 => format!("{}.{}{}", g.below(100), "0".repeat(g.below(29)), 1 + g.below(9)),
        _ => format!("{}{}", 1 + g.below(9), "0".repeat(g.below(30))),
    }
}

fn operand(g: &mut Gen, t: &Target, depth: usize, out: &mut String) {
    let mut postfix = false;
    if !t.prefix.is_empty() && g.chance(25) {
        out.push_str(g.pick(&t.prefix));
        out.push(' ');
    } else {
        postfix = !t.postfix.is_empty() && g.chance(15);
    }
    match g.below(8) {
        0..=2 => out.push_str(g.pick(&t.operands)),
        3 | 4 => out.push_str(&literal(g)),
        5 if depth < 3 => {
            out.push('(');
            expression(g, t, depth + 1, out);
            out.push(')');
        }
        _ if depth < 3 && !t.functions.is_empty() => {
            out.push_str(g.pick(&t.functions));
            out.push('(');
            let n = [1, 1, 1, 1, 2, 2, 2, 0, 3, 5][g.below(10)];
            for i in 0..n {
                if i > 0 {
                    out.push_str(", ");
                }
                expression(g, t, depth + 1, out);
            }
            out.push(')');
        }
        _ => out.push_str(g.pick(&t.operands)),
    }
    if postfix {
        out.push_str(g.pick(&t.postfix));
    }
}

fn expression(g: &mut Gen, t: &Target, depth: usize, out: &mut String) {
    operand(g, t, depth, out);
    for _ in 0..[0, 0, 0, 1, 1, 2, 3][g.below(7)] {
        out.push(' ');
        out.push_str(g.pick(&t.binary));
        out.push(' ');
        operand(g, t, depth, out);
    }
}

fn any_char(g: &mut Gen) -> char {
    const ODD: [char; 24] = [
        '\u{0}', '\u{7f}', '\u{a0}', '\u{e9}', '\u{c9}', '\u{130}', '\u{131}', '\u{df}', '\u{1e9e}', '\u{3c0}',
        '\u{221e}', '\u{660}', '\u{ff11}', '\u{200b}', '\u{2028}', '\u{feff}', '\u{1f600}', '\u{301}', '\u{b2}',
        '\u{bd}', '\u{10ffff}', '\u{fb01}', '\u{221a}', '\u{2212}',
    ];
    match g.below(6) {
        0..=2 => char::from(b' ' + g.below(95) as u8),
        3 => *g.pick(&ODD),
        4 => char::from(g.below(128) as u8),
        _ => char::from_u32(g.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
    }
}

fn soup(g: &mut Gen, t: &Target) -> String {
    let n = g.len(0, 14);
    let mut s = String::new();
    for _ in 0..n {
        match g.below(16) {
            0..=2 => s.push_str(g.pick(&t.operands)),
            3 | 4 => s.push_str(&literal(g)),
            5 | 6 => s.push_str(g.pick(&t.binary)),
            7 if !t.functions.is_empty() => s.push_str(g.pick(&t.functions)),
            8 if !t.functions.is_empty() => {
                s.push_str(g.pick(&t.functions));
                s.push('(');
            }
            9 if !t.prefix.is_empty() => s.push_str(g.pick(&t.prefix)),
            10 if !t.postfix.is_empty() => s.push_str(g.pick(&t.postfix)),
            11 => s.push_str(["(", "(", "[", "{"][g.below(4)]),
            12 => s.push_str([")", ")", "]", "}"][g.below(4)]),
            13 => s.push(','),
            14 => s.push(any_char(g)),
            _ => s.push_str(["x", "_", ".", "i", "e", "inf", "nan", "1e5", "=", "$", "b101", "0x1F"][g.below(12)]),
        }
        if g.chance(45) {
            s.push(' ');
        }
    }
    s
}

fn robust_case(t: &Target, text: String) -> Out {
    let desc = format!("{:?} with {}", text, t.name);
    match (t.eval)(&text) {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(true) => ok(desc, text.len() > 2, "evaluated"),
        Ok(false) => ok(desc, text.len() > 2, "rejected"),
    }
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "All the contexts of the library (checked integers of 6 widths; f32 and f64, checked and unchecked; decimal; complex of f32 and f64; binary) with and without implicit multiplication and custom calls, with the extreme values of each type as variables. The texts are well-formed expressions with all the functions and operators over extreme values and literals of any length, the same edited at random, sequences of fragments, and any characters; and texts of up to some 20 thousand characters that repeat an expression or fragments, which may not take more than 12 s. None may panic. Non-trivial: more than 2 characters.",
        subs: vec![
            sub("expressions", 4_000_000, 60, || {
                let all = targets();
                Box::new(move |g| {
                    let t = g.pick(&all);
                    let mut s = String::new();
                    expression(g, t, 0, &mut s);
                    robust_case(t, s)
                })
            }),
            sub("fragments", 2_500_000, 70, || {
                let all = targets();
                Box::new(move |g| {
                    let t = g.pick(&all);
                    let s = soup(g, t);
                    robust_case(t, s)
                })
            }),
            sub("characters", 1_500_000, 40, || {
                let all = targets();
                Box::new(move |g| {
                    let t = g.pick(&all);
                    let mut s = String::new();
                    if g.chance(50) {
                        expression(g, t, 1, &mut s);
                        for _ in 0..1 + g.below(3) {
                            let chars: Vec<char> = s.chars().collect();
                            let i = g.below(chars.len() + 1);
                            let mut edited: String = chars[..i].iter().collect();
                            if g.chance(70) {
                                edited.push(any_char(g));
                            }
                            edited.extend(chars[i..].iter().skip(g.below(2)));
                            s = edited;
                        }
                    } else {
                        for _ in 0..g.len(0, 20) {
                            s.push(any_char(g));
                        }
                    }
                    robust_case(t, s)
                })
            }),
            sub("large", 60_000, 160, || {
                let all = targets();
                Box::new(move |g| {
                    let t = g.pick(&all);
                    let s = if g.chance(50) { repeated_expression(g, t) } else { repeated_fragments(g, t) };
                    let desc = format!("{:?} with {}", crate::large::shorten(&s, s.len()), t.name);
                    let started = cpu_time();
                    let result = (t.eval)(&s);
                    let taken = cpu_time() - started;
                    match result {
                        Err(p) => fail(desc, format!("panicked: {}", p)),
                        // Without a limit it takes less than a second
                        Ok(_) if taken > 12.0 => fail(desc, format!("{} characters took {} s", s.len(), taken as u64)),
                        Ok(true) => ok(desc, s.len() > 100, "evaluated"),
                        Ok(false) => ok(desc, s.len() > 100, "rejected"),
                    }
                })
            }),
        ],
    }
}

/// The seconds of processor of this thread.
fn cpu_time() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

/// A well-formed expression with something repeated or nested often.
fn repeated_expression(g: &mut Gen, t: &Target) -> String {
    let n = crate::large::count(g);
    let mut e = String::new();
    let around = g.chance(50);
    let kind = g.below(8);
    expression(g, t, 2, &mut e);
    let mut other = String::new();
    operand(g, t, 3, &mut other);
    let f = if t.functions.is_empty() { "" } else { g.pick(&t.functions) };
    let s = match kind {
        0 => format!("{}{}", format!("{} {} ", other, g.pick(&t.binary)).repeat(n), e),
        1 => format!("{}{}{}", "(".repeat(n), e, ")".repeat(n)),
        2 => format!("{}{}{}", format!("{}(", f).repeat(n), e, ")".repeat(n)),
        3 => format!("{}{}{}", format!("{}({}, ", f, other).repeat(n), e, ")".repeat(n)),
        4 => format!("{}({}{})", f, format!("{}, ", other).repeat(n), e),
        5 if !t.prefix.is_empty() => format!("{}{}", g.pick(&t.prefix).repeat(n), other.trim_end_matches('!')),
        6 if !t.postfix.is_empty() => format!("{}{}{}", "(".repeat(n), e, format!("){}", g.pick(&t.postfix)).repeat(n)),
        _ => {
            let digit = (b'0' + g.below(10) as u8) as char;
            let zeros = digit.to_string().repeat(n);
            match g.below(3) {
                0 => zeros,
                1 => format!("{}.5", zeros),
                _ => format!("0.{}1", zeros),
            }
        }
    };
    if around {
        format!("{} {} ({})", other, g.pick(&t.binary), s)
    } else {
        s
    }
}

/// A head, something repeated, a middle, something repeated as often, and a tail.
fn repeated_fragments(g: &mut Gen, t: &Target) -> String {
    let n = crate::large::count(g);
    let mut s = String::new();
    for k in 0..5 {
        let part = match g.below(7) {
            0 => String::new(),
            1 if k % 2 == 1 => ["(", ")", "[", "-", "!", " ", "1", "a", "0.", ","][g.below(10)].to_string(),
            2 if !t.functions.is_empty() => format!("{}(", g.pick(&t.functions)),
            3 => format!("{} {} ", g.pick(&t.operands), g.pick(&t.binary)),
            4 => literal(g),
            5 => {
                let mut e = String::new();
                expression(g, t, 2, &mut e);
                e
            }
            _ => soup(g, t),
        };
        s.push_str(&if k % 2 == 1 { part.repeat(n) } else { part });
    }
    s
}

//////////////////// C04 ////////////////////

fn is_operator(c: char) -> bool {
    crate::grammar::is_operator_char(c)
}

/// The pieces of a text by the documented rules: numbers with a decimal point at most,
/// identifiers, runs of operators, and single characters.
fn reference_split(s: &str, keep_spaces: bool) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let from = i;
        let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
        i += 1;
        if c[from].is_ascii_digit() {
            let mut point = false;
            while i < c.len() && (c[i].is_ascii_digit() || (c[i] == '.' && !point)) {
                point |= c[i] == '.';
                i += 1;
            }
        } else if c[from].is_ascii_alphabetic() || c[from] == '_' {
            while i < c.len() && word(c[i]) {
                i += 1;
            }
        } else if is_operator(c[from]) {
            while i < c.len() && is_operator(c[i]) {
                i += 1;
            }
        } else if c[from].is_whitespace() && !keep_spaces {
            continue;
        }
        out.push(c[from..i].iter().collect());
    }
    out
}

fn split_text(g: &mut Gen) -> String {
    let n = g.len(0, 40);
    let mut s = String::new();
    for _ in 0..n {
        match g.below(9) {
            0 | 1 => s.push(char::from(b'0' + g.below(10) as u8)),
            2 => s.push('.'),
            3 => s.push(char::from(b'a' + g.below(26) as u8)),
            4 => s.push(*g.pick(&['_', 'A', 'Z', 'b', 'i', 'E'])),
            5 => s.push(*g.pick(&['+', '-', '*', '<', '=', '>', '!', ',', '^', '|', '~', '"', '\\', '$'])),
            6 => s.push(*g.pick(&['(', ')', '[', ']', '{', '}'])),
            7 => s.push(*g.pick(&[' ', ' ', '\t', '\n', '\u{a0}', '\u{2003}', '\u{85}'])),
            _ => s.push(any_char(g)),
        }
    }
    s
}

/// A rule as a user would write it: a first character, more characters, and what becomes of them
struct UserRule {
    first: Vec<char>,
    more: Vec<char>,
    limit: usize,
    skip: bool,
}

impl UserRule {
    fn generate(g: &mut Gen) -> UserRule {
        const CLASSES: [&[char]; 8] = [
            &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'],
            &['.', '0', '5'],
            &['a', 'b', 'e', 'E', '_'],
            &['+', '-', '*', '<', '=', '>', '!'],
            &['(', ')', '[', ']'],
            &[' ', '\t', '\n', '\u{a0}'],
            &[],
            &['"', '$', ' ', 'x', '9', ','],
        ];
        UserRule {
            first: g.pick(&CLASSES).to_vec(),
            more: g.pick(&CLASSES).to_vec(),
            limit: g.below(4),
            skip: g.chance(25),
        }
    }
}

impl rules::SplitRule for UserRule {
    fn split(&self, c: char, rest: &mut std::iter::Peekable<std::str::Chars>) -> rules::Outcome {
        if !self.first.contains(&c) {
            return rules::Outcome::Continue;
        }
        let mut s = c.to_string();
        for _ in 0..self.limit {
            match rest.next_if(|c| self.more.contains(c)) {
                Some(c) => s.push(c),
                None => break,
            }
        }
        if self.skip {
            rules::Outcome::Skip
        } else {
            rules::Outcome::Data(s)
        }
    }
}

/// The rules of the library that `user-rules` mixes with the others
#[derive(Clone, Copy)]
enum Known {
    User,
    Numeric,
    Identifier,
    Operator,
    Whitespace,
    /// Operators of its own choice
    Chosen,
}

fn user_rules_case(g: &mut Gen) -> Out {
    let n = g.len(0, 5);
    // What the builder is told: the rule and where it is inserted, or pushed
    let mut order: Vec<(Known, usize)> = Vec::new();
    let mut users = Vec::new();
    let mut chosen: Vec<Vec<char>> = Vec::new();
    let mut builder = DefaultSplitter::builder();
    let mut story = String::new();
    for _ in 0..n {
        let what = match g.below(10) {
            0 => Known::Numeric,
            1 => Known::Identifier,
            2 => Known::Operator,
            3 => Known::Whitespace,
            4 => Known::Chosen,
            _ => Known::User,
        };
        let at = if g.chance(40) { g.below(order.len() + 1) } else { order.len() };
        let push = at == order.len() && g.chance(70);
        macro_rules! put {
            ($r:expr) => {
                builder = if push { builder.rule($r) } else { builder.insert_rule(at, $r) }
            };
        }
        story += &match what {
            Known::User => {
                let r = UserRule::generate(g);
                let s = format!("{}: {:?} then {} of {:?}{}; ", at, r.first, r.limit, r.more, if r.skip { " skipped" } else { "" });
                users.push(UserRule { first: r.first.clone(), more: r.more.clone(), ..r });
                put!(r);
                s
            }
            Known::Numeric => {
                put!(rules::SplitNumeric);
                format!("{}: numeric; ", at)
            }
            Known::Identifier => {
                put!(rules::SplitIdentifier);
                format!("{}: identifier; ", at)
            }
            Known::Operator => {
                put!(rules::SplitOperator);
                format!("{}: operator; ", at)
            }
            Known::Chosen => {
                const SOME: [char; 8] = ['+', '.', '!', '(', '_', 'b', '5', '\u{a0}'];
                let all = g.chance(50);
                let mut set: Vec<char> = if all { (0..127).map(char::from).filter(|c| is_operator(*c)).collect() } else { vec![] };
                let mut b = if all { rules::SplitWithOperatorsBuilder::new() } else { rules::SplitWithOperatorsBuilder::empty() };
                for _ in 0..g.below(5) {
                    let c = *g.pick(&SOME);
                    set.retain(|x| *x != c);
                    if g.chance(60) {
                        b.add_operator(c);
                        set.push(c);
                    } else {
                        b = b.except(c);
                    }
                }
                put!(b.build());
                let s = format!("{}: operators {:?}; ", at, set);
                chosen.push(set);
                s
            }
            Known::Whitespace => {
                put!(rules::SkipWhitespace);
                format!("{}: whitespace; ", at)
            }
        };
        let index = if let Known::Chosen = what { chosen.len() } else { users.len() };
        order.insert(at, (what, index.wrapping_sub(1)));
    }
    match g.below(3) {
        0 => {}
        1 => builder = builder.whitespace(SplitWhitespaceOption::None),
        _ => {
            builder = builder.whitespace(SplitWhitespaceOption::Remove);
            order.push((Known::Whitespace, 0));
            story += "whitespace removed; ";
        }
    }
    let s = split_text(g);
    let desc = format!("{:?} with rules {}", s, story);
    let c: Vec<char> = s.chars().collect();
    let mut expected: Vec<String> = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let from = i;
        i += 1;
        let run = |i: usize, f: &dyn Fn(char) -> bool| c[i..].iter().take_while(|c| f(**c)).count();
        let mut keep = true;
        for (what, index) in &order {
            let taken = match what {
                Known::User => {
                    let r = &users[*index];
                    if !r.first.contains(&c[from]) {
                        continue;
                    }
                    keep = !r.skip;
                    run(i, &|c| r.more.contains(&c)).min(r.limit)
                }
                Known::Numeric if c[from].is_ascii_digit() => {
                    let digits = run(i, &|c| c.is_ascii_digit());
                    if c.get(i + digits) == Some(&'.') {
                        digits + 1 + run(i + digits + 1, &|c| c.is_ascii_digit())
                    } else {
                        digits
                    }
                }
                Known::Identifier if c[from].is_ascii_alphabetic() || c[from] == '_' => {
                    run(i, &|c| c.is_ascii_alphanumeric() || c == '_')
                }
                Known::Chosen if chosen[*index].contains(&c[from]) => run(i, &|c| chosen[*index].contains(&c)),
                Known::Operator if is_operator(c[from]) => run(i, &is_operator),
                Known::Whitespace if c[from].is_whitespace() => {
                    keep = false;
                    0
                }
                _ => continue,
            };
            i += taken;
            break;
        }
        if keep {
            expected.push(c[from..i].iter().collect());
        }
    }
    let splitter = builder.build();
    match guard(|| splitter.split_into_tokens(&s)) {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(got) if got == expected => ok(desc, got.len() > 2, ["no rules", "a rule", "rules", "rules", "rules", "rules"][order.len().min(5)]),
        Ok(got) => fail(desc, format!("it is split in {:?} and not {:?}", got, expected)),
    }
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "Any characters, biased to digits, points, letters, operators, groups and whitespace, split with and without whitespace, with the default, custom and binary rules, and with rules written as a user would, in any order: the pieces concatenated have to be the text (without whitespace if it is removed), none is empty, and with the default rules they are the ones of a reference scanner; also of texts of thousands of characters. Non-trivial: at least 3 pieces.",
        subs: vec![
            sub("default-rules", 2_500_000, 90, || {
                let keep = DefaultSplitter::new(SplitWhitespaceOption::None);
                let remove = DefaultSplitter::new(SplitWhitespaceOption::Remove);
                let default = DefaultSplitter::default();
                Box::new(move |g| {
                    let s = split_text(g);
                    let desc = format!("{:?}", s);
                    let r = guard(|| {
                        (keep.split_into_tokens(&s), remove.split_into_tokens(&s), default.split_into_tokens(&s))
                    });
                    let (a, b, d) = match r {
                        Ok(v) => v,
                        Err(p) => return fail(desc, format!("panicked: {}", p)),
                    };
                    if a.concat() != s {
                        return fail(desc, format!("with whitespace it is split in {:?}", a));
                    }
                    let expected = reference_split(&s, true);
                    if a != expected {
                        return fail(desc, format!("with whitespace it is split in {:?} and not {:?}", a, expected));
                    }
                    let expected = reference_split(&s, false);
                    if b != expected || d != expected {
                        return fail(desc, format!("without whitespace it is split in {:?} and {:?}, and not {:?}", b, d, expected));
                    }
                    ok(desc, d.len() > 2, "split")
                })
            }),
            sub("large", 40_000, 120, || {
                let keep = DefaultSplitter::new(SplitWhitespaceOption::None);
                let remove = DefaultSplitter::default();
                Box::new(move |g| {
                    let n = if g.chance(1) { crate::large::huge(g) } else { crate::large::count(g) };
                    let part = split_text(g);
                    let s = match g.below(3) {
                        0 => {
                            // A single long piece
                            let c = *g.pick(&['1', '0', 'a', '_', 'Z', '+', ',', '<', '(', ' ', '\u{e9}']);
                            let long: String = std::iter::repeat(c).take(n).collect();
                            let at = *g.pick(&["", ".", ".5", "1.", "b", "_9", "-"]);
                            format!("{}{}{}{}", part, long, at, split_text(g))
                        }
                        1 => part.chars().take(1 + g.below(12)).collect::<String>().repeat(n),
                        _ => format!("{}{}{}", split_text(g), part.repeat(n), split_text(g)),
                    };
                    let desc = format!("{:?}", crate::large::shorten(&s, s.len()));
                    let (a, b) = match guard(|| (keep.split_into_tokens(&s), remove.split_into_tokens(&s))) {
                        Ok(v) => v,
                        Err(p) => return fail(desc, format!("panicked: {}", p)),
                    };
                    for (name, got, expected) in [("with", a, reference_split(&s, true)), ("without", b, reference_split(&s, false))] {
                        if got != expected {
                            let i = got.iter().zip(&expected).take_while(|(a, b)| a == b).count();
                            let piece = |v: &Vec<String>| v.get(i).map(|p| crate::large::shorten(p, p.len()));
                            return fail(desc, format!("{} whitespace, the piece {} is {:?} and not {:?}", name, i, piece(&got), piece(&expected)));
                        }
                    }
                    ok(desc, s.len() > 100, "split")
                })
            }),
            sub("user-rules", 1_000_000, 120, || Box::new(user_rules_case)),
            sub("custom-rules", 1_500_000, 90, || {
                Box::new(|g| {
                    let kind = g.below(5);
                    let spaces = if g.chance(50) { SplitWhitespaceOption::None } else { SplitWhitespaceOption::Remove };
                    let keep = matches!(spaces, SplitWhitespaceOption::None);
                    let except = *g.pick(&['+', '.', ',', '_', '!']);
                    let s = split_text(g);
                    let desc = format!("{:?} with rules {} except {:?}, keep whitespace {}", s, kind, except, keep);
                    let r = guard(|| {
                        let b = DefaultSplitter::builder();
                        let splitter = match kind {
                            0 => b.whitespace(spaces).build(),
                            1 => b.rule(rules::SplitOperator).rule(rules::SplitNumeric).whitespace(spaces).build(),
                            2 => b.rule(rules::SplitBinary).rule(rules::SplitNumeric).rule(rules::SplitIdentifier)
                                .rule(rules::SplitOperator).whitespace(spaces).build(),
                            3 => b.rule(rules::SplitIdentifier)
                                .insert_rule(0, rules::SplitWithOperators::builder().except(except).build())
                                .whitespace(spaces).build(),
                            _ => b.rule(rules::SplitWithOperators::new()).rule(rules::SplitNumeric).whitespace(spaces).build(),
                        };
                        splitter.split_into_tokens(&s)
                    });
                    let tokens = match r {
                        Ok(v) => v,
                        Err(p) => return fail(desc, format!("panicked: {}", p)),
                    };
                    let expected: String = s.chars().filter(|c| keep || !c.is_whitespace()).collect();
                    if tokens.concat() != expected || tokens.iter().any(|t| t.is_empty()) {
                        return fail(desc, format!("it is split in {:?}", tokens));
                    }
                    // What each rule makes a single piece
                    for t in &tokens {
                        let mut chars = t.chars();
                        let (first, rest) = (chars.next().unwrap(), chars.as_str());
                        let digits = |s: &str| s.chars().all(|c| c.is_ascii_digit());
                        let number = first.is_ascii_digit() && rest.matches('.').count() < 2 && digits(&rest.replace('.', ""));
                        let word = (first.is_ascii_alphabetic() || first == '_')
                            && rest.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
                        let operators = t.chars().all(is_operator);
                        let valid = rest.is_empty()
                            || match kind {
                                0 => false,
                                1 | 4 => number || operators,
                                2 => number || word || operators,
                                _ => word || (operators && !t.contains(except)),
                            };
                        if !valid {
                            return fail(desc, format!("the piece {:?} of {:?}", t, tokens));
                        }
                    }
                    ok(desc, tokens.len() > 2, ["no rules", "operator, number", "binary", "operators except one", "operators, number"][kind])
                })
            }),
        ],
    }
}
