//! C27: a value, the text it is displayed as, and a name that stands for it.
use crate::cli;
use crate::engine::*;
use num_complex::Complex;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use rust_decimal::Decimal;
use std::fmt::{Debug, Display};
use std::str::FromStr;

trait Value: FromStr + Clone + Display + Debug + 'static {
    /// Of the expressions of `cli::text`
    const KIND: usize;
    const TYPE: &'static str;
    fn context(g: &mut Gen, implicit: bool) -> DefaultContext<'static, Self>;
    fn generate(g: &mut Gen) -> Self;
    fn modest(g: &mut Gen) -> Self;
    /// Whether its text can be written in an expression
    fn literal(&self) -> bool {
        true
    }
    fn text(&self) -> String {
        self.to_string()
    }
    fn tokenizer() -> Tokenizer<'static, Self> {
        Tokenizer::new()
    }
    /// All there is to tell two values apart
    fn exact(&self) -> String;
}

fn config(implicit: bool) -> Config {
    Config::new().with_implicit_mul(implicit)
}

macro_rules! integers {
    ($($t:ident)+) => { $(
        impl Value for $t {
            const KIND: usize = 2;
            const TYPE: &'static str = stringify!($t);
            fn context(_: &mut Gen, implicit: bool) -> DefaultContext<'static, Self> {
                DefaultContext::with_config_checked(config(implicit))
            }
            fn generate(g: &mut Gen) -> Self {
                match g.below(4) {
                    0 => g.range(-12, 12) as $t,
                    1 => (g.u128() as $t) >> g.below(<$t>::BITS as usize),
                    2 => <$t>::MAX - g.below(3) as $t,
                    _ => <$t>::MIN + g.below(3) as $t,
                }
            }
            fn modest(g: &mut Gen) -> Self {
                g.range(-9, 9) as $t
            }
            // The text of the minimum is the negation of a number that does not exist
            fn literal(&self) -> bool {
                *self != <$t>::MIN
            }
            fn exact(&self) -> String {
                self.to_string()
            }
        }
    )+ };
}
integers!(i8 i16 i32 i64 i128 isize);

macro_rules! floats {
    ($($t:ident $bits:ident)+) => { $(
        impl Value for $t {
            const KIND: usize = 1;
            const TYPE: &'static str = stringify!($t);
            fn context(g: &mut Gen, implicit: bool) -> DefaultContext<'static, Self> {
                if g.chance(50) {
                    DefaultContext::with_config_checked(config(implicit))
                } else {
                    DefaultContext::with_config_unchecked(config(implicit))
                }
            }
            fn generate(g: &mut Gen) -> Self {
                match g.below(5) {
                    0 => g.range(-40, 40) as $t / 4.0,
                    1 => g.range(-100_000, 100_000) as $t / 1000.0,
                    2 => *g.pick(&[0.0, -0.0, $t::MAX, $t::MIN, $t::MIN_POSITIVE, $t::EPSILON]),
                    3 => *g.pick(&[$t::NAN, $t::INFINITY, $t::NEG_INFINITY, -$t::NAN]),
                    _ => $t::from_bits(g.u64() as $bits),
                }
            }
            fn modest(g: &mut Gen) -> Self {
                if g.chance(30) { -0.0 } else { g.range(-5000, 5000) as $t / *g.pick(&[1.0, 3.0, 10.0, 1000.0]) }
            }
            fn literal(&self) -> bool {
                self.is_finite()
            }
            fn exact(&self) -> String {
                format!("{} {:x}", self, self.to_bits())
            }
        }
    )+ };
}
floats!(f32 u32 f64 u64);

impl Value for Decimal {
    const KIND: usize = 0;
    const TYPE: &'static str = "decimal";
    fn context(_: &mut Gen, implicit: bool) -> DefaultContext<'static, Self> {
        DefaultContext::with_config_decimal(config(implicit))
    }
    fn generate(g: &mut Gen) -> Self {
        let m = (g.u128() >> (32 + g.below(96))) as i128;
        Decimal::from_i128_with_scale(if g.chance(50) { -m } else { m }, g.below(29) as u32)
    }
    fn modest(g: &mut Gen) -> Self {
        Decimal::from_i128_with_scale(g.range(-100_000, 100_000) as i128, g.below(5) as u32)
    }
    fn exact(&self) -> String {
        format!("{} scale {}", self, self.scale())
    }
}

macro_rules! complexes {
    ($($t:ident)+) => { $(
        impl Value for Complex<$t> {
            const KIND: usize = 3;
            const TYPE: &'static str = concat!("complex of ", stringify!($t));
            fn context(_: &mut Gen, implicit: bool) -> DefaultContext<'static, Self> {
                DefaultContext::with_config_complex(config(implicit).with_complex_number(true))
            }
            fn generate(g: &mut Gen) -> Self {
                Complex::new($t::generate(g), $t::generate(g))
            }
            fn modest(g: &mut Gen) -> Self {
                // The zero has no sign
                Complex::new($t::modest(g) + 0.0, $t::modest(g) + 0.0)
            }
            // A sum of its parts, where the sign of a zero is lost
            fn literal(&self) -> bool {
                let fits = |x: $t| x.is_finite() && (x != 0.0 || x.is_sign_positive());
                fits(self.re) && fits(self.im)
            }
            fn exact(&self) -> String {
                format!("{} and {}", self.re.exact(), self.im.exact())
            }
        }
    )+ };
}
complexes!(f32 f64);

impl Value for Binary {
    const KIND: usize = 4;
    const TYPE: &'static str = "binary";
    fn context(_: &mut Gen, implicit: bool) -> DefaultContext<'static, Self> {
        DefaultContext::with_config_binary(config(implicit))
    }
    fn generate(g: &mut Gen) -> Self {
        Binary((g.u128() as i128) >> g.below(128))
    }
    fn modest(g: &mut Gen) -> Self {
        Binary(g.range(0, 4000) as i128)
    }
    // Its digits are displayed without the prefix
    fn text(&self) -> String {
        format!("b{}", self)
    }
    fn literal(&self) -> bool {
        self.0 >= 0
    }
    fn tokenizer() -> Tokenizer<'static, Self> {
        Tokenizer::with_splitter(binary_number_splitter())
    }
    fn exact(&self) -> String {
        self.0.to_string()
    }
}

/// The value of a text, or that it has none
fn value<N: Value>(context: DefaultContext<'static, N>, text: &str) -> Result<Option<String>, String> {
    let ev = Box::into_raw(Box::new(Evaluator::with_context_and_tokenizer(context, N::tokenizer())));
    // No result borrows from the evaluator
    let r = guard(|| unsafe { &*ev }.eval(text).ok().map(|v| v.exact()));
    drop(unsafe { Box::from_raw(ev) });
    r
}

//////////////////// One value ////////////////////

fn spaces(g: &mut Gen) -> &'static str {
    ["", "", " ", "\t", "\n "][g.below(5)]
}

/// A value written, or held by a variable or a constant, alone in an expression
fn alone_case<N: Value>(g: &mut Gen) -> Out {
    let implicit = g.chance(30);
    let mut context = N::context(g, implicit);
    let v = N::generate(g);
    let how = g.below(3);
    let name = *g.pick(&["x", "value", "X_1", "q", "Long_Name_9"]);
    let mut text = match how {
        0 => v.text(),
        _ => name.to_string(),
    };
    match how {
        0 if !v.literal() => return discard(),
        0 => {}
        1 => {
            // Only the last value counts
            for _ in 0..g.below(3) {
                context.set_variable(name, N::generate(g)).unwrap();
            }
            context.set_variable(name, v.clone()).unwrap();
        }
        _ => {
            context.add_constant(name, v.clone()).unwrap();
            if g.chance(40) {
                text = if g.chance(50) { text.to_uppercase() } else { text.to_lowercase() };
            }
        }
    }
    for _ in 0..g.below(4) {
        let (a, b) = *g.pick(&[("(", ")"), ("[", "]"), ("{", "}"), ("", "")]);
        // The groups of the default configuration
        let (a, b) = if a == "{" || a == "[" { ("(", ")") } else { (a, b) };
        text = format!("{}{}{}{}{}", spaces(g), a, text, spaces(g), b);
    }
    let kind = ["literal", "variable", "constant"][how];
    let desc = format!("{} {} as {} in {:?}", N::TYPE, v.exact(), kind, text);
    match value(context, &text) {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Some(x)) if x == v.exact() => ok(desc, true, kind),
        Ok(x) => fail(desc, format!("it is read as {:?}", x)),
    }
}

//////////////////// Values in expressions ////////////////////

/// The text with the names replaced by what they stand for
fn substitute(text: &str, names: &[(&str, String)]) -> String {
    let c: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        let from = i;
        i += 1;
        if c[from].is_ascii_alphabetic() || c[from] == '_' {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        }
        let part: String = c[from..i].iter().collect();
        match names.iter().find(|(n, _)| *n == part) {
            Some((_, v)) => out += v,
            None => out += &part,
        }
    }
    out
}

/// The text with names for some of its numbers
fn name_numbers(g: &mut Gen, text: &str, names: &[&str]) -> String {
    let c: Vec<char> = text.chars().collect();
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.';
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        let from = i;
        i += 1;
        if word(c[from]) {
            while i < c.len() && word(c[i]) {
                i += 1;
            }
        }
        let part: String = c[from..i].iter().collect();
        if part.starts_with(|c: char| c.is_ascii_digit()) && g.chance(35) {
            out += &format!(" {} ", g.pick(names));
        } else {
            out += &part;
        }
    }
    out
}

fn substitution_case<N: Value>(g: &mut Gen) -> Out {
    const NAMES: [&str; 4] = ["v", "w", "total", "Q_2"];
    let implicit = g.chance(40);
    let seed = g.raw();
    let count = 1 + g.below(NAMES.len());
    let names = &NAMES[..count];
    let values: Vec<N> =
        (0..count).map(|_| if g.chance(15) { N::generate(g) } else { N::modest(g) }).collect();
    if values.iter().any(|v| !v.literal()) {
        return discard();
    }
    let text = cli::text(g, N::KIND, names);
    let text = name_numbers(g, &text, names);
    let text = cli::longer(g, text);
    let mut context = N::context(g, implicit);
    // Names of names, and of values
    let how = g.below(3);
    let mut written = Vec::new();
    for (i, (n, v)) in names.iter().zip(&values).enumerate() {
        if how == 2 && (seed >> i) & 1 == 1 {
            context.add_constant(n, v.clone()).unwrap();
        } else {
            context.set_variable(n, v.clone()).unwrap();
        }
        written.push((*n, format!("({})", v.text())));
    }
    let replaced = substitute(&text, &written);
    let shown: Vec<String> = names.iter().zip(&values).map(|(n, v)| format!("{} = {}", n, v.exact())).collect();
    let show = |s: &str| crate::large::shorten(s, s.len());
    let desc = format!("{}{}: {:?} with {}", N::TYPE, if implicit { " implicit" } else { "" }, show(&text), shown.join(", "));
    let used = replaced != text;
    let r = value(context.clone(), &text).and_then(|a| value(context, &replaced).map(|b| (a, b)));
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok((Some(a), Some(b))) if a == b => ok(desc, used, "a value"),
        Ok((None, None)) => ok(desc, false, "an error"),
        // A function with a name after it becomes a call, a name before a number a product
        Ok((None, Some(_))) if implicit || after_function(&text, names) => ok(desc, false, "no call"),
        Ok((a, b)) => fail(desc, format!("it is {:?}, and {:?} is {:?}", a, show(&replaced), b)),
    }
}

/// Whether one of the names follows a name and spaces
fn after_function(text: &str, names: &[&str]) -> bool {
    let words: Vec<&str> = text.split_whitespace().collect();
    words.windows(2).any(|w| {
        let name = |s: &str| s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
        let last = w[0].rsplit(|c: char| !c.is_ascii_alphanumeric() && c != '_').next().unwrap_or("");
        !last.is_empty() && name(last) && names.iter().any(|n| w[1].starts_with(n))
    })
}

macro_rules! any_type {
    ($f:ident, $g:expr) => {
        match $g.below(13) {
            0 | 11 => $f::<f64>($g),
            1 | 12 => $f::<Decimal>($g),
            2 => $f::<i64>($g),
            3 => $f::<Complex<f64>>($g),
            4 => $f::<Binary>($g),
            5 => $f::<i8>($g),
            6 => $f::<i16>($g),
            7 => $f::<i32>($g),
            8 => $f::<i128>($g),
            9 => $f::<f32>($g),
            _ if $g.chance(50) => $f::<isize>($g),
            _ => $f::<Complex<f32>>($g),
        }
    };
}

pub fn c27() -> Property {
    Property {
        id: "C27",
        rule: "Values of every number type, over all its bit patterns: one displayed, or held by a variable or a constant (after others), alone in groups and whitespace, has to be read as itself to the last bit; and a generated expression over names has to have the value, to the last bit, or no value, as with every name replaced by the text of its value in a group. Non-trivial: the value is read, or the expression has a value and a name.",
        subs: vec![
            sub("alone", 1_500_000, 40, || Box::new(|g| any_type!(alone_case, g))),
            sub("substituted", 1_000_000, 120, || Box::new(|g| any_type!(substitution_case, g))),
        ],
    }
}
