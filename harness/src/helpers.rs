//! C28: tokens, errors, configurations, names, and the helpers for strings, iterators, options and approximations.
use crate::engine::*;
use prexel::context::validate::{check_token_name, TokenKind};
use prexel::context::{Config, Grouping};
use prexel::error::{Error, ErrorKind};
use prexel::function::Precedence;
use prexel::token::Token;
use prexel::utils::approx::{Approx, ApproxEq};
use prexel::utils::extensions::{IteratorExt, OptionExt, OptionStrExt, StrExt};
use rust_decimal::Decimal;
use std::cmp::Ordering;
use std::fmt;

fn character(g: &mut Gen) -> char {
    match g.below(12) {
        0..=4 => (b'a' + g.below(26) as u8) as char,
        5 => (b'A' + g.below(26) as u8) as char,
        6 => (b'0' + g.below(10) as u8) as char,
        7 | 8 => *g.pick(&[' ', ' ', '\t', '\n', '\u{a0}', '\u{3000}', '\u{b}']),
        9 => *g.pick(&['+', '-', '_', '.', ',', '\'', '(', ')', '[', ']', '{', '}', '<', '!']),
        10 => *g.pick(&['é', 'É', 'ß', 'σ', 'Σ', 'ſ', '中', '٣', 'İ', '\u{301}', '😀']),
        _ => *g.pick(&['\0', '\u{7f}', '\u{85}', '\u{1b}', '\u{200b}', '\u{2028}']),
    }
}

fn word(g: &mut Gen) -> String {
    let n = g.len(0, 12);
    (0..n).map(|_| character(g)).collect()
}

fn text(g: &mut Gen) -> String {
    let n = if g.chance(3) { g.len(0, 300) } else { g.len(0, 16) };
    (0..n).map(|_| character(g)).collect()
}

//////////////////// Tokens ////////////////////

#[derive(Clone, PartialEq, Debug)]
enum Content {
    Number(i64),
    Text(String),
    Count(usize),
    Symbol(char),
    Nothing,
}

fn token(g: &mut Gen) -> (usize, Content) {
    let kind = g.below(11);
    let content = match kind {
        0 => Content::Number(if g.chance(70) { g.range(-3, 3) } else { g.u64() as i64 }),
        6 => Content::Count(if g.chance(70) { g.below(4) } else { g.u64() as usize }),
        7 | 8 => Content::Symbol(if g.chance(80) { *g.pick(&['(', ')', '[', ']', '{', '}', '<', '>']) } else { character(g) }),
        10 => Content::Nothing,
        _ => Content::Text(if g.chance(60) { g.pick(&["x", "X", "+", "mod", "sin", "Sin", "", "(", ","]).to_string() } else { word(g) }),
    };
    (kind, content)
}

fn make(kind: usize, content: &Content) -> Token<i64> {
    match (kind, content) {
        (0, Content::Number(n)) => Token::Number(*n),
        (1, Content::Text(s)) => Token::Variable(s.clone()),
        (2, Content::Text(s)) => Token::Constant(s.clone()),
        (3, Content::Text(s)) => Token::Function(s.clone()),
        (4, Content::Text(s)) => Token::BinaryOperator(s.clone()),
        (5, Content::Text(s)) => Token::UnaryOperator(s.clone()),
        (6, Content::Count(n)) => Token::ArgCount(*n),
        (7, Content::Symbol(c)) => Token::GroupingOpen(*c),
        (8, Content::Symbol(c)) => Token::GroupingClose(*c),
        (9, Content::Text(s)) => Token::Unknown(s.clone()),
        _ => Token::Comma,
    }
}

fn token_case(g: &mut Gen) -> Out {
    let mut all = vec![token(g), token(g), token(g)];
    // Often alike
    for i in 1..3 {
        if g.chance(30) {
            all[i] = all[i - 1].clone();
        } else if g.chance(30) {
            if let (true, true) = (matches!(all[i].1, Content::Text(_)), matches!(all[i - 1].1, Content::Text(_))) {
                all[i].1 = all[i - 1].1.clone();
            }
        }
    }
    let desc = format!("{:?}", all);
    let tokens: Vec<Token<i64>> = all.iter().map(|(k, c)| make(*k, c)).collect();
    let symbol = if g.chance(60) { *g.pick(&['(', ')', '[', ']', '{', '}', '<', '+', 'x', ',']) } else { character(g) };
    let r = guard(|| -> Result<(), String> {
        for (t, (kind, content)) in tokens.iter().zip(&all) {
            let answers = [
                t.is_number(),
                t.is_variable(),
                t.is_constant(),
                t.is_function(),
                t.is_binary_operator(),
                t.is_unary_operator(),
                t.is_arg_count(),
                t.is_grouping_open(),
                t.is_grouping_close(),
                t.is_unknown(),
                t.is_comma(),
            ];
            for (i, a) in answers.iter().enumerate() {
                if *a != (i == *kind) {
                    return Err(format!("question {} about {:?} is answered by {}", i, t, a));
                }
            }
            for c in [symbol, '(', ')', ','] {
                if t.contains_symbol(c) != (*content == Content::Symbol(c)) {
                    return Err(format!("contains_symbol({:?}) of {:?} is {}", c, t, t.contains_symbol(c)));
                }
            }
            let (shown, debug) = match content {
                Content::Number(n) => (n.to_string(), n.to_string()),
                Content::Text(s) => (s.clone(), format!("{:?}", s)),
                Content::Count(n) => (n.to_string(), n.to_string()),
                Content::Symbol(c) => (c.to_string(), format!("{:?}", c)),
                Content::Nothing => (String::new(), String::new()),
            };
            if !t.to_string().contains(&shown) || !format!("{:?}", t).contains(&debug) {
                return Err(format!("shown as {} and {:?}", t, t));
            }
            if t.clone() != *t {
                return Err(format!("a copy of {:?} is {:?}", t, t.clone()));
            }
        }
        for i in 0..3 {
            for j in 0..3 {
                let same = all[i] == all[j];
                let (a, b) = (&tokens[i], &tokens[j]);
                if (a == b) != same || (a != b) == same {
                    return Err(format!("{:?} == {:?} is {}", a, b, a == b));
                }
                if (a.cmp(b) == Ordering::Equal) != same || a.cmp(b) != b.cmp(a).reverse() || a.partial_cmp(b) != Some(a.cmp(b)) {
                    return Err(format!("{:?} and {:?} compare as {:?}", a, b, a.cmp(b)));
                }
                if (a.to_string() == b.to_string()) != same && all[i].0 != all[j].0 {
                    return Err(format!("{:?} and {:?} are shown alike", a, b));
                }
                for c in &tokens {
                    if a <= b && b <= c && a > c {
                        return Err(format!("{:?} <= {:?} <= {:?} but not the first and the last", a, b, c));
                    }
                }
            }
        }
        Ok(())
    });
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => fail(desc, e),
        Ok(Ok(())) => ok(desc, true, "tokens"),
    }
}

//////////////////// Errors ////////////////////

const KINDS: [ErrorKind; 11] = [
    ErrorKind::Overflow,
    ErrorKind::Zero,
    ErrorKind::NAN,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidArgumentCount,
    ErrorKind::DivisionByZero,
    ErrorKind::NegativeValue,
    ErrorKind::PositiveValue,
    ErrorKind::InvalidExpression,
    ErrorKind::Empty,
    ErrorKind::Unknown,
];

#[derive(Debug)]
struct Cause(String);
impl fmt::Display for Cause {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Cause {}

#[derive(Debug)]
struct Caused {
    text: String,
    cause: Cause,
}
impl fmt::Display for Caused {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.text)
    }
}
impl std::error::Error for Caused {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.cause)
    }
}

fn error_case(g: &mut Gen) -> Out {
    let mut made = Vec::new();
    let mut desc = String::new();
    for _ in 0..2 {
        let kind = KINDS[g.below(11)];
        let message = text(g);
        let cause = text(g);
        let (e, kind, message, cause) = match g.below(5) {
            0 => (Error::from(kind), kind, None, None),
            1 => (Error::new(kind, message.clone()), kind, Some(message), None),
            2 => (Error::new(kind, message.as_str()), kind, Some(message), None),
            3 => (Error::other(&message), ErrorKind::Unknown, Some(message), None),
            _ => {
                let inner = Caused { text: message.clone(), cause: Cause(cause.clone()) };
                (Error::new(kind, inner), kind, Some(message), Some(cause))
            }
        };
        desc.push_str(&format!("{:?} {:?} {:?}; ", kind, message, cause));
        made.push((e, kind, message, cause));
    }
    let r = guard(|| -> Result<(), String> {
        for (e, kind, message, cause) in made.iter_mut() {
            if e.kind() != *kind {
                return Err(format!("the kind is {:?}", e.kind()));
            }
            let shown = message.clone().unwrap_or(kind.as_str().to_string());
            if e.to_string() != shown {
                return Err(format!("shown as {:?}", e.to_string()));
            }
            if format!("{:?}", e).is_empty() {
                return Err("nothing for debugging".into());
            }
            let source = std::error::Error::source(e).map(|s| s.to_string());
            if source != *cause {
                return Err(format!("the source is {:?}", source));
            }
            if e.get_ref().map(|r| r.to_string()) != *message || e.get_mut().map(|r| r.to_string()) != *message {
                return Err(format!("refers to {:?}", e.get_ref()));
            }
            if let Some(r) = e.get_mut() {
                *r = Box::new(Cause("another".into()));
                if e.to_string() != "another" || e.kind() != *kind {
                    return Err(format!("changed to {:?}", e));
                }
                *message = Some("another".into());
            }
        }
        let same = made[0].1 == made[1].1;
        if (made[0].0 == made[1].0) != same || (made[0].0 != made[1].0) == same {
            return Err(format!("equality is not {}", same));
        }
        if (made[0].1.as_str() == made[1].1.as_str()) != same || made[0].1.as_str().is_empty() {
            return Err("the texts of the kinds".into());
        }
        for (e, _, message, _) in made.drain(..) {
            if e.into_inner().map(|i| i.to_string()) != message {
                return Err("another inner error".into());
            }
        }
        Ok(())
    });
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => fail(desc, e),
        Ok(Ok(())) => ok(desc, true, "errors"),
    }
}

//////////////////// Configurations and names ////////////////////

const PAIRS: [(Grouping, char, char); 3] =
    [(Grouping::Parenthesis, '(', ')'), (Grouping::Bracket, '[', ']'), (Grouping::Brace, '{', '}')];

fn configured(g: &mut Gen, desc: &mut String) -> (Config, ([bool; 3], [bool; 3])) {
    let mut flags = [false; 3];
    let mut groups = [false; 3];
    let mut config = if g.chance(50) {
        groups[0] = true;
        desc.push_str("new()");
        Config::new()
    } else {
        desc.push_str("default()");
        Config::default()
    };
    for _ in 0..g.len(0, 6) {
        let on = g.chance(50);
        match g.below(4) {
            0 => {
                config = config.with_implicit_mul(on);
                flags[0] = on;
                desc.push_str(&format!(".with_implicit_mul({})", on));
            }
            1 => {
                config = config.with_complex_number(on);
                flags[1] = on;
                desc.push_str(&format!(".with_complex_number({})", on));
            }
            2 => {
                config = config.with_custom_function_call(on);
                flags[2] = on;
                desc.push_str(&format!(".with_custom_function_call({})", on));
            }
            _ => {
                let i = g.below(3);
                config = config.with_grouping(PAIRS[i].0);
                groups[i] = true;
                desc.push_str(&format!(".with_grouping({:?})", PAIRS[i].0));
            }
        }
    }
    desc.push_str("; ");
    (config, (flags, groups))
}

fn config_case(g: &mut Gen) -> Out {
    let mut desc = String::new();
    let (a, x) = configured(g, &mut desc);
    let (b, y) = configured(g, &mut desc);
    let c = match g.chance(70) {
        true => {
            let p = PAIRS[g.below(3)];
            [p.1, p.2][g.below(2)]
        }
        false => character(g),
    };
    desc.push_str(&format!("{:?}", c));
    let r = guard(|| -> Result<(), String> {
        for (config, (flags, groups)) in [(&a, &x), (&b, &y)] {
            if [config.implicit_mul, config.complex_number, config.custom_function_call] != *flags {
                return Err(format!("expected {:?} but got {:?}", flags, config));
            }
            if config.clone() != *config {
                return Err("a copy differs".into());
            }
            let pair = PAIRS.iter().enumerate().find(|(_, p)| p.1 == c || p.2 == c);
            match pair {
                None => {
                    if config.get_group_symbol(c).is_some()
                        || config.get_group_open_for(c).is_some()
                        || config.get_group_close_for(c).is_some()
                        || config.is_group_close(c)
                        || config.is_group_open(c)
                        || Grouping::new(c).is_some()
                    {
                        return Err("taken for a symbol of a group".into());
                    }
                }
                // Only what the configuration has for sure
                Some((i, p)) if groups[i] => {
                    let open = p.1 == c;
                    if config.get_group_symbol(c) != Some((p.1, p.2))
                        || config.get_group_open_for(c) != (!open).then_some(p.1)
                        || config.get_group_close_for(c) != open.then_some(p.2)
                        || config.is_group_open(c) != open
                        || config.is_group_close(c) == open
                    {
                        return Err(format!(
                            "pair {:?}, opened by {:?}, closed by {:?}, opens {}, closes {}",
                            config.get_group_symbol(c),
                            config.get_group_open_for(c),
                            config.get_group_close_for(c),
                            config.is_group_open(c),
                            config.is_group_close(c)
                        ));
                    }
                }
                _ => {}
            }
        }
        if (a == b) != (x == y) {
            return Err(format!("equal is {}", a == b));
        }
        for p in &PAIRS {
            let hit = c == p.1 || c == p.2;
            if p.0.symbols() != (p.1, p.2)
                || (p.0.open(), p.0.close()) != (p.1, p.2)
                || (Grouping::new(c) == Some(p.0)) != hit
                || p.0.is_open(c) != (c == p.1)
                || p.0.is_close(c) != (c == p.2)
                || p.0.close_for(c) != (c == p.1).then_some(p.2)
                || p.0.open_for(c) != (c == p.2).then_some(p.1)
            {
                return Err(format!("{:?}", p.0));
            }
        }
        Ok(())
    });
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => fail(desc, e),
        Ok(Ok(())) => ok(desc, true, "configurations"),
    }
}

fn name_case(g: &mut Gen) -> Out {
    let name = match g.below(3) {
        0 => text(g),
        k => {
            // Good but for one character at most
            let n = g.len(1, 60);
            let mut all: Vec<char> = (0..n).map(|_| *g.pick(&['a', 'x', 'Z', '9', '_', '+', '-', '$', 'é', '中'])).collect();
            if k == 1 {
                let at = g.below(n);
                all[at] = character(g);
            }
            all.into_iter().collect()
        }
    };
    let kind = [TokenKind::Variable, TokenKind::Constant, TokenKind::Operator, TokenKind::Function][g.below(4)];
    let desc = format!("{} {:?}", kind, name);
    let blank = name.chars().all(char::is_whitespace);
    let good = !blank && !name.chars().any(|c| c.is_whitespace() || c.is_control());
    let (p, q) = (g.u64() as u32 >> g.below(32), g.u64() as u32 >> g.below(32));
    let r = guard(|| check_token_name(kind, &name).map_err(|e| e.kind()));
    if Precedence(p).cmp(&Precedence::from(q)) != p.cmp(&q) || (Precedence(p) == Precedence(q)) != (p == q) {
        return fail(format!("{} and {}", p, q), "precedences are not ordered as their numbers");
    }
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Ok(())) if good => ok(desc, true, "a name"),
        Ok(Err(ErrorKind::Empty)) if blank => ok(desc, true, "no name"),
        Ok(Err(_)) if !good => ok(desc, true, "no name"),
        Ok(r) => fail(desc, format!("got {:?}", r)),
    }
}

//////////////////// Helpers ////////////////////

fn capital(s: &str) -> String {
    let at = s.char_indices().find(|(_, c)| c.is_alphanumeric()).map(|(i, _)| i);
    let mut all = s.to_ascii_lowercase();
    if let Some(i) = at {
        let n = s[i..].chars().next().unwrap().len_utf8();
        all.replace_range(i..i + n, &s[i..i + n].to_ascii_uppercase());
    }
    all
}

fn string_case(g: &mut Gen) -> Out {
    let s = text(g);
    let c = match s.chars().next() {
        Some(c) if g.chance(70) => c,
        _ => character(g),
    };
    let desc = format!("{:?} and {:?}", s, c);
    let single = s.chars().count() == 1;
    let words: String = s.split_inclusive(char::is_whitespace).map(capital).collect();
    let r = guard(|| -> Result<(), String> {
        let t = s.as_str();
        if t.eq_char(c) != (s == c.to_string()) {
            return Err(format!("eq_char is {}", t.eq_char(c)));
        }
        if t.single_char() != if single { s.chars().next() } else { None } {
            return Err(format!("single_char is {:?}", t.single_char()));
        }
        if t.to_sentence_case() != capital(&s) {
            return Err(format!("to_sentence_case is {:?} and not {:?}", t.to_sentence_case(), capital(&s)));
        }
        if t.to_capital_case() != words {
            return Err(format!("to_capital_case is {:?} and not {:?}", t.to_capital_case(), words));
        }
        Ok(())
    });
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => fail(desc, e),
        Ok(Ok(())) => ok(desc, !s.is_empty(), "strings"),
    }
}

fn items_case(g: &mut Gen) -> Out {
    let n = if g.chance(5) { g.len(0, 400) } else { g.len(0, 30) };
    let span = [3, 10, 1000][g.below(3)];
    // With their places, for the order of equal ones
    let items: Vec<(i64, usize)> = (0..n).map(|i| (g.range(-span, span), i)).collect();
    let (a, b) = (word(g), if g.chance(50) { None } else { Some(word(g)) });
    let b = if g.chance(40) { Some(a.clone()) } else { b };
    let desc = format!("{:?} {:?} {:?}", items.iter().map(|i| i.0).collect::<Vec<_>>(), a, b);
    let r = guard(|| -> Result<(), String> {
        let numbers: Vec<i64> = items.iter().map(|i| i.0).collect();
        let mut want = items.clone();
        // Insertion, which keeps the order of equal ones
        for i in 1..want.len() {
            let mut j = i;
            while j > 0 && want[j].0 < want[j - 1].0 {
                want.swap(j, j - 1);
                j -= 1;
            }
        }
        if numbers.into_iter().sorted().collect::<Vec<_>>() != want.iter().map(|i| i.0).collect::<Vec<_>>() {
            return Err("sorted".into());
        }
        if items.iter().copied().sorted_by(|x, y| x.0.cmp(&y.0)).collect::<Vec<_>>() != want {
            return Err("sorted_by".into());
        }
        if items.iter().copied().sorted_by_key(|x| x.0).collect::<Vec<_>>() != want {
            return Err("sorted_by_key".into());
        }
        let same = b.as_ref() == Some(&a);
        if b.contains_str(&a) != same || b.as_ref().contains_str(&a) != same {
            return Err("contains_str".into());
        }
        if b.contains_some(&a) != same {
            return Err("contains_some".into());
        }
        Ok(())
    });
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => fail(desc, e),
        Ok(Ok(())) => ok(desc, n > 1, "items"),
    }
}

fn approx_case(g: &mut Gen) -> Out {
    // Exact in both types: a whole number of 2^-20 is one of 10^-20 as well
    let whole = if g.chance(50) { g.range(-20, 20) } else { g.range(-1_000_000, 1_000_000) };
    let unit = 1 << 20;
    let part = |g: &mut Gen| match g.below(4) {
        0 => g.range(0, 40),
        1 => unit / 2 - g.range(-20, 20),
        2 => unit - g.range(0, 40),
        _ => g.range(0, unit),
    };
    let n = whole * unit + part(g);
    let delta = part(g);
    let tiny = g.range(-300, 300);
    let desc = format!("{}/2^20 by {}/2^20, {}e-12", n, delta, tiny);
    let near = (n + unit / 2).div_euclid(unit);
    let distance = (n - near * unit).abs();
    let tied = distance == unit / 2;
    let r = guard(|| -> Result<(), String> {
        let f = |n: i64| n as f64 / unit as f64;
        let d = |n: i64| Decimal::from(n) / Decimal::from(unit);
        let want = |got: i64| if distance < delta { got == near * unit || tied && got == near * unit - unit } else { got == n };
        let got = f(n).approx_by(&f(delta));
        if !want((got * unit as f64) as i64) {
            return Err(format!("approx_by of f64 is {}", got));
        }
        let got = d(n).approx_by(&d(delta));
        let scaled = got * Decimal::from(unit);
        use num_traits::ToPrimitive;
        if !want(scaled.to_i64().unwrap()) {
            return Err(format!("approx_by of decimals is {}", got));
        }
        let (a, b) = (d(n), d(n + part_of(tiny, delta)));
        let apart = part_of(tiny, delta).abs();
        if a.approx_eq(&b, &d(delta)) != (apart < delta) || b.approx_eq(&a, &d(delta)) != (apart < delta) {
            return Err(format!("approx_eq({}, {}) is not {}", a, b, apart < delta));
        }
        // Within a ten-billionth of an integer
        let x = whole as f64 + tiny as f64 * 1e-12;
        let off = (x - whole as f64).abs();
        let got = x.approx();
        if whole.abs() < 1000 && (off < 0.9e-10 && got != whole as f64 || off > 1.1e-10 && got != x) {
            return Err(format!("approx of {:e} is {:e}", x, got));
        }
        Ok(())
    });
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => fail(desc, e),
        Ok(Ok(())) => ok(desc, true, "approximations"),
    }
}

fn part_of(tiny: i64, delta: i64) -> i64 {
    if tiny % 2 == 0 {
        tiny
    } else {
        delta * tiny.signum() + tiny / 100
    }
}

pub fn c28() -> Property {
    Property {
        id: "C28",
        rule: "Triples of tokens of any kinds, often alike, for the questions about their kind, equality, order and text; pairs of errors made in each way, with messages and sources; configurations made by up to 6 settings, against a record of them; symbols of groups, names of tokens and precedences; and texts of up to 300 characters, hundreds of items to sort, options and numbers near to integers for the helpers, against other definitions of them. Non-trivial: all but empty texts and lists of one.",
        subs: vec![
            sub("tokens", 800_000, 60, || Box::new(token_case)),
            sub("errors", 500_000, 120, || Box::new(error_case)),
            sub("configurations", 500_000, 40, || Box::new(config_case)),
            sub("names", 600_000, 80, || Box::new(name_case)),
            sub("strings", 800_000, 60, || Box::new(string_case)),
            sub("items", 300_000, 120, || Box::new(items_case)),
            sub("approximations", 500_000, 20, || Box::new(approx_case)),
        ],
    }
}
