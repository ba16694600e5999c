//! C01, C02, C05, C06, C17: how expressions are read.
use crate::engine::*;
use crate::grammar::*;
use num_bigint::BigInt;
use std::collections::BTreeMap;
use std::rc::Rc;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::{infix_to_rpn, Evaluator};
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::{DefaultSplitter, SplitWhitespaceOption};

fn with_large(large: Vec<Sub>, mut subs: Vec<Sub>) -> Vec<Sub> {
    subs.extend(large);
    subs
}

pub fn sym_shape() -> Shape {
    Shape {
        max_ops: 9,
        max_depth: 4,
        max_args: 4,
        num: small_num,
        arity: |_| (0, 4),
        groups: &['(', '(', '[', '{'],
        juxt: false,
    }
}

pub fn config(t: &Table) -> Config {
    Config::new()
        .with_grouping(Grouping::Bracket)
        .with_grouping(Grouping::Brace)
        .with_custom_function_call(t.custom_call)
}

pub fn gen_any_table(g: &mut Gen) -> Table {
    let mut t = gen_table(g);
    t.custom_call = g.chance(30);
    t
}

pub fn show(t: &Table) -> String {
    let bins: Vec<String> = t
        .bins
        .iter()
        .map(|b| format!("{} {}{}", b.name, b.prec, if b.right { "R" } else { "L" }))
        .collect();
    format!(
        "[{}; prefix {}; postfix {}{}]",
        bins.join(", "),
        t.prefix.join(" "),
        t.postfix.join(" "),
        if t.custom_call { "; custom calls" } else { "" }
    )
}

/// Evaluates with a symbolic context: the outer error is a panic.
fn sym_eval(ev: &'static Evaluator<'static, Sym>, e: &str) -> Result<Result<String, String>, String> {
    guard(|| ev.eval(e).map(|s| s.0).map_err(|e| format!("{:?}", e)))
}

/// The same by a tokenizer whose splitter keeps the whitespace
fn spaced_eval(ev: &'static Evaluator<'static, Sym>, e: &str) -> Result<Result<String, String>, String> {
    guard(|| {
        let splitter = DefaultSplitter::new(SplitWhitespaceOption::None);
        let tokens = Tokenizer::with_splitter(splitter).tokenize(ev.context(), e);
        tokens.and_then(|t| ev.eval_tokens(&t)).map(|s| s.0).map_err(|e| format!("{:?}", e))
    })
}

/// Runs with an evaluator of the table, which `eval` wants to be borrowed for its lifetime.
fn with_sym<T>(t: &Table, config: Config, f: impl FnOnce(&'static Evaluator<'static, Sym>) -> T) -> T {
    let ev: *mut Evaluator<'static, Sym> =
        Box::into_raw(Box::new(Evaluator::with_context(sym_context(t, config))));
    // No result borrows from the evaluator
    let r = f(unsafe { &*ev });
    drop(unsafe { Box::from_raw(ev) });
    r
}

fn size_class(w: usize) -> &'static str {
    match w {
        0..=1 => "trivial",
        2..=5 => "2 to 5 operations",
        6..=12 => "6 to 12 operations",
        _ => "more than 12 operations",
    }
}

/// A context as a user would write it: a scope of variables over a shared context, whose names
/// may be case sensitive.
struct Scope {
    parent: Rc<DefaultContext<'static, Sym>>,
    locals: BTreeMap<String, Sym>,
    config: Config,
    /// The names there are, if their case is significant
    exact: Option<Vec<String>>,
}

impl Scope {
    fn knows(&self, name: &str) -> bool {
        self.exact.as_ref().map_or(true, |v| v.iter().any(|n| n == name))
    }
}

impl Context<'static, Sym> for Scope {
    fn config(&self) -> &Config {
        &self.config
    }
    fn add_function<F: Function<Sym> + 'static>(&mut self, func: F) -> prexel::Result<()> {
        Rc::get_mut(&mut self.parent).unwrap().add_function(func)
    }
    fn add_unary_function<F: UnaryFunction<Sym> + 'static>(&mut self, func: F) -> prexel::Result<()> {
        Rc::get_mut(&mut self.parent).unwrap().add_unary_function(func)
    }
    fn add_binary_function<F: BinaryFunction<Sym> + 'static>(&mut self, func: F) -> prexel::Result<()> {
        Rc::get_mut(&mut self.parent).unwrap().add_binary_function(func)
    }
    fn add_constant(&mut self, name: &str, value: Sym) -> prexel::Result<()> {
        Rc::get_mut(&mut self.parent).unwrap().add_constant(name, value)
    }
    fn set_variable(&mut self, name: &str, value: Sym) -> prexel::Result<Option<Sym>> {
        Ok(self.locals.insert(name.to_string(), value))
    }
    fn get_variable(&self, name: &str) -> Option<&Sym> {
        self.locals.get(name).or_else(|| self.parent.get_variable(name))
    }
    fn get_constant(&self, name: &str) -> Option<&Sym> {
        self.parent.get_constant(name).filter(|_| self.knows(name))
    }
    fn get_function(&self, name: &str) -> Option<&Rc<dyn Function<Sym>>> {
        self.parent.get_function(name).filter(|_| self.knows(name))
    }
    fn get_unary_function(&self, name: &str) -> Option<&Rc<dyn UnaryFunction<Sym>>> {
        self.parent.get_unary_function(name).filter(|_| self.knows(name))
    }
    fn get_binary_function(&self, name: &str) -> Option<&Rc<dyn BinaryFunction<Sym>>> {
        self.parent.get_binary_function(name).filter(|_| self.knows(name))
    }
}

/// Expressions evaluated with a context that is not the library's
fn user_context_case(g: &mut Gen) -> Out {
    let t = gen_any_table(g);
    let mut names: Vec<String> = t.bins.iter().map(|b| b.name.to_string()).collect();
    for v in [&t.prefix, &t.postfix, &t.funcs, &t.consts] {
        names.extend(v.iter().map(|n| n.to_string()));
    }
    let sensitive = g.chance(50);
    let mut parent = sym_context(&t, config(&t));
    let mut locals = BTreeMap::new();
    for n in &t.vars {
        if g.chance(50) {
            parent.set_variable(n, Sym(format!("<outer {}>", n))).unwrap();
            locals.insert(n.to_string(), Sym(format!("<var {}>", n)));
        }
    }
    let scope = Scope {
        parent: Rc::new(parent),
        locals,
        config: config(&t),
        exact: if sensitive { Some(names.clone()) } else { None },
    };
    let c = gen_chain(g, &t, &sym_shape(), 0);
    let expected = eval_chain(&t, &c, &mut SymAlg(&t)).unwrap();
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    let mut unknown = false;
    if g.chance(40) {
        for s in tokens.iter_mut().filter(|s| names.contains(s)) {
            if g.chance(30) {
                *s = random_case(g, s);
                unknown |= !names.contains(s) && !t.vars.contains(&s.as_str());
            }
        }
        // A name of another kind: what it would be then is not this case's matter
        if tokens.iter().any(|s| t.vars.contains(&s.as_str()) && names.iter().any(|n| n.eq_ignore_ascii_case(s))) {
            return discard();
        }
    }
    let text = join_any(g, &t, &tokens);
    let desc = format!("{}   {}{}", text, show(&t), if sensitive { " case sensitive" } else { "" });
    let ev: *mut Evaluator<'static, Sym, Scope> = Box::into_raw(Box::new(Evaluator::with_context(scope)));
    // No result borrows from the evaluator
    let r = guard(|| unsafe { &*ev }.eval(&text).map(|s| s.0).map_err(|e| format!("{:?}", e)));
    drop(unsafe { Box::from_raw(ev) });
    let w = weight(&c);
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(r) if sensitive && unknown => match r {
            Ok(v) => fail(desc, format!("a name in another case was read: {}", v)),
            Err(_) => ok(desc, w >= 2, "unknown names"),
        },
        Ok(Ok(v)) if v == expected => ok(desc, w >= 2, if sensitive { "case sensitive" } else { "a scope" }),
        Ok(r) => fail(desc, format!("expected {} but got {:?}", expected, r)),
    }
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "A random table of operators (symbols, words, non-ASCII; any precedence, an associativity per level; prefix, postfix, also names that are both prefix and binary), functions, variables and constants, and a random well-formed expression over it, written with any spacing; the values are symbolic, so the result is the tree the expression was read as; and expressions of thousands of tokens, levels or arguments, with hashes of the trees as values; and expressions with a context written as a user would, a scope of variables over another context, with case sensitive names or not. Non-trivial: at least 2 operations.",
        subs: with_large(crate::large::c01(), vec![sub("user-contexts", 500_000, 400, || Box::new(user_context_case)), sub("symbolic", 2_000_000, 260, || {
            Box::new(|g| {
                let t = gen_any_table(g);
                let c = gen_chain(g, &t, &sym_shape(), 0);
                let expected = eval_chain(&t, &c, &mut SymAlg(&t)).unwrap();
                let mut tokens = Vec::new();
                write_chain(&t, &c, &mut tokens);
                let text = join_any(g, &t, &tokens);
                let desc = format!("{}   {}", text, show(&t));
                let w = weight(&c);
                match with_sym(&t, config(&t), |ev| sym_eval(ev, &text)) {
                    Err(p) => fail(desc, format!("panicked: {}", p)),
                    Ok(Err(e)) => fail(desc, format!("expected {} but was rejected: {}", expected, e)),
                    Ok(Ok(v)) if v != expected => {
                        fail(desc, format!("expected {} but was read as {}", expected, v))
                    }
                    _ => ok(desc, w >= 2, size_class(w)),
                }
            })
        })]),
    }
}

//////////////////// C02 ////////////////////

/// A token a well-formed expression could have, or an unknown one.
fn gen_token(g: &mut Gen, t: &Table) -> String {
    const UNKNOWN: [&str; 6] = ["foo", "\u{ac}", "=:=", ";", "\u{e9}", "x_y_z"];
    match g.below(20) {
        0..=3 => small_num(g),
        4 if !t.vars.is_empty() => g.pick(&t.vars).to_string(),
        5 if !t.consts.is_empty() => g.pick(&t.consts).to_string(),
        6 | 7 if !t.funcs.is_empty() => g.pick(&t.funcs).to_string(),
        8 | 9 if !t.prefix.is_empty() => g.pick(&t.prefix).to_string(),
        10 if !t.postfix.is_empty() => g.pick(&t.postfix).to_string(),
        11 | 12 => ["(", "(", "[", "{"][g.below(4)].to_string(),
        13 | 14 => [")", ")", "]", "}"][g.below(4)].to_string(),
        15 => ",".to_string(),
        16 if g.chance(20) => g.pick::<&str>(&UNKNOWN).to_string(),
        17 if g.chance(30) => alike(g, t).unwrap_or_else(|| "foo".to_string()),
        _ => g.pick(&t.bins).name.to_string(),
    }
}

/// A word made of the words that are names, which is no name but by chance.
fn alike(g: &mut Gen, t: &Table) -> Option<String> {
    let mut words: Vec<&str> = [&t.vars, &t.consts, &t.funcs, &t.prefix, &t.postfix].iter().flat_map(|v| v.iter().copied()).collect();
    words.extend(t.bins.iter().map(|b| b.name));
    let all = words.clone();
    words.retain(|w| w.chars().all(|c| c.is_ascii_alphabetic()));
    if words.is_empty() {
        return None;
    }
    let a = g.pick(&words).to_string();
    let word = match g.below(5) {
        0 | 1 => a + g.pick::<&str>(&words),
        2 => format!("{}{}", a, ["_", "1", "a", "é", "_x"][g.below(5)]),
        3 if a.chars().count() > 1 => a.chars().take(a.chars().count() - 1).collect(),
        3 => a.clone() + &a,
        _ if a.chars().count() > 1 => a.chars().skip(1).collect(),
        _ => format!("{}{}{}", a, a, a),
    };
    // A name in another letter case
    let same = |w: &&str| w.to_lowercase() == word.to_lowercase() && **w != word;
    (!all.iter().any(same)).then_some(word)
}

/// Tokens in any order, or a well-formed expression with a few edits.
fn gen_soup(g: &mut Gen, t: &Table, shape: &Shape) -> (Vec<String>, bool) {
    if g.chance(25) {
        let n = g.len(0, 12);
        return ((0..n).map(|_| gen_token(g, t)).collect(), false);
    }
    let edits = g.below(4);
    let c = gen_chain(g, t, shape, 0);
    let mut tokens = Vec::new();
    write_chain(t, &c, &mut tokens);
    for _ in 0..edits {
        let n = tokens.len();
        match g.below(6) {
            0 if n > 1 => {
                tokens.remove(g.below(n));
            }
            1 if n > 0 => {
                let i = g.below(n);
                tokens.insert(i, tokens[i].clone());
            }
            2 if n > 1 => {
                let i = g.below(n - 1);
                tokens.swap(i, i + 1);
            }
            3 if n > 1 => {
                let (i, j) = (g.below(n), g.below(n));
                tokens.swap(i, j);
            }
            4 if n > 0 => {
                let i = g.below(n);
                tokens[i] = gen_token(g, t);
            }
            _ => tokens.insert(g.below(n + 1), gen_token(g, t)),
        }
    }
    (tokens, edits > 0)
}

fn soup_case(g: &mut Gen, t: &Table, config: Config, shape: &Shape) -> Out {
    let (tokens, _) = gen_soup(g, t, shape);
    let text = join_any(g, t, &tokens);
    let desc = format!("{}   {}", text, show(t));
    let result = match with_sym(t, config, |ev| sym_eval(ev, &text)) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    match read(t, &tokens, false) {
        Read::Unspecified => ok(desc, false, "unspecified"),
        Read::Malformed => match result {
            Ok(v) => fail(desc, format!("a malformed expression was evaluated to {}", v)),
            Err(_) => ok(desc, tokens.len() > 1, "malformed"),
        },
        Read::Valid(c) => {
            let expected = eval_chain(t, &c, &mut SymAlg(t)).unwrap();
            match result {
                Ok(v) if v == expected => ok(desc, false, "well-formed"),
                r => fail(desc, format!("expected {} but got {:?}", expected, r)),
            }
        }
    }
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "Tokens of a random table in any order, or a random well-formed expression with up to 3 tokens removed, added, repeated, replaced or swapped, written with any spacing, and text in which no token is an operand; a reference reader decides if it is well-formed: then its value has to be the one of the reference, otherwise it has to be an error; also edits of expressions of thousands of tokens. Non-trivial: malformed, at least 2 tokens.",
        subs: with_large(crate::large::c02(), vec![
            sub("edited", 2_000_000, 200, || {
                Box::new(|g| {
                    let t = gen_any_table(g);
                    let mut shape = sym_shape();
                    shape.max_ops = 5;
                    shape.max_depth = 3;
                    soup_case(g, &t, config(&t), &shape)
                })
            }),
            // A small table, so all the short sequences of tokens are reached
            sub("short", 1_500_000, 40, || {
                let t = Table {
                    bins: vec![
                        Bin { name: "-", prec: 1, right: false },
                        Bin { name: "*", prec: 2, right: false },
                    ],
                    prefix: vec!["-"],
                    postfix: vec!["!"],
                    funcs: vec!["f"],
                    vars: vec!["x"],
                    consts: vec![],
                    custom_call: false,
                };
                Box::new(move |g| {
                    const TOKENS: [&str; 12] =
                        ["1", "x", "f", "(", ")", ",", "-", "*", "!", "[", "]", "y"];
                    let n = g.below(10);
                    let tokens: Vec<String> = (0..n).map(|_| g.pick::<&str>(&TOKENS).to_string()).collect();
                    let text = join_any(g, &t, &tokens);
                    let desc = text.clone();
                    let result = match with_sym(&t, config(&t), |ev| sym_eval(ev, &text)) {
                        Err(p) => return fail(desc, format!("panicked: {}", p)),
                        Ok(r) => r,
                    };
                    match (read(&t, &tokens, false), result) {
                        (Read::Malformed, Ok(v)) => {
                            fail(desc, format!("a malformed expression was evaluated to {}", v))
                        }
                        (Read::Valid(c), r) => {
                            let expected = eval_chain(&t, &c, &mut SymAlg(&t)).unwrap();
                            match r {
                                Ok(v) if v == expected => ok(desc, false, "well-formed"),
                                r => fail(desc, format!("expected {} but got {:?}", expected, r)),
                            }
                        }
                        (Read::Malformed, Err(_)) => ok(desc, n > 1, "malformed"),
                        (Read::Unspecified, _) => ok(desc, false, "unspecified"),
                    }
                })
            }),
        ]),
    }
}

//////////////////// C05 ////////////////////

/// An expression with a group around each operation.
struct FullAlg<'b> {
    t: &'b Table,
    groups: Vec<char>,
    next: usize,
}

impl FullAlg<'_> {
    fn group(&mut self, inner: Vec<String>) -> Vec<String> {
        let g = self.groups[self.next % self.groups.len()];
        self.next += 1;
        let mut v = vec![g.to_string()];
        v.extend(inner);
        v.push(close_of(g).to_string());
        v
    }
}

impl Alg for FullAlg<'_> {
    type V = Vec<String>;
    fn num(&mut self, s: &str) -> Result<Self::V, String> {
        Ok(vec![s.to_string()])
    }
    fn var(&mut self, i: usize) -> Result<Self::V, String> {
        Ok(vec![self.t.vars[i].to_string()])
    }
    fn konst(&mut self, i: usize) -> Result<Self::V, String> {
        Ok(vec![self.t.consts[i].to_string()])
    }
    fn prefix(&mut self, i: usize, v: Self::V) -> Result<Self::V, String> {
        let mut x = vec![self.t.prefix[i].to_string()];
        x.extend(v);
        Ok(self.group(x))
    }
    fn postfix(&mut self, i: usize, mut v: Self::V) -> Result<Self::V, String> {
        v.push(self.t.postfix[i].to_string());
        Ok(self.group(v))
    }
    fn bin(&mut self, i: usize, mut l: Self::V, r: Self::V) -> Result<Self::V, String> {
        l.push(self.t.bins[i].name.to_string());
        l.extend(r);
        Ok(self.group(l))
    }
    fn call(&mut self, i: usize, args: Vec<Self::V>) -> Result<Self::V, String> {
        let mut v = vec![self.t.funcs[i].to_string(), "(".to_string()];
        for (n, a) in args.into_iter().enumerate() {
            if n > 0 {
                v.push(",".to_string());
            }
            v.extend(a);
        }
        v.push(")".to_string());
        Ok(v)
    }
}

fn random_case(g: &mut Gen, s: &str) -> String {
    s.chars()
        .map(|c| {
            if g.chance(50) {
                if c.is_ascii_lowercase() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            } else {
                c
            }
        })
        .collect()
}

/// Encloses random operands, with or without their unary operators, in groups.
fn enclose(g: &mut Gen, c: &mut Chain, count: &mut usize) {
    for o in &mut c.items {
        match &mut o.prim {
            Prim::Group(_, c) => enclose(g, c, count),
            Prim::Call(_, _, args) => args.iter_mut().for_each(|c| enclose(g, c, count)),
            _ => {}
        }
        if g.chance(35) {
            *count += 1;
            let open = *g.pick(&['(', '[', '{']);
            if g.chance(50) {
                let inner = o.clone();
                *o = Operand {
                    prefixes: vec![],
                    prim: Prim::Group(open, Box::new(Chain { items: vec![inner], ops: vec![] })),
                    postfix: None,
                };
            } else {
                let inner = Operand { prefixes: vec![], prim: o.prim.clone(), postfix: None };
                o.prim = Prim::Group(open, Box::new(Chain { items: vec![inner], ops: vec![] }));
            }
        }
    }
}

fn compare(desc: String, a: Result<Result<String, String>, String>, b: Result<Result<String, String>, String>, nontrivial: bool, class: &'static str) -> Out {
    match (a, b) {
        (Err(p), _) | (_, Err(p)) => fail(desc, format!("panicked: {}", p)),
        (Ok(Ok(a)), Ok(Ok(b))) if a == b => ok(desc, nontrivial, class),
        (Ok(Err(_)), Ok(Err(_))) => ok(desc, false, "both rejected"),
        (Ok(a), Ok(b)) => fail(desc, format!("the first is {:?}, the second is {:?}", a, b)),
    }
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "A random table and expression, and a rewriting of it that keeps its meaning: other whitespace (also of malformed token sequences), a group around every operation, groups around random operands, another grouping symbol, another case of the names of functions, operators and constants. Both have to give the same symbolic value, also if they have thousands of tokens. Non-trivial: both are evaluated, they are different texts, and have at least 2 operations.",
        subs: with_large(crate::large::c05(), vec![
            sub("whitespace", 1_000_000, 240, || {
                Box::new(|g| {
                    let t = gen_any_table(g);
                    let (tokens, _) = gen_soup(g, &t, &sym_shape());
                    let a = join_spaced(&tokens);
                    let b = if g.chance(50) { join_tight(&t, &tokens) } else { join_random(g, &t, &tokens) };
                    let desc = format!("{:?} and {:?}   {}", a, b, show(&t));
                    let kept = g.chance(40);
                    let (x, y) = with_sym(&t, config(&t), |ev| {
                        (sym_eval(ev, &a), if kept { spaced_eval(ev, &b) } else { sym_eval(ev, &b) })
                    });
                    compare(desc, x, y, a != b && tokens.len() > 4, if kept { "whitespace kept by the splitter" } else { "same" })
                })
            }),
            sub("groups", 1_000_000, 260, || {
                Box::new(|g| {
                    let t = gen_any_table(g);
                    let c = gen_chain(g, &t, &sym_shape(), 0);
                    let mut tokens = Vec::new();
                    write_chain(&t, &c, &mut tokens);
                    let a = join_any(g, &t, &tokens);
                    let mut count = 0;
                    let (tokens, class) = if g.chance(50) {
                        let groups = vec![*g.pick(&['(', '[', '{']), *g.pick(&['(', '[', '{'])];
                        let mut full = FullAlg { t: &t, groups, next: 0 };
                        let v = eval_chain(&t, &c, &mut full).unwrap();
                        count = full.next;
                        (v, "every operation")
                    } else {
                        let mut e = c.clone();
                        enclose(g, &mut e, &mut count);
                        let mut v = Vec::new();
                        write_chain(&t, &e, &mut v);
                        (v, "some operands")
                    };
                    let b = join_any(g, &t, &tokens);
                    let desc = format!("{:?} and {:?}   {}", a, b, show(&t));
                    let (x, y) = with_sym(&t, config(&t), |ev| (sym_eval(ev, &a), sym_eval(ev, &b)));
                    match compare(desc, x, y, count > 0 && weight(&c) >= 2, class) {
                        Ok(d) if d.class == "both rejected" => {
                            fail(d.desc, "a well-formed expression was rejected")
                        }
                        r => r,
                    }
                })
            }),
            sub("names", 600_000, 420, || {
                Box::new(|g| {
                    let t = gen_any_table(g);
                    let c = gen_chain(g, &t, &sym_shape(), 0);
                    let mut tokens = Vec::new();
                    write_chain(&t, &c, &mut tokens);
                    let a = join_any(g, &t, &tokens);
                    let tokens: Vec<String> = tokens
                        .into_iter()
                        .map(|s| {
                            // Variables are case sensitive
                            if t.vars.contains(&s.as_str()) {
                                return s;
                            }
                            let r = random_case(g, &s);
                            if t.vars.contains(&r.as_str()) {
                                s
                            } else {
                                r
                            }
                        })
                        .collect();
                    let b = join_spaced(&tokens);
                    let desc = format!("{:?} and {:?}   {}", a, b, show(&t));
                    let changed = !a.eq(&b) && a.to_lowercase().split_whitespace().collect::<String>() != a.split_whitespace().collect::<String>();
                    let (x, y) = with_sym(&t, config(&t), |ev| (sym_eval(ev, &a), sym_eval(ev, &b)));
                    match compare(desc, x, y, changed && weight(&c) >= 2, "case") {
                        Ok(d) if d.class == "both rejected" => {
                            fail(d.desc, "a well-formed expression was rejected")
                        }
                        r => r,
                    }
                })
            }),
        ]),
    }
}

//////////////////// C06 ////////////////////

/// Evaluates a reverse polish notation with a stack, or tells why it is malformed.
fn run_rpn(rpn: &[Token<Sym>], ctx: &DefaultContext<'static, Sym>) -> Result<String, String> {
    let mut stack: Vec<String> = Vec::new();
    let mut args: Option<usize> = None;
    for token in rpn {
        if let Some(n) = args.take() {
            let Token::Function(f) = token else {
                return Err(format!("an argument count before {:?}", token));
            };
            if stack.len() < n {
                return Err(format!("{} arguments of {} over {} values", n, f, stack.len()));
            }
            let values = stack.split_off(stack.len() - n);
            let name = ctx.get_function(f).ok_or("unknown function")?.name().to_string();
            stack.push(format!("{}{{{}}}", name, values.join(", ")));
            continue;
        }
        match token {
            Token::Number(n) => stack.push(n.0.clone()),
            Token::Variable(v) => stack.push(ctx.get_variable(v).ok_or("unknown variable")?.0.clone()),
            Token::Constant(v) => stack.push(ctx.get_constant(v).ok_or("unknown constant")?.0.clone()),
            Token::UnaryOperator(o) => {
                let f = ctx.get_unary_function(o).ok_or("unknown unary operator")?;
                let v = stack.pop().ok_or("an unary operator without operand")?;
                stack.push(match f.notation() {
                    Notation::Prefix => format!("({} {})", f.name(), v),
                    Notation::Postfix => format!("({} {})", v, f.name()),
                });
            }
            Token::BinaryOperator(o) => {
                let f = ctx.get_binary_function(o).ok_or("unknown binary operator")?;
                let r = stack.pop().ok_or("a binary operator without operands")?;
                let l = stack.pop().ok_or("a binary operator without a second operand")?;
                stack.push(format!("({} {} {})", l, f.name(), r));
            }
            Token::ArgCount(n) => args = Some(*n),
            t => return Err(format!("the token {:?}", t)),
        }
    }
    if args.is_some() || stack.len() != 1 {
        return Err(format!("{} values at the end", stack.len()));
    }
    Ok(stack.pop().unwrap())
}

fn gen_raw_token(g: &mut Gen, t: &Table) -> Token<Sym> {
    match g.below(20) {
        0..=4 => Token::Number(Sym(g.below(10).to_string())),
        5 if !t.vars.is_empty() => Token::Variable(g.pick(&t.vars).to_string()),
        6 if !t.consts.is_empty() => Token::Constant(g.pick(&t.consts).to_string()),
        7 | 8 if !t.funcs.is_empty() => Token::Function(g.pick(&t.funcs).to_string()),
        9 if !t.prefix.is_empty() => Token::UnaryOperator(g.pick(&t.prefix).to_string()),
        10 if !t.postfix.is_empty() => Token::UnaryOperator(g.pick(&t.postfix).to_string()),
        11 | 12 => Token::GroupingOpen(*g.pick(&['(', '(', '[', '{'])),
        13 | 14 => Token::GroupingClose(*g.pick(&[')', ')', ']', '}'])),
        15 => Token::Comma,
        16 if g.chance(40) => match g.below(8) {
            0 => Token::ArgCount(g.below(4)),
            1 => Token::Unknown("foo".to_string()),
            2 => Token::Function("foo".to_string()),
            3 => Token::UnaryOperator("foo".to_string()),
            4 => Token::BinaryOperator("foo".to_string()),
            5 => Token::Variable("foo".to_string()),
            6 => Token::GroupingOpen(*g.pick(&['<', '\u{e9}', ')'])),
            _ => Token::GroupingClose(*g.pick(&['>', '\u{e9}', '('])),
        },
        _ => Token::BinaryOperator(g.pick(&t.bins).name.to_string()),
    }
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "A random table and well-formed expression: its reverse polish notation has to be a valid one, keep all the operands in order, and give the value of the reference with an independent stack machine, and evaluating the text or its tokens has to be the same. Random token sequences, also with tokens no text has: never a panic, and if they are accepted the notation has to be valid and agree with the evaluation. Also of thousands of tokens. Non-trivial: at least 2 operations, or 3 tokens.",
        subs: with_large(crate::large::c06(), vec![
            sub("well-formed", 800_000, 240, || {
                Box::new(|g| {
                    let t = gen_any_table(g);
                    let c = gen_chain(g, &t, &sym_shape(), 0);
                    let expected = eval_chain(&t, &c, &mut SymAlg(&t)).unwrap();
                    let mut written = Vec::new();
                    write_chain(&t, &c, &mut written);
                    let text = join_any(g, &t, &written);
                    let desc = format!("{}   {}", text, show(&t));
                    let r = with_sym(&t, config(&t), |ev| {
                        guard(|| {
                            let tokens = Tokenizer::<Sym>::new()
                                .tokenize(ev.context(), &text)
                                .map_err(|e| format!("not tokenized: {:?}", e))?;
                            let rpn = infix_to_rpn(&tokens, ev.context())
                                .map_err(|e| format!("not converted: {:?}", e))?;
                            Ok::<_, String>((
                                run_rpn(&rpn, ev.context()),
                                ev.eval_tokens(&tokens).map(|s| s.0),
                                ev.eval(&text).map(|s| s.0),
                                tokens,
                                rpn,
                            ))
                        })
                    });
                    let (by_stack, by_tokens, by_text, tokens, rpn) = match r {
                        Err(p) => return fail(desc, format!("panicked: {}", p)),
                        Ok(Err(e)) => return fail(desc, e),
                        Ok(Ok(v)) => v,
                    };
                    let expected = Ok(expected);
                    if by_stack != expected {
                        return fail(desc, format!("expected {:?} but the notation {:?} gives {:?}", expected, rpn, by_stack));
                    }
                    if by_tokens.as_ref().map_err(|e| e.to_string()) != expected.as_ref().map_err(|e| e.clone())
                        || by_text.as_ref().map_err(|e| e.to_string()) != expected.as_ref().map_err(|e| e.clone())
                    {
                        return fail(desc, format!("expected {:?} but the tokens give {:?} and the text {:?}", expected, by_tokens, by_text));
                    }
                    if tokens.len() != written.len() {
                        return fail(desc, format!("{} tokens were read as {:?}", written.len(), tokens));
                    }
                    let operands = |ts: &[Token<Sym>]| -> Vec<Token<Sym>> {
                        ts.iter()
                            .filter(|t| matches!(t, Token::Number(_) | Token::Variable(_) | Token::Constant(_)))
                            .cloned()
                            .collect()
                    };
                    if operands(&tokens) != operands(&rpn) {
                        return fail(desc, format!("the operands of {:?} are not the ones of {:?}", rpn, tokens));
                    }
                    let w = weight(&c);
                    ok(desc, w >= 2, size_class(w))
                })
            }),
            sub("any-tokens", 1_500_000, 120, || {
                Box::new(|g| {
                    let t = gen_any_table(g);
                    let implicit = g.chance(30) && t.bins.iter().any(|b| b.name == "*");
                    let n = g.len(0, 12);
                    let tokens: Vec<Token<Sym>> = (0..n).map(|_| gen_raw_token(g, &t)).collect();
                    let desc = format!("{:?}   implicit multiplication {}   {}", tokens, implicit, show(&t));
                    let r = with_sym(&t, config(&t).with_implicit_mul(implicit), |ev| {
                        guard(|| {
                            let rpn = infix_to_rpn(&tokens, ev.context());
                            let by_stack = rpn.as_ref().ok().map(|r| run_rpn(r, ev.context()));
                            (rpn, by_stack, ev.eval_tokens(&tokens).map(|s| s.0))
                        })
                    });
                    let (rpn, by_stack, value) = match r {
                        Err(p) => return fail(desc, format!("panicked: {}", p)),
                        Ok(v) => v,
                    };
                    match (by_stack, value) {
                        (None, Err(_)) => ok(desc, n > 2, "rejected"),
                        (Some(Ok(a)), Ok(b)) if a == b => ok(desc, n > 2, "accepted"),
                        // An unknown name is only found when it is evaluated
                        (Some(Err(e)), Err(_)) if e.starts_with("unknown") => ok(desc, n > 2, "unknown name"),
                        // A name of a function that is not called
                        (Some(Err(_)), Err(_)) if t.custom_call => ok(desc, n > 2, "rejected"),
                        (None, Ok(v)) if n > 0 => fail(desc, format!("evaluated to {} but not converted: {:?}", v, rpn)),
                        (Some(Err(_)), Err(_)) if n == 0 => ok(desc, false, "empty"),
                        (s, v) => fail(desc, format!("the notation {:?} gives {:?}, but is evaluated to {:?}", rpn, s, v)),
                    }
                })
            }),
        ]),
    }
}

//////////////////// C17 ////////////////////

#[derive(Clone, Debug)]
pub struct Rat(BigInt, BigInt);

impl PartialEq for Rat {
    fn eq(&self, o: &Rat) -> bool {
        &self.0 * &o.1 == &o.0 * &self.1
    }
}

impl Rat {
    fn op(&self, op: &str, o: &Rat) -> Result<Rat, String> {
        let (a, b, c, d) = (&self.0, &self.1, &o.0, &o.1);
        Ok(match op {
            "+" => Rat(a * d + c * b, b * d),
            "-" => Rat(a * d - c * b, b * d),
            "*" => Rat(a * c, b * d),
            "/" if c == &BigInt::from(0) => return Err("division by zero".into()),
            "/" => Rat(a * d, b * c),
            _ => unreachable!(),
        })
    }
}

impl std::str::FromStr for Rat {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        s.parse::<u64>().map(|n| Rat(n.into(), 1.into())).map_err(|_| ())
    }
}

struct RatBin(&'static str, u32);
impl BinaryFunction<Rat> for RatBin {
    fn name(&self) -> &str {
        self.0
    }
    fn precedence(&self) -> Precedence {
        Precedence(self.1)
    }
    fn associativity(&self) -> Associativity {
        Associativity::Left
    }
    fn call(&self, l: Rat, r: Rat) -> prexel::Result<Rat> {
        l.op(self.0, &r).map_err(|e| Error::new(ErrorKind::DivisionByZero, e))
    }
}

struct RatNeg;
impl UnaryFunction<Rat> for RatNeg {
    fn name(&self) -> &str {
        "-"
    }
    fn notation(&self) -> Notation {
        Notation::Prefix
    }
    fn call(&self, v: Rat) -> prexel::Result<Rat> {
        Ok(Rat(-v.0, v.1))
    }
}

/// A postfix operator that is not a multiplication.
struct RatInc;
impl UnaryFunction<Rat> for RatInc {
    fn name(&self) -> &str {
        "!"
    }
    fn notation(&self) -> Notation {
        Notation::Postfix
    }
    fn call(&self, v: Rat) -> prexel::Result<Rat> {
        v.op("+", &Rat(1.into(), 1.into())).map_err(|e| Error::new(ErrorKind::Unknown, e))
    }
}

struct RatSum(&'static str);
impl Function<Rat> for RatSum {
    fn name(&self) -> &str {
        self.0
    }
    fn call(&self, args: &[Rat]) -> prexel::Result<Rat> {
        let mut v = Rat(args.len().into(), 1.into());
        for a in args {
            v = v.op("+", a).unwrap();
        }
        Ok(v)
    }
}

const VARS: [(&str, i64, i64); 3] = [("x", 7, 3), ("y", -5, 1), ("Val_2", 11, 13)];
const CONSTS: [(&str, i64, i64); 2] = [("PI", 22, 7), ("k", 3, 1)];

fn rat(v: (&str, i64, i64)) -> Rat {
    Rat(v.1.into(), v.2.into())
}

struct RatAlg<'b>(&'b Table);
impl Alg for RatAlg<'_> {
    type V = Rat;
    fn num(&mut self, s: &str) -> Result<Rat, String> {
        s.parse().map_err(|_| "not a number".to_string())
    }
    fn var(&mut self, i: usize) -> Result<Rat, String> {
        Ok(rat(VARS[i]))
    }
    fn konst(&mut self, i: usize) -> Result<Rat, String> {
        Ok(rat(CONSTS[i]))
    }
    fn prefix(&mut self, _: usize, v: Rat) -> Result<Rat, String> {
        Ok(Rat(-v.0, v.1))
    }
    fn postfix(&mut self, _: usize, v: Rat) -> Result<Rat, String> {
        v.op("+", &Rat(1.into(), 1.into()))
    }
    fn bin(&mut self, i: usize, l: Rat, r: Rat) -> Result<Rat, String> {
        l.op(self.0.bins[i].name, &r)
    }
    fn call(&mut self, _: usize, args: Vec<Rat>) -> Result<Rat, String> {
        let mut v = Rat(args.len().into(), 1.into());
        for a in args {
            v = v.op("+", &a)?;
        }
        Ok(v)
    }
}

fn rat_table() -> Table {
    let bin = |name, prec| Bin { name, prec, right: false };
    Table {
        bins: vec![bin("*", 2), bin("+", 1), bin("-", 1), bin("/", 2)],
        prefix: vec!["-"],
        postfix: vec!["!"],
        funcs: vec!["f", "Sum2"],
        vars: VARS.iter().map(|v| v.0).collect(),
        consts: CONSTS.iter().map(|v| v.0).collect(),
        custom_call: false,
    }
}

fn rat_evaluator(t: &Table, implicit: bool) -> &'static Evaluator<'static, Rat> {
    let mut c: DefaultContext<'static, Rat> =
        DefaultContext::with_config(config(t).with_implicit_mul(implicit));
    for b in &t.bins {
        c.add_binary_function(RatBin(b.name, b.prec)).unwrap();
    }
    c.add_unary_function(RatNeg).unwrap();
    c.add_unary_function(RatInc).unwrap();
    for f in &t.funcs {
        c.add_function(RatSum(f)).unwrap();
    }
    for v in VARS {
        c.set_variable(v.0, rat(v)).unwrap();
    }
    for v in CONSTS {
        c.add_constant(v.0, rat(v)).unwrap();
    }
    Box::leak(Box::new(Evaluator::with_context(c)))
}

fn int_num(g: &mut Gen) -> String {
    (g.below(9) + 1).to_string()
}

pub fn c17() -> Property {
    fn shape() -> Shape {
        Shape {
            max_ops: 5,
            max_depth: 3,
            max_args: 3,
            num: int_num,
            arity: |_| (0, 3),
            groups: &['(', '(', '[', '{'],
            juxt: true,
        }
    }
    Property {
        id: "C17",
        rule: "Random expressions with factors side by side (after a number: a name, call or group; after a group or call: also a number), with + - * / and unary operators around, over exact rationals: the value has to be the one of the product as a single operand; random edits of them are compared to a reference reader, and with implicit multiplication disabled they have to be rejected; and products of thousands of factors, over a field. Non-trivial: an implicit multiplication and at least another operation.",
        subs: with_large(crate::large::c17(), vec![
            sub("products", 1_200_000, 100, || {
                let t = rat_table();
                let ev = rat_evaluator(&t, true);
                let off = rat_evaluator(&t, false);
                Box::new(move |g| {
                    let c = gen_chain(g, &t, &shape(), 0);
                    let mut tokens = Vec::new();
                    write_chain(&t, &c, &mut tokens);
                    let text = join_any(g, &t, &tokens);
                    let expected = eval_chain(&t, &c, &mut RatAlg(&t));
                    let juxt = has_juxt(&c);
                    let (r, r_off) = match guard(|| (ev.eval(&text), off.eval(&text))) {
                        Err(p) => return fail(text, format!("panicked: {}", p)),
                        Ok(v) => v,
                    };
                    if juxt && r_off.is_ok() {
                        return fail(text, format!("without implicit multiplication it was evaluated to {:?}", r_off));
                    }
                    match (expected, r) {
                        (Ok(a), Ok(b)) if a == b => ok(text, juxt && weight(&c) >= 2, if juxt { "implicit" } else { "explicit" }),
                        (Err(_), Err(_)) => ok(text, false, "division by zero"),
                        (a, b) => fail(text, format!("expected {:?} but got {:?}", a, b)),
                    }
                })
            }),
            sub("edited", 1_200_000, 100, || {
                let t = rat_table();
                let ev = rat_evaluator(&t, true);
                Box::new(move |g| {
                    let (tokens, _) = gen_soup(g, &t, &shape());
                    let text = join_any(g, &t, &tokens);
                    let r = match guard(|| ev.eval(&text)) {
                        Err(p) => return fail(text, format!("panicked: {}", p)),
                        Ok(v) => v,
                    };
                    // A number of a rational is an integer
                    if tokens.iter().any(|s| s.contains('.')) {
                        return ok(text, false, "not an integer");
                    }
                    match (read(&t, &tokens, true), r) {
                        (Read::Unspecified, _) => ok(text, false, "unspecified"),
                        (Read::Malformed, Err(_)) => ok(text, tokens.len() > 2, "malformed"),
                        (Read::Malformed, Ok(v)) => fail(text, format!("malformed, but evaluated to {:?}", v)),
                        (Read::Valid(c), r) => match (eval_chain(&t, &c, &mut RatAlg(&t)), r) {
                            (Ok(a), Ok(b)) if a == b => ok(text, has_juxt(&c), "well-formed"),
                            (Err(_), Err(_)) => ok(text, false, "division by zero"),
                            (a, b) => fail(text, format!("expected {:?} but got {:?}", a, b)),
                        },
                    }
                })
            }),
        ]),
    }
}
