//! Large expressions and calls: the same properties where something is repeated or nested often.
use crate::engine::*;
use crate::grammar::*;
use crate::integers::evaluate;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::evaluator::{infix_to_rpn, Evaluator};
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;

//////////////////// Values ////////////////////

/// A hash of the expression a value was evaluated from, so that comparing results compares how
/// the expressions were read, at any size.
#[derive(Clone, Copy, Debug, PartialEq)]
struct H(u64);

fn mix(kind: u64, name: &str, values: &[H]) -> H {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ kind;
    let mut add = |v: u64| {
        h = (h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
        h ^= h >> 32;
    };
    for b in name.bytes() {
        add(b as u64);
    }
    add(values.len() as u64);
    for v in values {
        add(v.0);
    }
    H(h)
}

const NUM: u64 = 1;
const VAR: u64 = 2;
const CONST: u64 = 3;
const PREFIX: u64 = 4;
const POSTFIX: u64 = 5;
const BIN: u64 = 6;
const CALL: u64 = 7;

impl std::str::FromStr for H {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Sym::from_str(s).map(|s| mix(NUM, &s.0, &[]))
    }
}

struct HBin(Bin);
impl BinaryFunction<H> for HBin {
    fn name(&self) -> &str {
        self.0.name
    }
    fn precedence(&self) -> Precedence {
        Precedence(self.0.prec)
    }
    fn associativity(&self) -> Associativity {
        if self.0.right {
            Associativity::Right
        } else {
            Associativity::Left
        }
    }
    fn call(&self, l: H, r: H) -> prexel::Result<H> {
        Ok(mix(BIN, self.0.name, &[l, r]))
    }
}

struct HUn(&'static str, Notation);
impl UnaryFunction<H> for HUn {
    fn name(&self) -> &str {
        self.0
    }
    fn notation(&self) -> Notation {
        self.1
    }
    fn call(&self, v: H) -> prexel::Result<H> {
        Ok(mix(if self.1 == Notation::Prefix { PREFIX } else { POSTFIX }, self.0, &[v]))
    }
}

struct HFn(&'static str);
impl Function<H> for HFn {
    fn name(&self) -> &str {
        self.0
    }
    fn call(&self, args: &[H]) -> prexel::Result<H> {
        Ok(mix(CALL, self.0, args))
    }
}

struct HAlg<'b>(&'b Table);
impl Alg for HAlg<'_> {
    type V = H;
    fn num(&mut self, s: &str) -> Result<H, String> {
        Ok(mix(NUM, s, &[]))
    }
    fn var(&mut self, i: usize) -> Result<H, String> {
        Ok(mix(VAR, self.0.vars[i], &[]))
    }
    fn konst(&mut self, i: usize) -> Result<H, String> {
        Ok(mix(CONST, self.0.consts[i], &[]))
    }
    fn prefix(&mut self, i: usize, v: H) -> Result<H, String> {
        Ok(mix(PREFIX, self.0.prefix[i], &[v]))
    }
    fn postfix(&mut self, i: usize, v: H) -> Result<H, String> {
        Ok(mix(POSTFIX, self.0.postfix[i], &[v]))
    }
    fn bin(&mut self, i: usize, l: H, r: H) -> Result<H, String> {
        Ok(mix(BIN, self.0.bins[i].name, &[l, r]))
    }
    fn call(&mut self, i: usize, args: Vec<H>) -> Result<H, String> {
        Ok(mix(CALL, self.0.funcs[i], &args))
    }
}

fn context(t: &Table, config: Config) -> DefaultContext<'static, H> {
    let mut c: DefaultContext<'static, H> = DefaultContext::with_config(config);
    for b in &t.bins {
        c.add_binary_function(HBin(b.clone())).expect("a binary operator of the table");
    }
    for n in &t.prefix {
        c.add_unary_function(HUn(n, Notation::Prefix)).expect("a prefix operator of the table");
    }
    for n in &t.postfix {
        c.add_unary_function(HUn(n, Notation::Postfix)).expect("a postfix operator of the table");
    }
    for n in &t.funcs {
        c.add_function(HFn(n)).expect("a function of the table");
    }
    for n in &t.vars {
        c.set_variable(n, mix(VAR, n, &[])).expect("a variable of the table");
    }
    for n in &t.consts {
        c.add_constant(n, mix(CONST, n, &[])).expect("a constant of the table");
    }
    c
}

fn config(t: &Table) -> Config {
    Config::new()
        .with_grouping(Grouping::Bracket)
        .with_grouping(Grouping::Brace)
        .with_custom_function_call(t.custom_call)
}

fn with<T>(t: &Table, config: Config, f: impl FnOnce(&'static Evaluator<'static, H>) -> T) -> T {
    let ev: *mut Evaluator<'static, H> = Box::into_raw(Box::new(Evaluator::with_context(context(t, config))));
    // No result borrows from the evaluator
    let r = f(unsafe { &*ev });
    drop(unsafe { Box::from_raw(ev) });
    r
}

fn eval(ev: &'static Evaluator<'static, H>, text: &str) -> Result<Result<H, String>, String> {
    guard(|| ev.eval(text).map_err(|e| format!("{:?}", e)))
}

//////////////////// Expressions ////////////////////

/// A count of repetitions: often next to a power of two, or a round number.
pub fn count(g: &mut Gen) -> usize {
    match g.below(40) {
        0..=7 => 2 + g.below(40),
        8..=11 => 60 + g.below(10),
        12..=15 => 95 + g.below(10),
        16..=21 => 122 + g.below(10),
        22..=31 => 250 + g.below(12),
        32..=33 => 500 + g.below(30),
        34..=35 => 995 + g.below(40),
        36 => 2040 + g.below(12),
        _ => 20 + g.below(1200),
    }
}

/// A count that 16 bits do not hold, or of the next round limits.
pub fn huge(g: &mut Gen) -> usize {
    match g.below(4) {
        0 => 4090 + g.below(12),
        1 => 9990 + g.below(20),
        2 => 32_760 + g.below(15),
        _ => 65_530 + g.below(15),
    }
}

fn shape(juxt: bool) -> Shape {
    Shape {
        max_ops: 2,
        max_depth: 2,
        max_args: 3,
        num: if juxt { |g| (1 + g.below(99)).to_string() } else { small_num },
        arity: |_| (0, 3),
        groups: &['(', '(', '[', '{'],
        juxt: false,
    }
}

fn plain(prim: Prim) -> Operand {
    Operand { prefixes: vec![], prim, postfix: None }
}

fn single(prim: Prim) -> Chain {
    Chain { items: vec![plain(prim)], ops: vec![] }
}

/// Something repeated `n` times. The numbers in the repeated parts are different each time.
fn amplify(g: &mut Gen, t: &Table, n: usize, juxt: bool) -> (Chain, &'static str) {
    let parts: Vec<Chain> = (0..1 + g.below(3)).map(|_| gen_chain(g, t, &shape(juxt), 1)).collect();
    let ops: Vec<usize> = (0..1 + g.below(4)).map(|_| g.below(t.bins.len())).collect();
    let numbered = g.chance(50);
    let number = |i: usize| Prim::Num((1 + i).to_string());
    // An operand of the repetition
    let part = |i: usize| -> Operand {
        let c = &parts[i % parts.len()];
        if numbered {
            plain(number(i))
        } else if c.ops.is_empty() {
            c.items[0].clone()
        } else {
            plain(Prim::Group('(', Box::new(c.clone())))
        }
    };
    let kind = g.below(if juxt { 12 } else { 6 });
    match kind {
        1 => {
            // Nested groups, with operands on any side
            let before = g.below(3);
            let after = g.below(3);
            let open = *g.pick(&['(', '[', '{']);
            let mut c = parts[0].clone();
            for i in 0..n {
                let mut items = vec![plain(Prim::Group(open, Box::new(c)))];
                let mut with = vec![];
                if before == 2 || (before == 1 && i % 2 == 0) {
                    items.insert(0, part(i));
                    with.push(ops[i % ops.len()]);
                }
                if after == 2 || (after == 1 && i % 2 == 0) {
                    items.push(part(i + 1));
                    with.push(ops[(i + 1) % ops.len()]);
                }
                c = Chain { items, ops: with };
            }
            (c, "nested groups")
        }
        2 if !t.funcs.is_empty() => {
            // Nested calls
            let f = g.below(t.funcs.len());
            let at = g.below(3);
            let many = g.below(3);
            let mut c = parts[0].clone();
            for i in 0..n {
                let mut args: Vec<Chain> = (0..many).map(|k| Chain { items: vec![part(i + k)], ops: vec![] }).collect();
                args.insert(at.min(args.len()), c);
                c = single(Prim::Call(f, '(', args));
            }
            (c, "nested calls")
        }
        3 if !t.funcs.is_empty() => {
            let f = g.below(t.funcs.len());
            let args = (0..n).map(|i| Chain { items: vec![part(i)], ops: vec![] }).collect();
            (single(Prim::Call(f, '(', args)), "arguments")
        }
        4 if !t.prefix.is_empty() => {
            let cycle: Vec<usize> = (0..1 + g.below(3)).map(|_| g.below(t.prefix.len())).collect();
            let mut o = plain(number(1));
            o.prefixes = (0..n).map(|i| cycle[i % cycle.len()]).collect();
            (Chain { items: vec![o], ops: vec![] }, "prefixes")
        }
        6..=11 => {
            // Factors side by side
            let factors = (0..n)
                .map(|i| match (i, kind) {
                    (0, _) => number(i),
                    (_, 7..=9) if i % 2 == 0 && !t.vars.is_empty() => Prim::Group('(', Box::new(single(Prim::Var(0)))),
                    _ => Prim::Group('(', Box::new(single(number(i)))),
                })
                .collect();
            (single(Prim::Juxt(factors)), "factors")
        }
        _ => {
            let items = (0..=n).map(part).collect();
            let ops = (0..n).map(|i| ops[i % ops.len()]).collect();
            (Chain { items, ops }, "operators")
        }
    }
}

/// A large expression, and in what it is large.
pub fn large_chain(g: &mut Gen, t: &Table, juxt: bool) -> (Chain, &'static str) {
    let n = count(g);
    let (mut c, class) = amplify(g, t, n, juxt);
    // Within a small one
    if g.chance(50) {
        let mut around = gen_chain(g, t, &shape(juxt), 1);
        let i = g.below(around.items.len());
        around.items[i] = plain(Prim::Group('(', Box::new(c)));
        c = around;
    }
    (c, class)
}

pub fn large_table(g: &mut Gen) -> Table {
    let mut t = gen_table(g);
    t.custom_call = g.chance(30);
    t
}

/// An expression of which not all can be shown.
pub fn shorten(text: &str, tokens: usize) -> String {
    if text.chars().count() < 160 {
        return text.to_string();
    }
    let head: String = text.chars().take(110).collect();
    let mut tail: Vec<char> = text.chars().rev().take(40).collect();
    tail.reverse();
    format!("{} ... {} ({} tokens)", head, tail.into_iter().collect::<String>(), tokens)
}

fn join(g: &mut Gen, t: &Table, tokens: &[String]) -> String {
    // Where spaces are needed is slow to find among many operators
    let mut run = 0;
    let mut longest = 0;
    for s in tokens {
        run = if s.chars().all(is_operator_char) { run + 1 } else { 0 };
        longest = longest.max(run);
    }
    if tokens.len() > 5000 || longest > 40 {
        join_spaced(tokens)
    } else {
        join_any(g, t, tokens)
    }
}

fn well_formed(g: &mut Gen) -> Out {
    let t = large_table(g);
    let (c, class) = large_chain(g, &t, false);
    well_formed_case(g, &t, &c, class)
}

fn well_formed_case(g: &mut Gen, t: &Table, c: &Chain, class: &'static str) -> Out {
    let expected = eval_chain(t, c, &mut HAlg(t)).unwrap();
    let mut tokens = Vec::new();
    write_chain(t, c, &mut tokens);
    let text = join(g, t, &tokens);
    let desc = shorten(&text, tokens.len());
    match with(t, config(t), |ev| eval(ev, &text)) {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => fail(desc, format!("a well-formed expression was rejected: {}", e)),
        Ok(Ok(v)) if v != expected => fail(desc, "read as another expression"),
        _ => ok(desc, tokens.len() > 20, class),
    }
}

/// More than 16 bits count: left operators, arguments, prefixes.
fn huge_case(g: &mut Gen) -> Out {
    let mut t = large_table(g);
    for b in &mut t.bins {
        // The reference is recursive
        b.right = false;
    }
    let n = huge(g);
    let (c, class) = loop {
        let (c, class) = amplify(g, &t, n, false);
        if !class.starts_with("nested") {
            break (c, class);
        }
        if g.exhausted() {
            return discard();
        }
    };
    well_formed_case(g, &t, &c, class)
}

pub fn c01() -> Vec<Sub> {
    let mut few = sub("huge", 150, 200, || Box::new(huge_case));
    few.threads = 8;
    vec![sub("large", 40_000, 220, || Box::new(well_formed)), few]
}

//////////////////// C02 ////////////////////

fn edited(g: &mut Gen) -> Out {
    let t = large_table(g);
    let (c, class) = large_chain(g, &t, false);
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    let at = |g: &mut Gen, n: usize| match g.below(4) {
        0 => n - 1 - g.below(n.min(4)),
        1 => g.below(n.min(4)),
        _ => g.below(n),
    };
    for _ in 0..1 + g.below(2) {
        let n = tokens.len();
        let i = at(g, n);
        match g.below(7) {
            0 if n > 1 => {
                tokens.remove(i);
            }
            1 => tokens.insert(i, tokens[i].clone()),
            2 if i + 1 < n => tokens.swap(i, i + 1),
            3 => {
                let j = at(g, n);
                tokens.swap(i, j);
            }
            4 => tokens[i] = ["(", ")", "]", "}", ",", "1", "foo"][g.below(7)].to_string(),
            5 => tokens.insert(i, ["(", ")", "[", "]", ",", "1", "foo"][g.below(7)].to_string()),
            _ => tokens.truncate(i + 1),
        }
    }
    let text = join(g, &t, &tokens);
    let desc = shorten(&text, tokens.len());
    let result = match with(&t, config(&t), |ev| eval(ev, &text)) {
        Err(p) => return fail(desc, format!("panicked: {}", p)),
        Ok(r) => r,
    };
    match (read(&t, &tokens, false), result) {
        (Read::Unspecified, _) => ok(desc, false, "unspecified"),
        (Read::Malformed, Ok(_)) => fail(desc, "a malformed expression was evaluated"),
        (Read::Malformed, Err(_)) => ok(desc, tokens.len() > 20, class),
        (Read::Valid(c), r) => {
            if r == Ok(eval_chain(&t, &c, &mut HAlg(&t)).unwrap()) {
                ok(desc, false, "well-formed")
            } else {
                fail(desc, format!("a well-formed expression gives {:?}", r))
            }
        }
    }
}

pub fn c02() -> Vec<Sub> {
    vec![sub("large", 40_000, 220, || Box::new(edited))]
}

//////////////////// C05 ////////////////////

fn rewritten(g: &mut Gen) -> Out {
    let t = large_table(g);
    let (c, class) = large_chain(g, &t, false);
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    let a = join_spaced(&tokens);
    let how = g.below(4);
    let spaces = [" ", "  ", "\t", "\n", "\r\n", "\u{a0}"];
    let b = match how {
        0 => {
            // A long gap
            let i = g.below(tokens.len());
            let gap = spaces[g.below(6)].repeat(count(g));
            format!("{} {} {}", tokens[..i].join(" "), gap, tokens[i..].join(" "))
        }
        1 => tokens.join(spaces[g.below(6)]),
        2 => {
            // Groups around all of it
            let n = count(g);
            let open = *g.pick(&['(', '[', '{']);
            format!("{}{}{}", open.to_string().repeat(n), a, close_of(open).to_string().repeat(n))
        }
        _ => {
            let upper: Vec<String> = tokens
                .iter()
                .map(|s| {
                    let u = s.to_ascii_uppercase();
                    if t.vars.contains(&s.as_str()) || t.vars.contains(&u.as_str()) { s.clone() } else { u }
                })
                .collect();
            upper.join(" ")
        }
    };
    let desc = format!("{} and {:?}", shorten(&a, tokens.len()), shorten(&b, tokens.len()));
    match with(&t, config(&t), |ev| (eval(ev, &a), eval(ev, &b))) {
        (Err(p), _) | (_, Err(p)) => fail(desc, format!("panicked: {}", p)),
        (Ok(Ok(x)), Ok(Ok(y))) if x == y => ok(desc, a != b && tokens.len() > 20, class),
        (Ok(x), Ok(y)) => fail(desc, format!("the first is {:?}, the second is {:?}", x, y)),
    }
}

pub fn c05() -> Vec<Sub> {
    vec![sub("large", 30_000, 220, || Box::new(rewritten))]
}

//////////////////// C06 ////////////////////

fn run_rpn(rpn: &[Token<H>], ctx: &DefaultContext<'static, H>) -> Result<H, String> {
    let mut stack: Vec<H> = Vec::new();
    let mut args: Option<usize> = None;
    for token in rpn {
        if let Some(n) = args.take() {
            let Token::Function(f) = token else {
                return Err(format!("an argument count before {:?}", token));
            };
            if stack.len() < n {
                return Err(format!("{} arguments of {} over {} values", n, f, stack.len()));
            }
            let values = stack.split_off(stack.len() - n);
            stack.push(mix(CALL, ctx.get_function(f).ok_or("unknown function")?.name(), &values));
            continue;
        }
        match token {
            Token::Number(n) => stack.push(*n),
            Token::Variable(v) => stack.push(*ctx.get_variable(v).ok_or("unknown variable")?),
            Token::Constant(v) => stack.push(*ctx.get_constant(v).ok_or("unknown constant")?),
            Token::UnaryOperator(o) => {
                let f = ctx.get_unary_function(o).ok_or("unknown unary operator")?;
                let v = stack.pop().ok_or("an unary operator without operand")?;
                stack.push(mix(if f.notation() == Notation::Prefix { PREFIX } else { POSTFIX }, f.name(), &[v]));
            }
            Token::BinaryOperator(o) => {
                let f = ctx.get_binary_function(o).ok_or("unknown binary operator")?;
                let r = stack.pop().ok_or("a binary operator without operands")?;
                let l = stack.pop().ok_or("a binary operator without a second operand")?;
                stack.push(mix(BIN, f.name(), &[l, r]));
            }
            Token::ArgCount(n) => args = Some(*n),
            t => return Err(format!("the token {:?}", t)),
        }
    }
    if args.is_some() || stack.len() != 1 {
        return Err(format!("{} values at the end", stack.len()));
    }
    Ok(stack[0])
}

fn notation(g: &mut Gen) -> Out {
    let t = large_table(g);
    let (c, class) = large_chain(g, &t, false);
    let expected = eval_chain(&t, &c, &mut HAlg(&t)).unwrap();
    let mut written = Vec::new();
    write_chain(&t, &c, &mut written);
    let text = join_spaced(&written);
    let desc = shorten(&text, written.len());
    let r = with(&t, config(&t), |ev| {
        guard(|| {
            let tokens = Tokenizer::<H>::new()
                .tokenize(ev.context(), &text)
                .map_err(|e| format!("not tokenized: {:?}", e))?;
            let rpn = infix_to_rpn(&tokens, ev.context()).map_err(|e| format!("not converted: {:?}", e))?;
            let by_stack = run_rpn(&rpn, ev.context())?;
            let by_tokens = ev.eval_tokens(&tokens).map_err(|e| format!("the tokens: {:?}", e))?;
            let numbers = |ts: &[Token<H>]| -> Vec<u64> {
                ts.iter().filter_map(|t| if let Token::Number(n) = t { Some(n.0) } else { None }).collect()
            };
            Ok::<_, String>((by_stack, by_tokens, tokens.len(), numbers(&tokens) == numbers(&rpn)))
        })
    });
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => fail(desc, e),
        Ok(Ok((s, ..))) if s != expected => fail(desc, "the notation has another value"),
        Ok(Ok((_, v, ..))) if v != expected => fail(desc, "the tokens have another value"),
        Ok(Ok((_, _, n, _))) if n != written.len() => fail(desc, format!("it is read as {} tokens", n)),
        Ok(Ok((_, _, _, false))) => fail(desc, "the operands are not in their order"),
        Ok(Ok((_, _, n, true))) => ok(desc, n > 20, class),
    }
}

pub fn c06() -> Vec<Sub> {
    vec![sub("large", 30_000, 220, || Box::new(notation))]
}

//////////////////// C17 ////////////////////

/// A number modulo a prime: the rules of arithmetic hold, at any size.
#[derive(Clone, Copy, Debug, PartialEq)]
struct F(u64);
const P: u64 = (1 << 61) - 1;

impl F {
    fn of(n: i64) -> F {
        F(n.rem_euclid(P as i64) as u64)
    }
    fn mul(self, o: F) -> F {
        F((self.0 as u128 * o.0 as u128 % P as u128) as u64)
    }
    fn inverse(self) -> F {
        let (mut base, mut e, mut r) = (self, P - 2, F(1));
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(base);
            }
            base = base.mul(base);
            e >>= 1;
        }
        r
    }
    fn op(self, op: &str, o: F) -> Result<F, String> {
        Ok(match op {
            "+" => F((self.0 + o.0) % P),
            "-" => F((self.0 + P - o.0) % P),
            "*" => self.mul(o),
            _ if o.0 == 0 => return Err("division by zero".to_string()),
            _ => self.mul(o.inverse()),
        })
    }
    fn sum(args: &[F]) -> F {
        F(args.iter().fold(args.len() as u64, |a, b| (a + b.0) % P))
    }
}

impl std::str::FromStr for F {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        s.parse::<u32>().map(|n| F(n.into())).map_err(|_| ())
    }
}

struct FBin(Bin);
impl BinaryFunction<F> for FBin {
    fn name(&self) -> &str {
        self.0.name
    }
    fn precedence(&self) -> Precedence {
        Precedence(self.0.prec)
    }
    fn associativity(&self) -> Associativity {
        Associativity::Left
    }
    fn call(&self, l: F, r: F) -> prexel::Result<F> {
        l.op(self.0.name, r).map_err(|e| prexel::error::Error::new(prexel::error::ErrorKind::DivisionByZero, e))
    }
}

struct FUn(Notation);
impl UnaryFunction<F> for FUn {
    fn name(&self) -> &str {
        if self.0 == Notation::Prefix { "-" } else { "!" }
    }
    fn notation(&self) -> Notation {
        self.0
    }
    fn call(&self, v: F) -> prexel::Result<F> {
        Ok(if self.0 == Notation::Prefix { F((P - v.0) % P) } else { F((v.0 + 1) % P) })
    }
}

struct FSum(&'static str);
impl Function<F> for FSum {
    fn name(&self) -> &str {
        self.0
    }
    fn call(&self, args: &[F]) -> prexel::Result<F> {
        Ok(F::sum(args))
    }
}

struct FAlg<'b>(&'b Table);
impl Alg for FAlg<'_> {
    type V = F;
    fn num(&mut self, s: &str) -> Result<F, String> {
        s.parse().map_err(|_| "not a number".to_string())
    }
    fn var(&mut self, i: usize) -> Result<F, String> {
        Ok(F(1_000_003 + i as u64))
    }
    fn konst(&mut self, i: usize) -> Result<F, String> {
        Ok(F(2_000_003 + i as u64))
    }
    fn prefix(&mut self, _: usize, v: F) -> Result<F, String> {
        F::of(0).op("-", v)
    }
    fn postfix(&mut self, _: usize, v: F) -> Result<F, String> {
        v.op("+", F(1))
    }
    fn bin(&mut self, i: usize, l: F, r: F) -> Result<F, String> {
        l.op(self.0.bins[i].name, r)
    }
    fn call(&mut self, _: usize, args: Vec<F>) -> Result<F, String> {
        Ok(F::sum(&args))
    }
}

fn products(g: &mut Gen) -> Out {
    let bin = |name, prec| Bin { name, prec, right: false };
    let t = Table {
        bins: vec![bin("*", 2), bin("+", 1), bin("-", 1), bin("/", 2)],
        prefix: vec!["-"],
        postfix: vec!["!"],
        funcs: vec!["f", "Sum2"],
        vars: vec!["x", "y"],
        consts: vec!["PI"],
        custom_call: g.chance(30),
    };
    let (c, class) = large_chain(g, &t, true);
    let expected = eval_chain(&t, &c, &mut FAlg(&t));
    let mut tokens = Vec::new();
    write_chain(&t, &c, &mut tokens);
    let text = join(g, &t, &tokens);
    let desc = shorten(&text, tokens.len());
    let mut ctx: DefaultContext<'static, F> = DefaultContext::with_config(config(&t).with_implicit_mul(true));
    for b in &t.bins {
        ctx.add_binary_function(FBin(b.clone())).unwrap();
    }
    for n in [Notation::Prefix, Notation::Postfix] {
        ctx.add_unary_function(FUn(n)).unwrap();
    }
    for f in &t.funcs {
        ctx.add_function(FSum(f)).unwrap();
    }
    for (i, n) in t.vars.iter().enumerate() {
        ctx.set_variable(n, F(1_000_003 + i as u64)).unwrap();
    }
    for (i, n) in t.consts.iter().enumerate() {
        ctx.add_constant(n, F(2_000_003 + i as u64)).unwrap();
    }
    match (evaluate(ctx, &text), expected) {
        (Err(p), _) => fail(desc, format!("panicked: {}", p)),
        (Ok(Ok(v)), Ok(x)) if v == x => ok(desc, has_juxt(&c) && tokens.len() > 20, class),
        (Ok(Err(_)), Err(_)) => ok(desc, false, "division by zero"),
        (Ok(v), x) => fail(desc, format!("expected {:?} but got {:?}", x, v)),
    }
}

pub fn c17() -> Vec<Sub> {
    vec![sub("large", 30_000, 220, || Box::new(products))]
}
