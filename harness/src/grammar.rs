//! The reference syntax: expressions as chains of operands and operators, how they are written,
//! and how they are read by precedence climbing, independently of the implementation.
use crate::engine::Gen;
use prexel::context::{Config, Context, DefaultContext};
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};

#[derive(Clone, Debug)]
pub struct Bin {
    pub name: &'static str,
    pub prec: u32,
    pub right: bool,
}

/// The names of a context.
#[derive(Clone, Debug, Default)]
pub struct Table {
    pub bins: Vec<Bin>,
    pub prefix: Vec<&'static str>,
    pub postfix: Vec<&'static str>,
    pub funcs: Vec<&'static str>,
    pub vars: Vec<&'static str>,
    pub consts: Vec<&'static str>,
    /// Functions can be called with any grouping symbol.
    pub custom_call: bool,
}

#[derive(Clone, Debug)]
pub struct Chain {
    pub items: Vec<Operand>,
    pub ops: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Operand {
    pub prefixes: Vec<usize>,
    pub prim: Prim,
    pub postfix: Option<usize>,
}

#[derive(Clone, Debug)]
pub enum Prim {
    Num(String),
    Var(usize),
    Const(usize),
    Group(char, Box<Chain>),
    Call(usize, char, Vec<Chain>),
    /// Factors side by side, an implicit multiplication.
    Juxt(Vec<Prim>),
}

/// The values an expression can be read as.
pub trait Alg {
    type V;
    fn num(&mut self, s: &str) -> Result<Self::V, String>;
    fn var(&mut self, i: usize) -> Result<Self::V, String>;
    fn konst(&mut self, i: usize) -> Result<Self::V, String>;
    fn prefix(&mut self, i: usize, v: Self::V) -> Result<Self::V, String>;
    fn postfix(&mut self, i: usize, v: Self::V) -> Result<Self::V, String>;
    fn bin(&mut self, i: usize, l: Self::V, r: Self::V) -> Result<Self::V, String>;
    fn call(&mut self, i: usize, args: Vec<Self::V>) -> Result<Self::V, String>;
}

pub fn eval_chain<A: Alg>(t: &Table, c: &Chain, a: &mut A) -> Result<A::V, String> {
    let mut pos = 0;
    climb(t, c, a, &mut pos, 0)
}

fn climb<A: Alg>(t: &Table, c: &Chain, a: &mut A, pos: &mut usize, min: u64) -> Result<A::V, String> {
    let mut left = eval_operand(t, &c.items[*pos], a)?;
    while *pos < c.ops.len() {
        let op = c.ops[*pos];
        let b = &t.bins[op];
        if (b.prec as u64) < min {
            break;
        }
        *pos += 1;
        let next = if b.right { b.prec as u64 } else { b.prec as u64 + 1 };
        let right = climb(t, c, a, pos, next)?;
        left = a.bin(op, left, right)?;
    }
    Ok(left)
}

fn eval_operand<A: Alg>(t: &Table, o: &Operand, a: &mut A) -> Result<A::V, String> {
    let mut v = match &o.prim {
        Prim::Juxt(factors) => {
            let times = t.bins.iter().position(|b| b.name == "*").unwrap();
            let mut product = eval_prim(t, &factors[0], a)?;
            for (i, f) in factors.iter().enumerate().skip(1) {
                let mut v = eval_prim(t, f, a)?;
                if i + 1 == factors.len() {
                    if let Some(p) = o.postfix {
                        v = a.postfix(p, v)?;
                    }
                }
                product = a.bin(times, product, v)?;
            }
            product
        }
        prim => {
            let v = eval_prim(t, prim, a)?;
            match o.postfix {
                Some(p) => a.postfix(p, v)?,
                None => v,
            }
        }
    };
    for p in o.prefixes.iter().rev() {
        v = a.prefix(*p, v)?;
    }
    Ok(v)
}

fn eval_prim<A: Alg>(t: &Table, p: &Prim, a: &mut A) -> Result<A::V, String> {
    match p {
        Prim::Num(s) => a.num(s),
        Prim::Var(i) => a.var(*i),
        Prim::Const(i) => a.konst(*i),
        Prim::Group(_, c) => eval_chain(t, c, a),
        Prim::Call(f, _, args) => {
            let mut values = Vec::new();
            for c in args {
                values.push(eval_chain(t, c, a)?);
            }
            a.call(*f, values)
        }
        Prim::Juxt(_) => unreachable!(),
    }
}

pub fn close_of(c: char) -> char {
    match c {
        '(' => ')',
        '[' => ']',
        _ => '}',
    }
}

/// The tokens of an expression, as written.
pub fn write_chain(t: &Table, c: &Chain, out: &mut Vec<String>) {
    for (i, o) in c.items.iter().enumerate() {
        if i > 0 {
            out.push(t.bins[c.ops[i - 1]].name.to_string());
        }
        for p in &o.prefixes {
            out.push(t.prefix[*p].to_string());
        }
        write_prim(t, &o.prim, out);
        if let Some(p) = o.postfix {
            out.push(t.postfix[p].to_string());
        }
    }
}

fn write_prim(t: &Table, p: &Prim, out: &mut Vec<String>) {
    match p {
        Prim::Num(s) => out.push(s.clone()),
        Prim::Var(i) => out.push(t.vars[*i].to_string()),
        Prim::Const(i) => out.push(t.consts[*i].to_string()),
        Prim::Group(g, c) => {
            out.push(g.to_string());
            write_chain(t, c, out);
            out.push(close_of(*g).to_string());
        }
        Prim::Call(f, g, args) => {
            out.push(t.funcs[*f].to_string());
            out.push(g.to_string());
            for (i, a) in args.iter().enumerate() {
                if i > 0 {
                    out.push(",".to_string());
                }
                write_chain(t, a, out);
            }
            out.push(close_of(*g).to_string());
        }
        Prim::Juxt(factors) => {
            for f in factors {
                write_prim(t, f, out);
            }
        }
    }
}

pub fn is_operator_char(c: char) -> bool {
    "~`!@#$%^&*-+_:;\"'|\\?.<>/=,".contains(c)
}

fn is_word_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

/// Where a space is needed for the tokens to be read back: `gaps[i]` is after token `i`.
pub fn needed_gaps(t: &Table, tokens: &[String]) -> Vec<bool> {
    let mut gaps = vec![false; tokens.len()];
    let names: Vec<&str> = t
        .bins
        .iter()
        .map(|b| b.name)
        .chain(t.prefix.iter().copied())
        .chain(t.postfix.iter().copied())
        .chain(std::iter::once(","))
        .collect();
    // The operators since the last gap
    let mut run: Vec<&str> = Vec::new();

    for i in 0..tokens.len() {
        let cur = tokens[i].as_str();
        let operator = cur.chars().all(is_operator_char);
        if operator {
            run.push(cur);
            if run.len() > 1 && greedy(&run.concat(), &names) != run {
                gaps[i - 1] = true;
                run = vec![cur];
            }
        } else {
            run.clear();
            if i > 0 {
                let last = tokens[i - 1].chars().last().unwrap();
                let number = tokens[i - 1].starts_with(|c: char| c.is_ascii_digit());
                let first = cur.chars().next().unwrap();
                let merge = is_word_char(last)
                    && is_word_char(first)
                    && !(number && first.is_ascii_alphabetic());
                // `1.` and `2`
                if merge || (number && last == '.' && first.is_ascii_digit()) {
                    gaps[i - 1] = true;
                }
            }
        }
    }
    gaps
}

/// Splits operators without spaces in between, the longest first.
fn greedy<'b>(mut s: &'b str, names: &[&str]) -> Vec<&'b str> {
    let mut out = Vec::new();
    while !s.is_empty() {
        match names.iter().filter(|n| s.starts_with(**n)).map(|n| n.len()).max() {
            Some(n) => {
                out.push(&s[..n]);
                s = &s[n..];
            }
            None => {
                out.push(s);
                break;
            }
        }
    }
    out
}

pub fn join_spaced(tokens: &[String]) -> String {
    tokens.join(" ")
}

/// The tokens with as few spaces as they need.
pub fn join_tight(t: &Table, tokens: &[String]) -> String {
    let gaps = needed_gaps(t, tokens);
    let mut s = String::new();
    for (x, gap) in tokens.iter().zip(gaps) {
        s.push_str(x);
        if gap {
            s.push(' ');
        }
    }
    s
}

/// The tokens with any whitespace in between, and around.
pub fn join_random(g: &mut Gen, t: &Table, tokens: &[String]) -> String {
    const SPACES: [&str; 8] = [" ", "  ", "\t", "\n", "\r\n", "   ", "\u{a0}", " \t "];
    let gaps = needed_gaps(t, tokens);
    let mut s = String::new();
    if g.chance(20) {
        s.push_str(g.pick::<&str>(&SPACES));
    }
    for (i, (x, gap)) in tokens.iter().zip(gaps).enumerate() {
        s.push_str(x);
        if gap || (i + 1 < tokens.len() && g.chance(40)) {
            s.push_str(g.pick::<&str>(&SPACES));
        }
    }
    if g.chance(20) {
        s.push_str(g.pick::<&str>(&SPACES));
    }
    s
}

pub fn join_any(g: &mut Gen, t: &Table, tokens: &[String]) -> String {
    match g.below(3) {
        0 => join_spaced(tokens),
        1 => join_tight(t, tokens),
        _ => join_random(g, t, tokens),
    }
}

/// What shapes are generated.
#[derive(Clone)]
pub struct Shape {
    pub max_ops: usize,
    pub max_depth: usize,
    pub max_args: usize,
    /// The numbers to use.
    pub num: fn(&mut Gen) -> String,
    /// The number of arguments for a call of a function: minimum and maximum.
    pub arity: fn(usize) -> (usize, usize),
    pub groups: &'static [char],
    /// Factors side by side.
    pub juxt: bool,
}

pub fn small_num(g: &mut Gen) -> String {
    match g.below(10) {
        0..=6 => g.below(10).to_string(),
        7 => g.below(1000).to_string(),
        8 => format!("{}.{}", g.below(20), g.below(100)),
        _ => format!("{}.", g.below(20)),
    }
}

pub fn gen_chain(g: &mut Gen, t: &Table, s: &Shape, depth: usize) -> Chain {
    let n = if t.bins.is_empty() { 0 } else { g.len(0, s.max_ops >> depth.min(3)) };
    let mut items = vec![gen_operand(g, t, s, depth)];
    let mut ops = Vec::new();
    for _ in 0..n {
        ops.push(g.below(t.bins.len()));
        items.push(gen_operand(g, t, s, depth));
    }
    Chain { items, ops }
}

fn gen_operand(g: &mut Gen, t: &Table, s: &Shape, depth: usize) -> Operand {
    let mut prefixes = Vec::new();
    let mut postfix = None;
    if !t.prefix.is_empty() && g.chance(25) {
        for _ in 0..=g.len(0, 2) {
            prefixes.push(g.below(t.prefix.len()));
        }
    }
    if !t.postfix.is_empty() && g.chance(20) {
        postfix = Some(g.below(t.postfix.len()));
    }
    let mut prim = gen_prim(g, t, s, depth);
    if s.juxt && g.chance(35) {
        let mut factors = vec![prim];
        for _ in 0..1 + g.len(0, 3) {
            let last = factors.last().unwrap();
            let number = matches!(last, Prim::Num(_));
            if !number && !matches!(last, Prim::Group(..) | Prim::Call(..)) {
                break;
            }
            let mut next = gen_prim(g, t, s, depth);
            if number && matches!(next, Prim::Num(_)) {
                let c = Chain {
                    items: vec![Operand { prefixes: vec![], prim: next, postfix: None }],
                    ops: vec![],
                };
                next = Prim::Group('(', Box::new(c));
            }
            factors.push(next);
        }
        prim = if factors.len() > 1 { Prim::Juxt(factors) } else { factors.pop().unwrap() };
    }
    Operand { prefixes, prim, postfix }
}

fn gen_prim(g: &mut Gen, t: &Table, s: &Shape, depth: usize) -> Prim {
    let deep = depth < s.max_depth;
    match g.below(10) {
        4 if !t.vars.is_empty() => Prim::Var(g.below(t.vars.len())),
        5 if !t.consts.is_empty() => Prim::Const(g.below(t.consts.len())),
        6 | 7 if deep && !g.exhausted() => {
            Prim::Group(*g.pick(s.groups), Box::new(gen_chain(g, t, s, depth + 1)))
        }
        8 | 9 if deep && !t.funcs.is_empty() && !g.exhausted() => {
            let f = g.below(t.funcs.len());
            let (lo, hi) = (s.arity)(f);
            let n = lo + g.below(hi.min(s.max_args.max(lo)) - lo + 1);
            let open = if t.custom_call { *g.pick(s.groups) } else { '(' };
            if hi >= 3 && g.chance(10) {
                // Many arguments, flat
                let n = hi + 1 + g.below(14);
                return Prim::Call(f, open, (0..n).map(|_| gen_chain(g, t, s, s.max_depth)).collect());
            }
            Prim::Call(f, open, (0..n).map(|_| gen_chain(g, t, s, depth + 1)).collect())
        }
        _ => Prim::Num((s.num)(g)),
    }
}

/// How many operators, calls and groups an expression has.
pub fn weight(c: &Chain) -> usize {
    c.ops.len()
        + c.items
            .iter()
            .map(|o| {
                o.prefixes.len()
                    + o.postfix.is_some() as usize
                    + prim_weight(&o.prim)
            })
            .sum::<usize>()
}

fn prim_weight(p: &Prim) -> usize {
    match p {
        Prim::Group(_, c) => 1 + weight(c),
        Prim::Call(_, _, a) => 1 + a.iter().map(weight).sum::<usize>(),
        Prim::Juxt(f) => f.len() - 1 + f.iter().map(prim_weight).sum::<usize>(),
        _ => 0,
    }
}

/// Whether an expression has an implicit multiplication.
pub fn has_juxt(c: &Chain) -> bool {
    fn prim(p: &Prim) -> bool {
        match p {
            Prim::Group(_, c) => has_juxt(c),
            Prim::Call(_, _, a) => a.iter().any(has_juxt),
            Prim::Juxt(_) => true,
            _ => false,
        }
    }
    c.items.iter().any(|o| prim(&o.prim))
}

/// The result of reading a sequence of tokens with the reference syntax.
pub enum Read {
    Valid(Chain),
    Malformed,
    /// Read, but its meaning is not specified.
    Unspecified,
}

pub fn read(t: &Table, tokens: &[String], implicit: bool) -> Read {
    let mut p = Reader { t, tokens, pos: 0, unspecified: false, implicit };
    match p.chain() {
        Some(c) if p.pos == tokens.len() => {
            if p.unspecified {
                Read::Unspecified
            } else {
                Read::Valid(c)
            }
        }
        _ => Read::Malformed,
    }
}

struct Reader<'b> {
    t: &'b Table,
    tokens: &'b [String],
    pos: usize,
    unspecified: bool,
    implicit: bool,
}

impl Reader<'_> {
    fn peek(&self) -> Option<&str> {
        self.tokens.get(self.pos).map(|s| s.as_str())
    }

    fn find(&self, names: &[&str]) -> Option<usize> {
        self.peek().and_then(|s| names.iter().position(|n| *n == s))
    }

    fn chain(&mut self) -> Option<Chain> {
        let mut items = vec![self.operand()?];
        let mut ops = Vec::new();
        while let Some(op) = self.peek().and_then(|s| self.t.bins.iter().position(|b| b.name == s)) {
            self.pos += 1;
            ops.push(op);
            items.push(self.operand()?);
        }
        // An implicit multiplication binds tighter than a power before it, but not than one after it
        if items.iter().any(|o| matches!(o.prim, Prim::Juxt(_)))
            && ops.iter().any(|i| self.t.bins[*i].prec > 2)
        {
            self.unspecified = true;
        }
        Some(Chain { items, ops })
    }

    fn operand(&mut self) -> Option<Operand> {
        let mut prefixes = Vec::new();
        while let Some(i) = self.find(&self.t.prefix) {
            self.pos += 1;
            prefixes.push(i);
        }
        let mut prim = self.prim()?;
        if self.implicit {
            let mut factors = vec![prim];
            while let Some(s) = self.peek() {
                let number = s.starts_with(|c: char| c.is_ascii_digit());
                let operand = number
                    || ["(", "[", "{"].contains(&s)
                    || self.find(&self.t.vars).is_some()
                    || self.find(&self.t.consts).is_some()
                    || self.find(&self.t.funcs).is_some();
                let follows = match factors.last().unwrap() {
                    Prim::Num(_) => !number,
                    Prim::Group(..) | Prim::Call(..) => true,
                    _ => false,
                };
                if !operand || !follows {
                    break;
                }
                factors.push(self.prim()?);
            }
            prim = if factors.len() > 1 { Prim::Juxt(factors) } else { factors.pop().unwrap() };
        }
        let mut postfix = None;
        while let Some(i) = self.find(&self.t.postfix) {
            self.pos += 1;
            if postfix.is_some() {
                self.unspecified = true;
            }
            postfix = Some(i);
        }
        Some(Operand { prefixes, prim, postfix })
    }

    fn open(&self) -> Option<char> {
        match self.peek()? {
            "(" => Some('('),
            "[" => Some('['),
            "{" => Some('{'),
            _ => None,
        }
    }

    fn close(&mut self, open: char) -> Option<()> {
        if self.peek()? == close_of(open).to_string() {
            self.pos += 1;
            Some(())
        } else {
            None
        }
    }

    fn prim(&mut self) -> Option<Prim> {
        let s = self.peek()?.to_string();
        if s.starts_with(|c: char| c.is_ascii_digit()) {
            self.pos += 1;
            return Some(Prim::Num(s));
        }
        if let Some(i) = self.find(&self.t.vars) {
            self.pos += 1;
            return Some(Prim::Var(i));
        }
        if let Some(i) = self.find(&self.t.consts) {
            self.pos += 1;
            return Some(Prim::Const(i));
        }
        if let Some(f) = self.find(&self.t.funcs) {
            self.pos += 1;
            let open = self.open().filter(|c| *c == '(' || self.t.custom_call)?;
            self.pos += 1;
            let mut args = Vec::new();
            if self.peek()? != close_of(open).to_string() {
                args.push(self.chain()?);
                while self.peek() == Some(",") {
                    self.pos += 1;
                    args.push(self.chain()?);
                }
            }
            self.close(open)?;
            return Some(Prim::Call(f, open, args));
        }
        let open = self.open()?;
        self.pos += 1;
        let c = self.chain()?;
        self.close(open)?;
        Some(Prim::Group(open, Box::new(c)))
    }
}

//////////////////// Symbolic values ////////////////////

/// A value that is the expression it was evaluated from, so a result shows which operator was
/// applied to what, and in which order.
#[derive(Clone, Debug, PartialEq)]
pub struct Sym(pub String);

impl std::str::FromStr for Sym {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        let valid = s.starts_with(|c: char| c.is_ascii_digit())
            && s.chars().all(|c| c.is_ascii_digit() || c == '.')
            && s.matches('.').count() < 2;
        if valid {
            Ok(Sym(s.to_string()))
        } else {
            Err(())
        }
    }
}

pub struct SymBin(pub Bin);
impl BinaryFunction<Sym> for SymBin {
    fn name(&self) -> &str {
        self.0.name
    }
    fn precedence(&self) -> Precedence {
        Precedence(self.0.prec)
    }
    fn associativity(&self) -> Associativity {
        if self.0.right {
            Associativity::Right
        } else {
            Associativity::Left
        }
    }
    fn call(&self, l: Sym, r: Sym) -> prexel::Result<Sym> {
        Ok(Sym(format!("({} {} {})", l.0, self.0.name, r.0)))
    }
}

pub struct SymUn(pub &'static str, pub Notation);
impl UnaryFunction<Sym> for SymUn {
    fn name(&self) -> &str {
        self.0
    }
    fn notation(&self) -> Notation {
        self.1
    }
    fn call(&self, v: Sym) -> prexel::Result<Sym> {
        Ok(Sym(match self.1 {
            Notation::Prefix => format!("({} {})", self.0, v.0),
            Notation::Postfix => format!("({} {})", v.0, self.0),
        }))
    }
}

pub struct SymFn(pub &'static str);
impl Function<Sym> for SymFn {
    fn name(&self) -> &str {
        self.0
    }
    fn call(&self, args: &[Sym]) -> prexel::Result<Sym> {
        let args: Vec<&str> = args.iter().map(|a| a.0.as_str()).collect();
        Ok(Sym(format!("{}{{{}}}", self.0, args.join(", "))))
    }
}

pub struct SymAlg<'b>(pub &'b Table);
impl Alg for SymAlg<'_> {
    type V = String;
    fn num(&mut self, s: &str) -> Result<String, String> {
        Ok(s.to_string())
    }
    fn var(&mut self, i: usize) -> Result<String, String> {
        Ok(format!("<var {}>", self.0.vars[i]))
    }
    fn konst(&mut self, i: usize) -> Result<String, String> {
        Ok(format!("<const {}>", self.0.consts[i]))
    }
    fn prefix(&mut self, i: usize, v: String) -> Result<String, String> {
        Ok(format!("({} {})", self.0.prefix[i], v))
    }
    fn postfix(&mut self, i: usize, v: String) -> Result<String, String> {
        Ok(format!("({} {})", v, self.0.postfix[i]))
    }
    fn bin(&mut self, i: usize, l: String, r: String) -> Result<String, String> {
        Ok(format!("({} {} {})", l, self.0.bins[i].name, r))
    }
    fn call(&mut self, i: usize, args: Vec<String>) -> Result<String, String> {
        Ok(format!("{}{{{}}}", self.0.funcs[i], args.join(", ")))
    }
}

pub fn sym_context(t: &Table, config: Config) -> DefaultContext<'static, Sym> {
    let mut c: DefaultContext<'static, Sym> = DefaultContext::with_config(config);
    for b in &t.bins {
        c.add_binary_function(SymBin(b.clone())).expect("a binary operator of the table");
    }
    for n in &t.prefix {
        c.add_unary_function(SymUn(n, Notation::Prefix)).expect("a prefix operator of the table");
    }
    for n in &t.postfix {
        c.add_unary_function(SymUn(n, Notation::Postfix)).expect("a postfix operator of the table");
    }
    for n in &t.funcs {
        c.add_function(SymFn(n)).expect("a function of the table");
    }
    for n in &t.vars {
        c.set_variable(n, Sym(format!("<var {}>", n))).expect("a variable of the table");
    }
    for n in &t.consts {
        c.add_constant(n, Sym(format!("<const {}>", n))).expect("a constant of the table");
    }
    c
}

const BIN_NAMES: [&str; 39] = [
    "+", "-", "*", "/", "^", "mod", "%", "&", "|", "<", ">", "**", "//", "<=>", "==", "!=", "<=",
    ">=", "<<", ">>", "&&", "||", "->", "=>", ":", "and", "or", "xor", "div", "shl", "\u{d7}",
    "\u{f7}", "o", "\u{2218}", "<==>", "|||||", ">>>>=", "::=:", "+-*/+-*/",
];
const PREFIX_NAMES: [&str; 12] = ["-", "+", "~", "not", "@", "neg", "\u{221a}", "$", "++", "|", "~~~~~", "+-+-"];
const POSTFIX_NAMES: [&str; 8] = ["!", "?", "!!", "#", "fact", "\u{b0}", "'", "!?!?!"];
const FUNC_NAMES: [&str; 13] = [
    "max", "min", "sum", "f", "log2", "Random", "my_fn", "g2x", "IF", "max_", "\u{3c3}", "h__", "a_function_of_more_than_32_characters",
];
const VAR_NAMES: [&str; 12] =
    ["x", "y", "X", "ab", "value_1", "z9", "Total", "k", "x_", "\u{e8}", "\u{4e2d}", "a_variable_of_more_than_32_characters"];
const CONST_NAMES: [&str; 8] = ["PI", "e", "phi", "Tau_2", "c0", "\u{3c0}", "pi_", "a_constant_of_more_than_32_characters"];

fn choose(g: &mut Gen, names: &[&'static str], lo: usize, hi: usize) -> Vec<&'static str> {
    let mut names = names.to_vec();
    let n = lo + g.below(hi.min(names.len()) - lo + 1);
    // A few swaps to the front are enough, and shrink to the first names
    for i in 0..n {
        let j = i + g.below(names.len() - i);
        names.swap(i, j);
    }
    names.truncate(n);
    names
}

/// A random table of names: each precedence level has a single associativity.
pub fn gen_table(g: &mut Gen) -> Table {
    let bins = choose(g, &BIN_NAMES, 1, 8);
    let levels = 1 + g.below(5) as u32;
    let spread = *g.pick(&[1u32, 2, 3, 100, 1_000_000_000]);
    let rights = g.raw();
    let bins: Vec<Bin> = bins
        .into_iter()
        .map(|name| {
            let level = g.below(levels as usize) as u32;
            Bin {
                name,
                prec: match (spread, level) {
                    (1_000_000_000, 4) => u32::MAX,
                    _ => level * spread,
                },
                right: rights >> (31 - level) & 1 == 1,
            }
        })
        .collect();
    let has = |n: &str| bins.iter().any(|b| b.name == n);
    let prefix = choose(g, &PREFIX_NAMES, 0, 4);
    let postfix: Vec<_> = choose(g, &POSTFIX_NAMES, 0, 3).into_iter().filter(|n| !has(n)).collect();
    let funcs = choose(g, &FUNC_NAMES, 0, 5);
    let vars = choose(g, &VAR_NAMES, 0, 4);
    let consts = choose(g, &CONST_NAMES, 0, 3);
    Table { bins, prefix, postfix, funcs, vars, consts, custom_call: false }
}
