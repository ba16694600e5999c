//! C26: which operations an evaluation runs, on what, in which order, and the error it ends with.
use crate::engine::*;
use crate::grammar::*;
use crate::syntax::{config, gen_any_table, show, sym_shape};
use prexel::context::{Config, Context, DefaultContext};
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::{rpn_eval, Evaluator};
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::tokenizer::Tokenizer;
use std::cell::RefCell;
use std::rc::Rc;

/// A number of the text, a name, or `#n`: the result of the n-th operation.
#[derive(Clone, Debug, PartialEq)]
struct V(String);

impl std::str::FromStr for V {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        s.parse::<Sym>().map(|s| V(s.0))
    }
}

/// An error of a function of the user.
#[derive(Debug)]
struct Failure(u32);
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "failure {}", self.0)
    }
}
impl std::error::Error for Failure {}

const KINDS: [ErrorKind; 11] = [
    ErrorKind::Unknown,
    ErrorKind::Overflow,
    ErrorKind::Zero,
    ErrorKind::NAN,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidArgumentCount,
    ErrorKind::DivisionByZero,
    ErrorKind::NegativeValue,
    ErrorKind::PositiveValue,
    ErrorKind::InvalidExpression,
    ErrorKind::Empty,
];

/// The operation that fails, if any, and how.
#[derive(Clone, Debug)]
struct Fault {
    at: usize,
    kind: ErrorKind,
    detail: u32,
}

impl Fault {
    fn error(&self) -> Error {
        match self.detail {
            0 => Error::from(self.kind),
            1 => Error::new(self.kind, ""),
            2 => Error::new(self.kind, "two\nlines"),
            n => Error::new(self.kind, Failure(n)),
        }
    }
    /// What the error should look like.
    fn shown(&self) -> String {
        let (text, inner) = match self.detail {
            0 => (self.kind.as_str().to_string(), "none".to_string()),
            1 => (String::new(), "text".to_string()),
            2 => ("two\nlines".to_string(), "text".to_string()),
            n => (format!("failure {}", n), format!("Failure({})", n)),
        };
        format!("{:?} {:?} {}", self.kind, text, inner)
    }
}

fn show_error(e: Error) -> String {
    let inner = match e.get_ref() {
        None => "none".to_string(),
        Some(i) => i.downcast_ref::<Failure>().map_or("text".to_string(), |f| format!("{:?}", f)),
    };
    let (kind, text) = (e.kind(), e.to_string());
    let same = e.into_inner().map(|i| i.to_string());
    if same.as_deref().unwrap_or(&text) != text {
        return format!("{:?} {:?} but within is {:?}", kind, text, same);
    }
    format!("{:?} {:?} {}", kind, text, inner)
}

struct Log {
    calls: Vec<String>,
    fault: Option<Fault>,
    /// The operations evaluate something themselves.
    nested: bool,
}
type Shared = Rc<RefCell<Log>>;

fn nested() -> bool {
    let e: Evaluator<i32> = Evaluator::new();
    // It is dropped before what it would be borrowed for
    let e: &'static Evaluator<'static, i32> = unsafe { std::mem::transmute(&e) };
    e.eval("2 + max(3 * 4, 5) - (1)") == Ok(13) && e.eval("1 / 0").is_err() && e.eval("(1, 2").is_err()
}

fn run(log: &Shared, what: String) -> prexel::Result<V> {
    let inner = log.borrow().nested;
    if inner && !nested() {
        log.borrow_mut().calls.push("a wrong evaluation within".to_string());
    }
    let mut log = log.borrow_mut();
    let n = log.calls.len();
    log.calls.push(what);
    match &log.fault {
        Some(f) if f.at == n => Err(f.error()),
        _ => Ok(V(format!("#{}", n))),
    }
}

struct LBin(Bin, Shared);
impl BinaryFunction<V> for LBin {
    fn name(&self) -> &str {
        self.0.name
    }
    fn precedence(&self) -> Precedence {
        Precedence(self.0.prec)
    }
    fn associativity(&self) -> Associativity {
        if self.0.right {
            Associativity::Right
        } else {
            Associativity::Left
        }
    }
    fn call(&self, l: V, r: V) -> prexel::Result<V> {
        run(&self.1, format!("{} {} {}", l.0, self.0.name, r.0))
    }
}

struct LUn(&'static str, Notation, Shared);
impl UnaryFunction<V> for LUn {
    fn name(&self) -> &str {
        self.0
    }
    fn notation(&self) -> Notation {
        self.1
    }
    fn call(&self, v: V) -> prexel::Result<V> {
        run(&self.2, match self.1 {
            Notation::Prefix => format!("{} {}", self.0, v.0),
            Notation::Postfix => format!("{} {}", v.0, self.0),
        })
    }
}

struct LFn(&'static str, Shared);
impl Function<V> for LFn {
    fn name(&self) -> &str {
        self.0
    }
    fn call(&self, args: &[V]) -> prexel::Result<V> {
        let args: Vec<&str> = args.iter().map(|a| a.0.as_str()).collect();
        run(&self.1, format!("{}({})", self.0, args.join(", ")))
    }
}

fn context(t: &Table, config: Config, log: &Shared) -> DefaultContext<'static, V> {
    let mut c: DefaultContext<'static, V> = DefaultContext::with_config(config);
    for b in &t.bins {
        c.add_binary_function(LBin(b.clone(), log.clone())).expect("a binary operator of the table");
    }
    for n in &t.prefix {
        c.add_unary_function(LUn(n, Notation::Prefix, log.clone())).expect("a prefix operator of the table");
    }
    for n in &t.postfix {
        c.add_unary_function(LUn(n, Notation::Postfix, log.clone())).expect("a postfix operator of the table");
    }
    for n in &t.funcs {
        c.add_function(LFn(n, log.clone())).expect("a function of the table");
    }
    for n in &t.vars {
        c.set_variable(n, V(n.to_string())).expect("a variable of the table");
    }
    for n in &t.consts {
        c.add_constant(n, V(n.to_string())).expect("a constant of the table");
    }
    c
}

/// The operations in order; ends with an error where the fault is.
struct LogAlg<'b> {
    t: &'b Table,
    calls: Vec<String>,
    stop: Option<usize>,
}
impl LogAlg<'_> {
    fn run(&mut self, what: String) -> Result<String, String> {
        let n = self.calls.len();
        self.calls.push(what);
        if self.stop == Some(n) {
            Err(String::new())
        } else {
            Ok(format!("#{}", n))
        }
    }
}
impl Alg for LogAlg<'_> {
    type V = String;
    fn num(&mut self, s: &str) -> Result<String, String> {
        Ok(s.to_string())
    }
    fn var(&mut self, i: usize) -> Result<String, String> {
        Ok(self.t.vars[i].to_string())
    }
    fn konst(&mut self, i: usize) -> Result<String, String> {
        Ok(self.t.consts[i].to_string())
    }
    fn prefix(&mut self, i: usize, v: String) -> Result<String, String> {
        self.run(format!("{} {}", self.t.prefix[i], v))
    }
    fn postfix(&mut self, i: usize, v: String) -> Result<String, String> {
        self.run(format!("{} {}", v, self.t.postfix[i]))
    }
    fn bin(&mut self, i: usize, l: String, r: String) -> Result<String, String> {
        self.run(format!("{} {} {}", l, self.t.bins[i].name, r))
    }
    fn call(&mut self, i: usize, args: Vec<String>) -> Result<String, String> {
        self.run(format!("{}({})", self.t.funcs[i], args.join(", ")))
    }
}

fn case(g: &mut Gen) -> Out {
    let t = gen_any_table(g);
    let c = gen_chain(g, &t, &sym_shape(), 0);
    run_case(g, &t, &c)
}

/// Operations by the hundreds, in calls of many arguments, deep or long.
fn large_case(g: &mut Gen) -> Out {
    let t = crate::large::large_table(g);
    let c = crate::large::large_chain(g, &t, false).0;
    run_case(g, &t, &c)
}

fn run_case(g: &mut Gen, t: &Table, c: &Chain) -> Out {
    let w = weight(c);
    let fault = if g.chance(60) && w > 0 {
        Some(Fault { at: g.below(w), kind: *g.pick(&KINDS), detail: g.below(6) as u32 })
    } else {
        None
    };
    let nested = g.below(100) >= 95;
    let mut tokens = Vec::new();
    write_chain(t, c, &mut tokens);
    let text = join_any(g, t, &tokens);
    let how = g.below(4);
    let desc = format!("{}   {} {:?}{}", crate::large::shorten(&text, tokens.len()), show(t), fault, if nested { ", evaluating within" } else { "" });

    let mut alg = LogAlg { t, calls: Vec::new(), stop: fault.as_ref().map(|f| f.at) };
    let want = match eval_chain(t, c, &mut alg) {
        Ok(v) => Ok(v),
        Err(_) => Err(fault.as_ref().unwrap().shown()),
    };
    let log: Shared = Rc::new(RefCell::new(Log { calls: Vec::new(), fault, nested }));
    let ev: *mut Evaluator<'static, V> =
        Box::into_raw(Box::new(Evaluator::with_context(context(t, config(t), &log))));
    // No result borrows from the evaluator
    let e: &'static Evaluator<'static, V> = unsafe { &*ev };
    let mut ended = None;
    // Another time it is the same
    for round in 0..2 {
        log.borrow_mut().calls.clear();
        let got = guard(|| {
            let result = match how {
                0 | 1 => e.eval(&text),
                _ => Tokenizer::new().tokenize(e.context(), &text).and_then(|tokens| match how {
                    2 => e.eval_tokens(&tokens),
                    _ => rpn_eval(&tokens, e.context()),
                }),
            };
            result.map(|v| v.0).map_err(show_error)
        });
        let got = match got {
            Ok(r) => r,
            Err(p) => {
                ended = Some(format!("panicked: {}", p));
                break;
            }
        };
        if log.borrow().calls != alg.calls {
            let ran = &log.borrow().calls;
            let at = alg.calls.iter().zip(ran).take_while(|(a, b)| a == b).count();
            // Of many only where they part
            let near = |v: &[String]| if v.len() < 12 { v.to_vec() } else { v[at.saturating_sub(1)..v.len().min(at + 3)].to_vec() };
            ended = Some(format!("expected {:?} but ran {:?} (round {}, at {})", near(&alg.calls), near(ran), round, at));
            break;
        }
        if got != want {
            ended = Some(format!("expected {:?} but got {:?} (round {})", want, got, round));
            break;
        }
    }
    drop(unsafe { Box::from_raw(ev) });
    match ended {
        Some(m) => fail(desc, m),
        None => ok(desc, w > 1, if want.is_ok() { "value" } else { "error" }),
    }
}

pub fn c26() -> Property {
    Property {
        id: "C26",
        rule: "A random table and well-formed expression, whose operations record what they are run on, and of which one, by its place in the order, may fail with an error of any kind, with a text, an error of the user's or nothing within; as text or as tokens, twice, now and then with operations that evaluate expressions themselves; also of hundreds of operations, arguments and levels. The record has to be that of the reference, and the result its value or the error given. Non-trivial: at least 2 operations.",
        subs: vec![sub("histories", 1_200_000, 270, || Box::new(case)), sub("large", 20_000, 300, || Box::new(large_case))],
    }
}
