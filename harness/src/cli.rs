//! C21: the command line application.
use crate::engine::*;
use num_complex::Complex;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use rust_decimal::Decimal;
use std::fmt::{Debug, Display};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::str::FromStr;
use std::time::{Duration, Instant};

pub const TYPES: [&str; 5] = ["decimal", "float", "integer", "complex", "binary"];

fn binary_path() -> PathBuf {
    let root = std::env::var("PBT_ROOT").unwrap_or_else(|_| "/verif".to_string());
    PathBuf::from(root).join("target/apps/debug/eval")
}

//////////////////// What the library gives ////////////////////

/// A number the application has a type of.
pub trait Kind: FromStr<Err = Self::Error> + Clone + Display + Debug + 'static {
    type Error: Display;
    fn context() -> DefaultContext<'static, Self>;
    fn tokenizer() -> Tokenizer<'static, Self> {
        Tokenizer::new()
    }
    /// Without the implied multiplication.
    fn plain() -> DefaultContext<'static, Self>;
}

fn config() -> Config {
    Config::new().with_implicit_mul(true)
}

impl Kind for Decimal {
    type Error = <Decimal as FromStr>::Err;
    fn context() -> DefaultContext<'static, Self> {
        DefaultContext::with_config_decimal(config())
    }
    fn plain() -> DefaultContext<'static, Self> {
        DefaultContext::new_decimal()
    }
}
impl Kind for f64 {
    type Error = <f64 as FromStr>::Err;
    fn context() -> DefaultContext<'static, Self> {
        DefaultContext::with_config_unchecked(config())
    }
    fn plain() -> DefaultContext<'static, Self> {
        DefaultContext::new_unchecked()
    }
}
impl Kind for i128 {
    type Error = <i128 as FromStr>::Err;
    fn context() -> DefaultContext<'static, Self> {
        DefaultContext::with_config_checked(config())
    }
    fn plain() -> DefaultContext<'static, Self> {
        DefaultContext::new_checked()
    }
}
impl Kind for Complex<f64> {
    type Error = <Complex<f64> as FromStr>::Err;
    fn context() -> DefaultContext<'static, Self> {
        DefaultContext::with_config_complex(config().with_complex_number(true))
    }
    fn plain() -> DefaultContext<'static, Self> {
        DefaultContext::new_complex()
    }
}
impl Kind for Binary {
    type Error = <Binary as FromStr>::Err;
    fn context() -> DefaultContext<'static, Self> {
        DefaultContext::with_config_binary(config())
    }
    fn plain() -> DefaultContext<'static, Self> {
        DefaultContext::new_binary()
    }
    fn tokenizer() -> Tokenizer<'static, Self> {
        Tokenizer::with_splitter(binary_number_splitter())
    }
}

macro_rules! by_type {
    ($t:expr, $f:ident ( $($a:expr),* )) => {
        match $t {
            0 => $f::<Decimal>($($a),*),
            1 => $f::<f64>($($a),*),
            2 => $f::<i128>($($a),*),
            3 => $f::<Complex<f64>>($($a),*),
            _ => $f::<Binary>($($a),*),
        }
    };
}

/// An evaluator that can be changed between evaluations.
struct Machine<N: Kind> {
    ev: *mut Evaluator<'static, N>,
}

impl<N: Kind> Machine<N> {
    fn new() -> Self {
        let ev = Evaluator::with_context_and_tokenizer(N::context(), N::tokenizer());
        Machine { ev: Box::into_raw(Box::new(ev)) }
    }
    fn set(&mut self, name: &str, v: N) -> prexel::Result<()> {
        unsafe { &mut *self.ev }.mut_context().set_variable(name, v).map(|_| ())
    }
    /// `Err` if it panics, which other properties are about.
    fn eval(&self, text: &str) -> Result<Result<N, String>, ()> {
        // No result borrows from the evaluator
        let ev: &'static Evaluator<'static, N> = unsafe { &*self.ev };
        guard(|| ev.eval(text).map_err(|e| e.to_string())).map_err(|_| ())
    }
}

impl<N: Kind> Drop for Machine<N> {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.ev) });
    }
}

fn library<N: Kind>(text: &str) -> Result<Result<String, String>, ()> {
    Machine::<N>::new().eval(text).map(|r| r.map(|v| v.to_string()))
}

//////////////////// Expressions ////////////////////

const FUNCS: [&str; 30] = [
    "sqrt", "ln", "log", "exp", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec",
    "acot", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "sum", "avg", "product", "max", "min", "floor",
    "abs", "to_radians",
];

pub fn number(g: &mut Gen, t: usize) -> String {
    match (t, g.below(8)) {
        (4, 0..=3) => format!("b{:b}", g.below(300)),
        (4, 4) => format!("b{:b}", g.u64()),
        (4, _) => g.below(200).to_string(),
        (3, 0 | 1) => format!("{}i", g.below(20)),
        (3, 2) => format!("{}.{}i", g.below(20), g.below(10)),
        (_, 0..=3) => g.below(12).to_string(),
        (2, 4) => g.u64().to_string(),
        (2, _) => g.below(1000).to_string(),
        (_, 4) => format!("{}.{}", g.below(100), g.below(1000)),
        (_, 5) => format!("{}.{:09}", g.u64() >> 20, g.below(1_000_000_000)),
        (_, 6) => (g.below(13) * 30).to_string(),
        _ => format!("0.{:04}", g.below(10_000)),
    }
}

fn operand(g: &mut Gen, t: usize, names: &[&str], depth: usize, out: &mut Vec<String>) {
    let mut postfix = false;
    if g.chance(20) {
        out.push(if t == 4 { ["~", "not"][g.below(2)] } else { ["-", "+"][g.below(2)] }.into());
    } else {
        postfix = t != 4 && t != 3 && g.chance(10);
    }
    match g.below(10) {
        0..=4 => out.push(number(g, t)),
        5 if !names.is_empty() => out.push(g.pick(names).to_string()),
        5 | 6 if t != 4 => out.push(["PI", "E", "pi", "e"][g.below(4)].into()),
        7 | 8 if depth < 3 => {
            if g.chance(25) {
                out.push(number(g, t));
            }
            let (a, b) = *g.pick(&[("(", ")"), ("(", ")"), ("[", "]")]);
            out.push(a.into());
            expression(g, t, names, depth + 1, out);
            out.push(b.into());
        }
        9 if depth < 3 && t != 4 => {
            let f = *g.pick(&FUNCS);
            out.push(f.into());
            out.push("(".into());
            let n = match f {
                "sum" | "avg" | "product" | "max" | "min" => 1 + g.below(4),
                _ => 1 + g.chance(5) as usize,
            };
            for i in 0..n {
                if i > 0 {
                    out.push(",".into());
                }
                expression(g, t, names, depth + 1, out);
            }
            out.push(")".into());
        }
        _ => out.push(number(g, t)),
    }
    if postfix {
        out.push("!".into());
    }
}

fn expression(g: &mut Gen, t: usize, names: &[&str], depth: usize, out: &mut Vec<String>) {
    const OPS: [&str; 6] = ["+", "-", "*", "/", "mod", "^"];
    const BITS: [&str; 20] = [
        "&", "|", "^", "<<", ">>", "and", "or", "xor", "shl", "shr", "==", "eq", "!=", ">", "gt", "<", "lte", ">=",
        "ne", "equal",
    ];
    operand(g, t, names, depth, out);
    for _ in 0..[0, 0, 1, 1, 2, 3][g.below(6)] {
        out.push(if t == 4 { *g.pick(&BITS) } else { *g.pick(&OPS) }.into());
        operand(g, t, names, depth, out);
    }
}

/// An expression for a type, sometimes not well-formed.
pub fn text(g: &mut Gen, t: usize, names: &[&str]) -> String {
    const ODD: [&str; 30] = [
        "(", ")", ",", "x", "5", "+", "*", "@", "é", "$", "#", "!", "random2", "sin", "_a", ".", "1.2.3", "<=", "==",
        "√", "\"", "\\", "=", ";", ":", "?", "%", "'", "`", "&&",
    ];
    let mut all = Vec::new();
    if !g.chance(2) {
        expression(g, t, names, 0, &mut all);
    }
    if g.chance(15) {
        for _ in 0..1 + g.below(2) {
            let i = match g.below(5) {
                0 => 0,
                1 => all.len(),
                _ => g.below(all.len() + 1),
            };
            if g.chance(40) && i < all.len() {
                all.remove(i);
            } else {
                all.insert(i, g.pick(&ODD).to_string());
            }
        }
    }
    let mut s = String::new();
    let spaced = g.chance(60);
    let joined = g.chance(25);
    for (i, p) in all.iter().enumerate() {
        let word = |s: &str, last: bool| {
            let c = if last { s.chars().last() } else { s.chars().next() };
            c.map_or(false, |c| c.is_alphanumeric() || "_.$".contains(c))
        };
        // Neither digits nor names join, or they all do
        if i > 0 && (spaced || (!joined && word(&all[i - 1], true) && word(p, false))) {
            s.push_str(if g.chance(4) { "  " } else { " " });
        }
        s.push_str(p);
    }
    s
}

/// Now and then a text with that one in many groups, repeated, or with much after it
pub fn longer(g: &mut Gen, text: String) -> String {
    if g.below(100) < 97 {
        return text;
    }
    let n = [20, 100, 1000, 10_000][g.below(4)];
    match g.below(5) {
        0 => format!("{}{}{}", "(".repeat(n), text, ")".repeat(n)),
        1 => format!("{}{}{}", "(".repeat(n), text, ")".repeat(n - g.below(2))),
        2 => format!("{}{}", text, [" + 1", " * 1", " - 2", " "][g.below(4)].repeat(n)),
        3 => {
            let n = n.min(20_000 / (text.len() + 3));
            vec![format!("({})", text); n.max(2)].join("+")
        }
        _ => format!("sum({}{})", "1, ".repeat(n), text),
    }
}

//////////////////// One expression ////////////////////

struct Ended {
    stdout: String,
    stderr: String,
    status: std::process::ExitStatus,
}

/// Without the sequences for colors.
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            it.next();
            while let Some(c) = it.next() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn spawn(args: &[&str], stdin: Stdio) -> Child {
    let mut c = Command::new(binary_path());
    c.args(args).stdin(stdin).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.env_remove("NO_COLOR").env("TERM", "xterm");
    c.process_group(0);
    match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            println!("ERROR: cannot run {}: {}", binary_path().display(), e);
            std::process::exit(2);
        }
    }
}

fn run(args: &[&str]) -> Ended {
    let o = spawn(args, Stdio::null()).wait_with_output().unwrap();
    Ended {
        stdout: plain(&String::from_utf8_lossy(&o.stdout)),
        stderr: plain(&String::from_utf8_lossy(&o.stderr)),
        status: o.status,
    }
}

fn crashed(status: &std::process::ExitStatus) -> bool {
    status.signal().is_some() || status.code() == Some(101)
}

fn eval_case(g: &mut Gen) -> Out {
    let t = g.below(5);
    let text = text(g, t, &[]);
    let text = longer(g, text);
    let mut args: Vec<&str> = vec!["eval"];
    let joined = format!("--type={}", TYPES[t]);
    match g.below(4) {
        // The default
        _ if t == 0 && g.chance(30) => {}
        0 => args.extend(["-t", TYPES[t]]),
        1 => args.extend(["--type", TYPES[t]]),
        2 => args.push(&joined),
        _ => args.extend(["-t", TYPES[t]]),
    }
    match g.below(4) {
        0 => args.insert(0, "--no-color"),
        1 => args.push("--no-color"),
        _ => {}
    }
    args.push("--");
    args.push(&text);
    let desc = args.join(" ");
    let want = match by_type!(t, library(&text)) {
        Ok(w) => w,
        Err(()) => return discard(),
    };
    let got = run(&args);
    if crashed(&got.status) {
        return fail(desc, format!("crashed: {} {}", got.status, got.stderr));
    }
    let (out, err) = match &want {
        Ok(v) => (format!("{}\n", v), String::new()),
        Err(e) => (String::new(), format!("{}\n", e)),
    };
    if got.stdout != out || got.stderr != err {
        return fail(desc, format!("expected {:?} and {:?} but got {:?} and {:?}", out, err, got.stdout, got.stderr));
    }
    if want.is_ok() && !got.status.success() {
        return fail(desc, format!("exited with {}", got.status));
    }
    ok(desc, true, if want.is_ok() { "value" } else { "error" })
}

//////////////////// Lists ////////////////////

fn listed<N: Kind>(what: &str) -> Vec<String> {
    let ctx = N::plain();
    let line = |name: &str, rest: Option<&str>| format!("{} {}", name, rest.unwrap_or_default());
    let lines: Vec<String> = match what {
        "constants" => ctx.constants().iter().map(|(n, v)| line(&n.to_string(), Some(&v.to_string()))).collect(),
        "functions" => ctx.functions().iter().map(|(n, f)| line(&n.to_string(), f.description())).collect(),
        _ => {
            let unary = ctx.unary_functions().iter().map(|(n, f)| line(&n.to_string(), f.description()));
            ctx.binary_functions().iter().map(|(n, f)| line(&n.to_string(), f.description())).chain(unary).collect()
        }
    };
    normal(&lines.join("\n"))
}

/// The lines, sorted, with their spaces collapsed.
fn normal(s: &str) -> Vec<String> {
    let mut all: Vec<String> = s
        .lines()
        .map(|l| l.split_whitespace().collect::<Vec<_>>().join(" "))
        .filter(|l| !l.is_empty())
        .collect();
    all.sort();
    all
}

fn list_case(g: &mut Gen) -> Out {
    let what = ["constants", "operators", "functions"][g.below(3)];
    let t = g.below(5);
    let mut args = vec![what, "-t", TYPES[t]];
    if t == 0 && g.chance(30) {
        args.truncate(1);
    }
    if g.chance(50) {
        args.insert(0, "--no-color");
    }
    let desc = args.join(" ");
    let want = by_type!(t, listed(what));
    let got = run(&args);
    if !got.status.success() {
        return fail(desc, format!("exited with {}: {}", got.status, got.stderr));
    }
    let got = normal(&got.stdout);
    if got == want {
        ok(desc, !want.is_empty(), "list")
    } else {
        let missing: Vec<&String> = want.iter().filter(|l| !got.contains(l)).collect();
        let surplus: Vec<&String> = got.iter().filter(|l| !want.contains(l)).collect();
        fail(desc, format!("missing {:?}, surplus {:?}", missing, surplus))
    }
}

//////////////////// Sessions ////////////////////

/// What a terminal shows of an output.
fn screen(out: &str) -> Vec<String> {
    let mut lines: Vec<Vec<char>> = vec![vec![]];
    let mut col = 0usize;
    let mut it = out.chars().peekable();
    while let Some(c) = it.next() {
        let line = lines.last_mut().unwrap();
        match c {
            '\n' => {
                lines.push(vec![]);
                col = 0;
            }
            '\r' => col = 0,
            '\x08' => col = col.saturating_sub(1),
            '\x1b' if it.peek() == Some(&'[') => {
                it.next();
                let mut n = String::new();
                while let Some(c) = it.next() {
                    if !c.is_ascii_alphabetic() {
                        n.push(c);
                        continue;
                    }
                    match c {
                        'K' if n == "2" => line.clear(),
                        'K' if n.is_empty() || n == "0" => line.truncate(col),
                        'D' => col = col.saturating_sub(n.parse().unwrap_or(1)),
                        'G' => col = n.parse().unwrap_or(1) - 1,
                        _ => {}
                    }
                    break;
                }
            }
            c => {
                while line.len() <= col {
                    line.push(' ');
                }
                line[col] = c;
                col += 1;
            }
        }
    }
    // Neither the prompts nor empty lines
    lines
        .into_iter()
        .map(|l| {
            let s: String = l.into_iter().collect();
            let mut s = s.as_str();
            while let Some(rest) = s.strip_prefix(">>>") {
                s = rest.trim_start();
            }
            s.trim().to_string()
        })
        .filter(|s| !s.is_empty())
        .collect()
}

#[derive(Clone, PartialEq)]
enum Key {
    Char(char),
    Enter,
    Up,
    Down,
    Back,
    Escape,
}

impl Key {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Key::Char(c) => c.to_string().into_bytes(),
            Key::Enter => vec![b'\r'],
            Key::Up => b"\x1b[A".to_vec(),
            Key::Down => b"\x1b[B".to_vec(),
            Key::Back => vec![0x7f],
            Key::Escape => vec![0x1b],
        }
    }
}

/// The name of the last result as an identifier.
const LAST: &str = "dollarq_result";

/// With `$name` as a name that the library splits by itself; nothing of a symbol alone.
fn without_symbols(text: &str) -> Option<String> {
    let mut out = String::new();
    let mut rest = text.chars().peekable();
    while let Some(c) = rest.next() {
        if c != '$' {
            out.push(c);
            continue;
        }
        let mut name = String::new();
        while let Some(c) = rest.next_if(|c| c.is_ascii_alphanumeric() || *c == '_') {
            name.push(c);
        }
        if name.is_empty() {
            return None;
        }
        out.push_str(&format!(" dollarq_{} ", name));
    }
    Some(out)
}

/// The session as it should be.
struct Model<N: Kind> {
    machine: Machine<N>,
    history: Vec<String>,
    size: usize,
    cursor: usize,
    line: String,
    shown: Vec<String>,
    errors: Vec<String>,
    ended: bool,
    /// Something is not specified.
    unknown: bool,
}

impl<N: Kind> Model<N> {
    fn new(size: usize, zero: N) -> Self {
        let mut machine = Machine::new();
        machine.set(LAST, zero).unwrap();
        Model {
            machine,
            history: vec![],
            size,
            cursor: 0,
            line: String::new(),
            shown: vec!["Press CTRL+C or type 'exit' to Exit".to_string()],
            errors: vec![],
            ended: false,
            unknown: false,
        }
    }

    fn show(&mut self, s: &str) {
        self.shown.extend(screen(s));
    }

    fn error(&mut self, e: String) {
        self.errors.extend(screen(&e));
    }

    fn press(&mut self, k: &Key) {
        match k {
            Key::Char(c) => self.line.push(*c),
            Key::Back => {
                self.line.pop();
            }
            Key::Up if self.cursor > 0 => {
                self.cursor -= 1;
                self.line = self.history[self.cursor].clone();
            }
            Key::Down if self.cursor < self.history.len() => {
                self.cursor += 1;
                self.line = self.history.get(self.cursor).cloned().unwrap_or_default();
            }
            Key::Up | Key::Down => {}
            Key::Escape => self.end(),
            Key::Enter => self.enter(),
        }
    }

    fn end(&mut self) {
        self.ended = true;
        self.shown.push("Bye bye!".to_string());
    }

    fn enter(&mut self) {
        let line = std::mem::take(&mut self.line);
        self.show(&line);
        let text = line.trim();
        let comparing = ["==", "!=", "<=", ">="].iter().fold(text.to_string(), |s, o| s.replace(o, ""));
        if text == "exit" {
            return self.end();
        }
        if comparing.contains('=') {
            let parts: Vec<&str> = text.split('=').map(|s| s.trim()).collect();
            if parts.len() != 2 {
                self.error("Invalid assignment".to_string());
            } else {
                match N::from_str(parts[1]) {
                    Err(e) => self.error(e.to_string()),
                    Ok(v) => {
                        if let Err(e) = self.machine.set(&parts[0].replace('$', "dollarq_"), v) {
                            self.error(e.to_string().replace("dollarq_", "$"));
                        }
                    }
                }
            }
        } else {
            let plain = without_symbols(text);
            match self.machine.eval(plain.as_deref().unwrap_or("")) {
                // Any other use of the symbol
                _ if plain.is_none() => self.unknown = true,
                Err(()) => self.unknown = true,
                Ok(Ok(v)) => {
                    self.show(&v.to_string());
                    self.machine.set(LAST, v).unwrap();
                }
                Ok(Err(e)) => self.error(e.replace("dollarq_", "$")),
            }
        }
        if !text.is_empty() {
            if self.history.last() != Some(&line) && self.size > 0 {
                if self.history.len() == self.size {
                    self.history.remove(0);
                }
                self.history.push(line);
            }
            self.cursor = self.history.len();
        }
    }
}

/// Runs a session: the bytes of each key are written at once, so that no sequence is split.
fn session(args: &[&str], keys: &[Key]) -> Result<Ended, String> {
    let (mut master, mut slave) = (0, 0);
    let (mut stdin, mut file);
    unsafe {
        if libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) != 0 {
            println!("ERROR: no pseudo-terminal");
            std::process::exit(2);
        }
        for fd in [master, slave] {
            libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        let mut tio: libc::termios = std::mem::zeroed();
        libc::tcgetattr(slave, &mut tio);
        libc::cfmakeraw(&mut tio);
        libc::tcsetattr(slave, libc::TCSANOW, &tio);
        file = std::fs::File::from_raw_fd(master);
        stdin = Some(std::fs::File::from_raw_fd(slave));
    }
    let mut child = spawn(args, Stdio::from(stdin.as_ref().unwrap().try_clone().unwrap()));
    for k in keys {
        file.write_all(&k.bytes()).unwrap();
    }
    // The outputs are shorter than what the pipes hold
    let from = Instant::now();
    let mut pause = 1;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if from.elapsed() > Duration::from_secs(60) {
            child.kill().unwrap();
            child.wait().unwrap();
            return Err("did not end".to_string());
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(8);
    };
    stdin.take();
    let (mut out, mut err) = (Vec::new(), Vec::new());
    child.stdout.take().unwrap().read_to_end(&mut out).unwrap();
    child.stderr.take().unwrap().read_to_end(&mut err).unwrap();
    Ok(Ended {
        stdout: String::from_utf8_lossy(&out).to_string(),
        stderr: String::from_utf8_lossy(&err).to_string(),
        status,
    })
}

fn line(g: &mut Gen, t: usize) -> String {
    const NAMES: [&str; 10] = ["x", "y", "abc", "X", "a_1", "a0", "$a", "$b0_9", "$Z", "$result2"];
    const KNOWN: [&str; 11] =
        ["x", "y", "abc", "$result", "$result", "a0", "$a", "$b0_9", "$Z", "$result2", "$result"];
    match g.below(12) {
        0 => "  ".repeat(g.below(3)),
        1..=4 => {
            let value = match g.below(8) {
                0 => text(g, t, &[]),
                1 => format!("-{}", number(g, t)),
                2 => String::new(),
                _ => number(g, t),
            };
            let gap = ["", " ", "  "][g.below(3)];
            let name = match g.below(8) {
                0 => "PI".to_string(),
                1 => "$result".to_string(),
                _ => g.pick(&NAMES).to_string(),
            };
            match g.below(16) {
                0 => format!("{} = {} = {}", name, value, value),
                _ => format!("{}{}={}{}", name, gap, gap, value),
            }
        }
        5 => {
            let a = text(g, t, &KNOWN);
            format!("{} {} {}", a, ["==", "<=", ">=", "!="][g.below(4)], number(g, t))
        }
        6 => "$result".to_string(),
        _ => text(g, t, &KNOWN),
    }
}

fn repl_keys(g: &mut Gen, t: usize) -> Vec<Key> {
    let mut keys = Vec::new();
    let mut typed = 0;
    let mut blank = true;
    let mut after_blank = false;
    while typed < 1 + g.len(0, 9) {
        if g.chance(20) && !after_blank {
            // From the history
            for _ in 0..1 + g.below(4) {
                keys.push(if g.chance(75) { Key::Up } else { Key::Down });
            }
            blank = false;
            if g.chance(30) {
                for _ in 0..g.below(4) {
                    keys.push(Key::Back);
                }
            }
        }
        if blank || g.chance(30) {
            let l = line(g, t);
            after_blank = l.trim().is_empty();
            if l.trim() == "exit" || l.contains("exit") {
                continue;
            }
            for c in l.chars() {
                keys.push(Key::Char(c));
                if g.chance(2) {
                    keys.push(Key::Char('7'));
                    keys.push(Key::Back);
                }
            }
        }
        keys.push(Key::Enter);
        typed += 1;
        blank = true;
    }
    if g.chance(15) {
        keys.push(Key::Escape);
    } else {
        let s = ["exit", " exit ", "exit "][g.below(3)];
        keys.extend(s.chars().map(Key::Char));
        keys.push(Key::Enter);
    }
    keys
}

fn shown_keys(keys: &[Key]) -> String {
    keys.iter()
        .map(|k| match k {
            Key::Char(c) => c.to_string(),
            Key::Enter => "⏎".to_string(),
            Key::Up => "↑".to_string(),
            Key::Down => "↓".to_string(),
            Key::Back => "⌫".to_string(),
            Key::Escape => "⎋".to_string(),
        })
        .collect()
}

fn play<N: Kind + num_traits::Zero>(args: &[&str], size: usize, keys: &[Key]) -> Out {
    let desc = format!("{}: {}", args.join(" "), shown_keys(keys));
    let mut m: Model<N> = Model::new(size, N::zero());
    for k in keys {
        // What an arrow does after a blank line is not specified
        m.press(k);
    }
    if !m.ended || m.unknown {
        return discard();
    }
    let got = match session(args, keys) {
        Ok(e) => e,
        Err(e) => return fail(desc, e),
    };
    if crashed(&got.status) {
        return fail(desc, format!("crashed: {} {}", got.status, got.stderr));
    }
    let (out, err) = (screen(&got.stdout), screen(&got.stderr));
    if out != m.shown {
        return fail(desc, format!("expected {:?} but got {:?}", m.shown, out));
    }
    if err != m.errors {
        return fail(desc, format!("expected the errors {:?} but got {:?}", m.errors, err));
    }
    if !got.status.success() {
        return fail(desc, format!("exited with {}", got.status));
    }
    ok(desc, m.shown.len() > 3, "session")
}

fn repl_case(g: &mut Gen) -> Out {
    let t = g.below(5);
    let mut args = vec!["repl", "-t", TYPES[t]];
    let sizes = ["0", "1", "2", "3", "100"];
    let mut size = 100;
    if g.chance(50) {
        let s = *g.pick(&sizes);
        size = s.parse().unwrap();
        args.extend(["--history", s]);
    }
    if g.chance(60) {
        args.push("--no-color");
    }
    let keys = repl_keys(g, t);
    by_type!(t, play(&args, size, &keys))
}

/// Sessions of many short lines, most of them repeated or from the history.
fn history_case(g: &mut Gen) -> Out {
    let size = g.below(7);
    let given = size.to_string();
    let mut args = vec!["repl", "-t", "integer", "--no-color"];
    let size = if g.chance(90) {
        args.extend(["--history", &given]);
        size
    } else {
        100
    };
    let mut keys = Vec::new();
    let kinds = 1 + g.below(9);
    for _ in 0..1 + g.len(0, 24) {
        if g.chance(35) {
            for _ in 0..1 + g.below(size.min(8) + 2) {
                keys.push(if g.chance(80) { Key::Up } else { Key::Down });
            }
            if g.chance(20) {
                keys.push(Key::Back);
            }
            if g.chance(20) {
                keys.push(Key::Char((b'0' + g.below(10) as u8) as char));
            }
        } else {
            let l = ["1", "22", "x=3", "x", "4", "$result", "5+", "66", "x=7"][g.below(kinds)];
            keys.extend(l.chars().map(Key::Char));
        }
        keys.push(Key::Enter);
    }
    keys.extend("exit".chars().map(Key::Char));
    // A line of the history may come before it
    for _ in 0..2 {
        keys.push(Key::Enter);
        keys.extend("exit".chars().map(Key::Char));
    }
    keys.push(Key::Escape);
    // Nothing is read after the end
    let mut m: Model<i128> = Model::new(size, 0);
    let end = keys.iter().position(|k| {
        m.press(k);
        m.ended
    });
    keys.truncate(end.map_or(0, |i| i + 1));
    play::<i128>(&args, size, &keys)
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "The built command line application as a process. An expression of each type, well-formed or not, given as an argument: what it prints, where, against the library's evaluation of it. The lists of constants, operators and functions against the contexts. Sessions of up to 10 lines of the interactive mode over a pseudo-terminal, typed key by key, with expressions, assignments, the last result, corrections and recalls of the history, of several sizes, and of up to 25 short lines most of which are recalled or repeated: what a terminal shows against a model over the library. Non-trivial: all expressions and lists, sessions with an output.",
        subs: vec![
            sub("expressions", 30_000, 60, || Box::new(eval_case)),
            sub("lists", 300, 6, || Box::new(list_case)),
            sub("sessions", 15_000, 400, || Box::new(repl_case)),
            sub("histories", 10_000, 200, || Box::new(history_case)),
        ],
    }
}
