//! C25: the library as its features and the build profile give it.
use crate::cli;
use crate::engine::*;
#[path = "../../variants/src/common.rs"]
mod common;
use common::{answer, hex, unhex, TYPES};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdout, Command, Stdio};

/// The features of each variant, as `variants/build.sh` has them.
const SETS: [&str; 14] = [
    "none",
    "docs",
    "linked-hashmap",
    "docs linked-hashmap",
    "decimal",
    "docs decimal",
    "complex",
    "docs complex",
    "binary",
    "docs binary",
    "decimal complex binary",
    "docs decimal complex binary",
    "linked-hashmap decimal complex binary",
    "all, release",
];

fn has(set: usize, t: usize) -> bool {
    match t {
        5..=7 => SETS[set].contains("all") || SETS[set].contains(TYPES[t]),
        _ => true,
    }
}

fn path(set: usize) -> PathBuf {
    let root = std::env::var("PBT_ROOT").unwrap_or_else(|_| "/verif".to_string());
    PathBuf::from(root).join("target/variants").join(set.to_string())
}

struct Variant {
    child: Child,
    out: BufReader<ChildStdout>,
}

impl Variant {
    fn new(set: usize) -> Self {
        let p = path(set);
        match Command::new(&p).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(mut child) => {
                let out = BufReader::new(child.stdout.take().unwrap());
                Variant { child, out }
            }
            Err(e) => {
                println!("ERROR: cannot run {}: {}", p.display(), e);
                std::process::exit(2);
            }
        }
    }
    fn answer(&mut self, case: &str) -> Option<String> {
        writeln!(self.child.stdin.as_mut().unwrap(), "{}", hex(case)).ok()?;
        let mut line = String::new();
        self.out.read_line(&mut line).ok()?;
        if line.ends_with('\n') { Some(unhex(line.trim_end())) } else { None }
    }
}

impl Drop for Variant {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static RUNNING: RefCell<BTreeMap<usize, Variant>> = const { RefCell::new(BTreeMap::new()) };
}

fn steps_of(case: &str) -> String {
    case.replace('\n', " | ").replace('\t', " ")
}

/// The same answers in every variant that has the type.
fn compare(t: usize, case: String) -> Out {
    let flags = case.lines().nth(1).unwrap().to_string();
    let desc = format!("{} flags {}: {}", TYPES[t], flags, steps_of(case.splitn(3, '\n').nth(2).unwrap()));
    let want = answer_here(&case);
    for set in 0..SETS.len() {
        if !has(set, t) {
            continue;
        }
        let failed = path(set).with_extension("failed");
        if failed.exists() {
            let log = std::fs::read_to_string(failed).unwrap_or_default();
            return fail(desc, format!("with features `{}` the library does not compile:\n{}", SETS[set], log));
        }
        let got = RUNNING.with(|r| {
            let mut r = r.borrow_mut();
            let got = r.entry(set).or_insert_with(|| Variant::new(set)).answer(&case);
            if got.is_none() {
                r.remove(&set);
            }
            got
        });
        match got {
            None => return fail(desc, format!("with features `{}` the program ended", SETS[set])),
            Some(got) if got != want => {
                let (mut a, mut b) = (want.lines(), got.lines());
                loop {
                    let (x, y) = (a.next(), b.next());
                    if x != y {
                        return fail(desc, format!("with all features {:?}, with `{}` {:?}", x, SETS[set], y));
                    }
                }
            }
            Some(_) => {}
        }
    }
    // Something has a value
    let valued = want.lines().zip(case.lines().skip(2)).any(|(w, c)| "et".contains(&c[..1]) && !w.starts_with("error"));
    let class = if want.contains("error") { "with an error" } else { "values only" };
    ok(desc, valued, class)
}

fn answer_here(case: &str) -> String {
    guard(|| answer(case)).unwrap_or_else(|e| format!("outside of a step: {}", e))
}

/// The type of `cli`'s generators for one of here.
fn like(t: usize) -> usize {
    [2, 2, 1, 1, 1, 0, 3, 4][t]
}

fn flags(g: &mut Gen, t: usize) -> u32 {
    g.below(4) as u32 | if t == 6 && !g.chance(10) { 4 } else { 0 }
}

thread_local! {
    static NAMES: RefCell<BTreeMap<usize, Vec<String>>> = const { RefCell::new(BTreeMap::new()) };
}

/// The functions of a type's context, but those that are random.
fn functions(t: usize) -> Vec<String> {
    NAMES.with(|n| {
        let list = |t: usize| {
            let all = answer_here(&format!("{}\n0\nn", t));
            let names = all.lines().filter_map(|l| l.strip_prefix("function "));
            names.map(|l| l.split(' ').next().unwrap().to_string()).filter(|n| n != "random").collect()
        };
        n.borrow_mut().entry(t).or_insert_with(|| list(t)).clone()
    })
}

/// A number, now and then about as large as the type has.
fn value(g: &mut Gen, t: usize) -> String {
    let max: u128 = match t {
        0 => i64::MAX as u128,
        1 | 7 => i128::MAX as u128,
        5 => (1 << 96) - 1,
        _ => 1 << 53,
    };
    let mut v = match g.below(10) {
        0 => (max - g.below(3) as u128).to_string(),
        1 => (max >> g.below(100)).to_string(),
        2 if t != 0 && t != 1 && t != 7 => format!("{}.{}", max >> g.below(90), g.below(1000)),
        3 if t == 3 || t == 4 || t == 2 => format!("{}{}", 1 + g.below(9), "0".repeat(g.below(320))),
        _ => cli::number(g, like(t)),
    };
    if g.chance(30) {
        v.insert(0, '-');
    }
    v
}

/// Every function of the context, by its own name, with some arguments.
fn call_case(g: &mut Gen) -> Out {
    let t = g.below(7);
    let names = functions(t);
    let f = if names.is_empty() || g.chance(2) { "sign".to_string() } else { g.pick(&names).clone() };
    let n = [1, 1, 1, 2, 2, 3, 0, 4][g.below(8)];
    let args: Vec<String> = (0..n)
        .map(|_| value(g, t))
        .collect();
    let text = match g.below(6) {
        0 => {
            let op = *g.pick(&["+", "-", "*", "/", "mod", "^", "^"]);
            format!("{} {} {}", value(g, t), op, value(g, t))
        }
        1 if t != 6 => format!("({})!", value(g, t)),
        _ => format!("{}({})", f, args.join(", ")),
    };
    compare(t, format!("{}\n{}\ne{}\n", t, flags(g, t) & 4, text))
}

fn expression_case(g: &mut Gen) -> Out {
    let t = g.below(8);
    let text = cli::text(g, like(t), &[]);
    let text = cli::longer(g, text);
    let op = *g.pick(&["e", "e", "e", "e", "t", "r"]);
    compare(t, format!("{}\n{}\n{}{}\n", t, flags(g, t), op, text.replace('\n', " ")))
}

fn history_case(g: &mut Gen) -> Out {
    const VARS: [&str; 8] = ["x", "y", "X", "foo", "Foo", "sin", "k_1", "é"];
    const CALLS: [&str; 8] = ["one", "two", "ONE", "sin", "Max", "xor", "x", "three"];
    const OPS: [&str; 9] = ["@", "#", "plus", "one", "Plus", "+", "mod", "$", "%"];
    let t = g.below(8);
    let mut case = format!("{}\n{}\n", t, flags(g, t));
    for _ in 0..1 + g.below(12) {
        let step = match g.below(10) {
            0 | 1 => format!("s{}\t{}", g.pick(&VARS), cli::number(g, like(t))),
            2 => format!("c{}\t{}", g.pick(&VARS), cli::number(g, like(t))),
            3 => format!("g{}", if g.chance(50) { g.pick(&VARS) } else { g.pick(&CALLS) }),
            4 => {
                let kind = *g.pick(&["F", "U", "B"]);
                let mut s = format!("{}{}", kind, g.below(4));
                for _ in 0..1 + g.below(3) {
                    s.push('\t');
                    s.push_str(if kind == "F" { g.pick(&CALLS) } else { g.pick(&OPS) });
                }
                s
            }
            5 if g.chance(30) => "n".to_string(),
            5 | 6 => format!("t{}", cli::text(g, like(t), &VARS)),
            _ => {
                let op = if g.chance(15) { "r" } else { "e" };
                let mut text = cli::text(g, like(t), &VARS);
                if g.chance(25) {
                    text = format!("{}({}, {})", g.pick(&CALLS), text, g.pick(&VARS));
                } else if g.chance(25) {
                    text = format!("{} {} {}", text, g.pick(&OPS), g.pick(&VARS));
                }
                format!("{}{}", op, text)
            }
        };
        case.push_str(&step.replace('\n', " "));
        case.push('\n');
    }
    compare(t, case)
}

fn names_case(g: &mut Gen) -> Out {
    let t = g.below(8);
    // Some value, for the rule
    compare(t, format!("{}\n{}\nn\ne1\n", t, flags(g, t)))
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        rule: "Something in the case was evaluated or read to a value.",
        subs: vec![
            sub("names", 200, 4, || Box::new(names_case)),
            sub("calls", 30_000, 40, || Box::new(call_case)),
            sub("expressions", 30_000, 120, || Box::new(expression_case)),
            sub("histories", 15_000, 800, || Box::new(history_case)),
        ],
    }
}
