//! C14, C15, C16: the names of a context, case-insensitive strings, and evaluators over time.
use crate::engine::*;
use crate::integers::kind_name;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::tokenizer::Tokenizer;
use prexel::utils::ignore_case_str::{eq_ignore_case, IgnoreCaseStr};
use prexel::utils::ignore_case_string::IgnoreCaseString;
use rust_decimal::Decimal;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

//////////////////// C14 ////////////////////

type N = i64;

/// A function of any kind, which can be told from the others by its results.
struct Marked {
    id: N,
    name: &'static str,
    aliases: Vec<&'static str>,
}

impl Marked {
    fn names(&self) -> Option<&[&str]> {
        if self.aliases.is_empty() && self.id % 2 == 0 {
            None
        } else {
            Some(self.aliases.as_slice())
        }
    }
}

impl Function<N> for Marked {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.names()
    }
    fn call(&self, args: &[N]) -> prexel::Result<N> {
        Ok(self.id * 1000 + args.iter().sum::<N>())
    }
}

impl UnaryFunction<N> for Marked {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.names()
    }
    fn notation(&self) -> Notation {
        Notation::Prefix
    }
    fn call(&self, v: N) -> prexel::Result<N> {
        Ok(self.id * 1000 + 100 + v)
    }
}

impl BinaryFunction<N> for Marked {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.names()
    }
    fn precedence(&self) -> Precedence {
        Precedence(1)
    }
    fn associativity(&self) -> Associativity {
        Associativity::Left
    }
    fn call(&self, l: N, r: N) -> prexel::Result<N> {
        Ok(self.id * 1000 + l * 10 + r)
    }
}

const NAMES: [&str; 22] = [
    "foo", "Foo", "FOO", "bar", "Bar", "x", "X", "y", "foo2", "fo", "f_o", "F_O", "pi", "Pi", "x1", "X1", "\u{f1}u",
    "\u{d1}U", "\u{3c9}", "\u{3a9}", "+", "**",
];

/// Names close to each other, of some words and symbols.
fn families() -> &'static Vec<Vec<&'static str>> {
    static ALL: std::sync::OnceLock<Vec<Vec<&'static str>>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let words = ["max", "a", "ln", "total_sum", "x9", "_v", "Result", "sinh", "\u{e9}t\u{e9}", "\u{3b4}x", "abcdefghijklmnopqrstuvwxyz"];
        let mut all: Vec<Vec<String>> = Vec::new();
        for w in words {
            let mut v = vec![w.to_string(), w.to_uppercase()];
            let mut title: Vec<char> = w.chars().collect();
            title[0] = title[0].to_uppercase().next().unwrap();
            v.push(title.iter().collect());
            let last = title.len() - 1;
            title[0] = w.chars().next().unwrap();
            title[last] = title[last].to_uppercase().next().unwrap();
            v.push(title.iter().collect());
            for end in ["_", "__", "0", "1", "10", "s", "'", "\u{e9}", ".", "\u{301}"] {
                v.push(format!("{}{}", w, end));
            }
            v.push(format!("_{}", w));
            v.push(format!("a{}", w));
            v.push(format!("{}{}", w, w));
            v.push(w.chars().rev().collect());
            v.push(w.chars().skip(1).collect());
            v.push(w.chars().take(last).collect());
            v.push(w.repeat(12));
            v.push(format!("{}k", w.repeat(12)));
            all.push(v);
        }
        for w in ["<", "+", "=>", "\u{2218}", "~!"] {
            let mut v = vec![w.to_string(), format!("{}{}", w, w), format!("{}=", w), format!("={}", w), format!("{}.", w), format!("{}_", w)];
            v.push(w.repeat(9));
            v.push(w.repeat(33));
            all.push(v);
        }
        all.into_iter()
            .map(|v| {
                let mut w: Vec<&'static str> = Vec::new();
                for n in v {
                    if !n.is_empty() && !w.contains(&n.as_str()) {
                        w.push(Box::leak(n.into_boxed_str()));
                    }
                }
                w
            })
            .collect()
    })
}

fn name_pool(g: &mut Gen) -> Vec<&'static str> {
    if g.chance(50) {
        return NAMES.to_vec();
    }
    let all = families();
    let mut names: Vec<&'static str> = Vec::new();
    for _ in 0..1 + g.below(2) {
        let v = &all[g.below(all.len())];
        let at = g.below(v.len());
        for i in 0..12.min(v.len()) {
            let n = if i == 0 { v[0] } else { v[(at + i) % v.len()] };
            if !names.contains(&n) {
                names.push(n);
            }
        }
    }
    names
}
/// Only of operators.
const INVALID: [&str; 8] = ["", " ", "a b", "\t", "x ", " x", "a\u{7}b", "new\nline"];

fn is_word(n: &str) -> bool {
    n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !n.starts_with(|c: char| c.is_ascii_digit())
}

/// What a context is known to have; the names of all but the variables are in lower case.
#[derive(Clone, Default)]
struct Model {
    vars: BTreeMap<&'static str, N>,
    consts: BTreeMap<String, N>,
    /// Functions, unary and binary operators.
    funcs: [BTreeMap<String, N>; 3],
}

fn lower(s: &str) -> String {
    s.chars().flat_map(char::to_lowercase).collect()
}

impl Model {
    fn verify(&self, c: &DefaultContext<'static, N>, pool: &[&'static str]) -> Result<(), String> {
        for n in pool.iter().copied() {
            let want = self.vars.get(n);
            if c.get_variable(n) != want || c.is_variable(n) != want.is_some() {
                return Err(format!("the variable {} is {:?} but should be {:?}", n, c.get_variable(n), want));
            }
            let want = self.consts.get(&lower(n));
            if c.get_constant(n) != want || c.is_constant(n) != want.is_some() {
                return Err(format!("the constant {} is {:?} but should be {:?}", n, c.get_constant(n), want));
            }
            let got = [
                c.get_function(n).map(|f| f.call(&[1, 2]).unwrap() - 3),
                c.get_unary_function(n).map(|f| f.call(1).unwrap() - 101),
                c.get_binary_function(n).map(|f| f.call(1, 2).unwrap() - 12),
            ];
            let is = [c.is_function(n), c.is_unary_function(n), c.is_binary_function(n)];
            for k in 0..3 {
                let want = self.funcs[k].get(&lower(n)).map(|id| id * 1000);
                if got[k] != want || is[k] != want.is_some() {
                    let kind = ["function", "unary operator", "binary operator"][k];
                    return Err(format!("the {} {} is {:?} but should be {:?}", kind, n, got[k], want));
                }
            }
        }
        let mut names: Vec<&str> = c.variables().keys().map(|s| s.as_str()).collect();
        names.sort();
        if names != self.vars.keys().copied().collect::<Vec<_>>() {
            return Err(format!("the variables listed are {:?}", names));
        }
        if c.variables().iter().any(|(k, v)| self.vars.get(k.as_str()) != Some(v)) {
            return Err(format!("the variables listed are {:?}", c.variables().iter().collect::<Vec<_>>()));
        }
        let sorted = |names: Vec<String>| {
            let mut names: Vec<String> = names.iter().map(|s| lower(s)).collect();
            names.sort();
            names
        };
        let listed = [
            sorted(c.functions().keys().map(|k| k.to_string()).collect()),
            sorted(c.unary_functions().keys().map(|k| k.to_string()).collect()),
            sorted(c.binary_functions().keys().map(|k| k.to_string()).collect()),
            sorted(c.constants().keys().map(|k| k.to_string()).collect()),
        ];
        for (k, names) in listed.iter().enumerate() {
            let want: Vec<String> = if k < 3 { self.funcs[k].keys().cloned().collect() } else { self.consts.keys().cloned().collect() };
            if *names != want {
                return Err(format!("{} listed as {:?} but should be {:?}", ["functions", "unary operators", "binary operators", "constants"][k], names, want));
            }
        }
        Ok(())
    }

    /// Uses of a name in an expression.
    fn evaluate(&self, ev: &Evaluator<'static, N>, n: &'static str) -> Result<(), String> {
        if !is_word(n) {
            return Ok(());
        }
        let ev: &'static Evaluator<'static, N> = unsafe { std::mem::transmute(ev) };
        let run = |text: String, want: Option<N>| match kind_name(ev.eval(&text)) {
            r if r.as_ref().ok() == want.as_ref() => Ok(()),
            r => Err(format!("`{}` is {:?} but should be {:?}", text, r, want)),
        };
        let value = self.vars.get(n).or_else(|| self.consts.get(&lower(n))).copied();
        let calls: Vec<Option<N>> = self.funcs.iter().map(|f| f.get(&lower(n)).map(|id| id * 1000)).collect();
        if value.is_some() || calls.iter().all(|c| c.is_none()) {
            run(n.to_string(), value)?;
            run(format!("({})", n), value)?;
        }
        if value.is_none() {
            if calls[1].is_none() && calls[2].is_none() {
                run(format!("{}(7, 2)", n), calls[0].map(|v| v + 9))?;
                run(format!("{}({}(4))", n, n), calls[0].map(|v| v + v + 4))?;
            }
            if calls[0].is_none() && calls[2].is_none() {
                run(format!("{} 7", n), calls[1].map(|v| v + 107))?;
            }
            if calls[0].is_none() && calls[1].is_none() {
                run(format!("7 {} 2", n), calls[2].map(|v| v + 72))?;
            }
        }
        Ok(())
    }
}

fn history_case(g: &mut Gen) -> Out {
    let start = Evaluator::with_context(DefaultContext::<N>::with_config(Config::new()));
    let mut all: Vec<(Evaluator<'static, N>, Model)> = vec![(start, Model::default())];
    let mut log = String::new();
    let mut id = 0;
    let pool = name_pool(g);
    let steps = g.len(1, 24);
    let mut done = 0;
    for _ in 0..steps {
        let at = g.below(all.len());
        let op = g.below(12);
        let name = *g.pick(&pool);
        id += 1;
        let fails = |log: &str, e: String| fail(log.to_string(), e);
        if !log.is_empty() {
            log.push_str("; ");
        }
        match op {
            0..=2 => {
                let (ev, m) = &mut all[at];
                log.push_str(&format!("{}.set_variable({}, {})", at, name, id));
                let taken = m.consts.contains_key(&lower(name));
                let want = if taken { None } else { Some(m.vars.insert(name, id)) };
                let got = ev.mut_context().set_variable(name, id).ok();
                if got != want {
                    return fails(&log, format!("got {:?} but expected {:?}", got, want));
                }
                done += 1;
            }
            3 | 4 => {
                let (ev, m) = &mut all[at];
                log.push_str(&format!("{}.add_constant({}, {})", at, name, id));
                let taken = m.vars.keys().any(|k| lower(k) == lower(name));
                if !taken {
                    m.consts.insert(lower(name), id);
                }
                let got = ev.mut_context().add_constant(name, id).is_ok();
                if got == taken {
                    return fails(&log, format!("accepted: {}", got));
                }
                done += 1;
            }
            5..=8 => {
                let kind = g.below(3);
                let aliases: Vec<&'static str> = (0..[0, 0, 1, 2, 3][g.below(5)]).map(|_| *g.pick(&pool)).collect();
                let renamed = g.chance(40);
                let own = *g.pick(&pool);
                let f = Marked { id, name: own, aliases: aliases.clone() };
                let used = if renamed { name } else { own };
                let (ev, m) = &mut all[at];
                let kinds = ["function", "unary_function", "binary_function"][kind];
                log.push_str(&format!("{}.add_{}({}, {:?}, {})", at, kinds, used, aliases, id));
                let table = &mut m.funcs[kind];
                let names: Vec<String> = aliases.iter().chain(std::iter::once(&used)).map(|n| lower(n)).collect();
                let taken = names.iter().any(|n| table.contains_key(n));
                if !taken {
                    for n in names {
                        table.insert(n, id);
                    }
                }
                let c = ev.mut_context();
                let got = match (kind, renamed) {
                    (0, false) => c.add_function(f),
                    (0, true) => c.add_function_as(f, name),
                    (1, false) => c.add_unary_function(f),
                    (1, true) => c.add_unary_function_as(f, name),
                    (_, false) => c.add_binary_function(f),
                    (_, true) => c.add_binary_function_as(f, name),
                };
                if got.is_ok() == taken {
                    return fails(&log, format!("accepted: {}", got.is_ok()));
                }
                done += 1;
            }
            9 => {
                // Names that are never valid
                let bad = *g.pick(&INVALID);
                let kind = g.below(5);
                log.push_str(&format!("{}.add_{}({:?})", at, kind, bad));
                let c = all[at].0.mut_context();
                let f = Marked { id, name: bad, aliases: vec![] };
                let got = match kind {
                    0 => c.add_function(f).is_ok(),
                    1 => c.add_unary_function(f).is_ok(),
                    2 => c.add_binary_function(f).is_ok(),
                    3 => c.add_constant(bad, 1).is_ok(),
                    _ => c.set_variable(bad, 1).is_ok(),
                };
                if got {
                    return fails(&log, "the invalid name was accepted".into());
                }
            }
            10 if all.len() < 4 => {
                log.push_str(&format!("{}=clone of {}", all.len(), at));
                let copy = (Evaluator::with_context(all[at].0.context().clone()), all[at].1.clone());
                all.push(copy);
                done += 1;
            }
            _ => {
                log.push_str(&format!("{}.eval({})", at, name));
                let (ev, m) = &all[at];
                if let Err(e) = m.evaluate(ev, name) {
                    return fails(&log, e);
                }
            }
        }
        // All of them, as a change may reach the contexts it was cloned from or to
        for (i, (ev, m)) in all.iter().enumerate() {
            if let Err(e) = m.verify(ev.context(), &pool) {
                return fail(log, format!("context {}: {}", i, e));
            }
        }
    }
    for (i, (ev, m)) in all.iter().enumerate() {
        for n in pool.iter().copied().take(12) {
            if let Err(e) = m.evaluate(ev, n) {
                return fail(log, format!("context {}: {}", i, e));
            }
        }
    }
    ok(log, done > 2, if all.len() > 1 { "with clones" } else { "one context" })
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "Histories of up to 24 operations over up to 4 contexts, cloned from each other: variables set, constants, functions and operators of both kinds added (under their name or another, with up to 3 aliases), from pools of names that differ in letter case, by a character at an end, or share a prefix, short and long, words and symbols, invalid names, and evaluations; after each one all that every context reports is compared with a model, and at the end expressions that use the names; also with names the type could parse as a number, and with hundreds of names. Non-trivial: more than 2 operations that can change a context.",
        subs: vec![
            sub("histories", 300_000, 260, || Box::new(history_case)),
            sub("numeric-names", 60_000, 30, || Box::new(any_numeric_name)),
            sub("large", 3_000, 40, || Box::new(large_context_case)),
        ],
    }
}

/// Contexts with hundreds of names.
fn large_context_case(g: &mut Gen) -> Out {
    let n = crate::large::count(g).min(1100);
    let kinds: Vec<usize> = (0..1 + g.below(4)).map(|_| g.below(5)).collect();
    let long = if g.chance(30) { "x".repeat(crate::large::count(g).min(600)) } else { String::new() };
    let desc = format!("{} names of {} characters and more, of the kinds {:?}", n, long.len() + 3, kinds);
    let mut ev = Evaluator::with_context(DefaultContext::<N>::with_config(Config::new()));
    // The names live as long as the context
    let names: Vec<&'static str> = (0..n).map(|i| &*Box::leak(format!("n{}_{}", long, i).into_boxed_str())).collect();
    let free = || unsafe { names.iter().for_each(|n| drop(Box::from_raw(*n as *const str as *mut str))) };
    let r = guard(|| {
        for (i, name) in names.iter().copied().enumerate() {
            let c = ev.mut_context();
            let f = Marked { id: i as N * 2 + 1, name, aliases: vec![] };
            let v = i as N * 7 + 1;
            let added = match kinds[i % kinds.len()] {
                0 => c.set_variable(name, v).map(|_| ()),
                1 => c.add_constant(name, v),
                2 => c.add_function(f),
                3 => c.add_unary_function(f),
                _ => c.add_binary_function(f),
            };
            added.map_err(|e| format!("{} was not added: {}", name, e))?;
        }
        if g.chance(50) {
            let other = ev.context().clone();
            ev = Evaluator::with_context(other);
        }
        let one: &'static Evaluator<'static, N> = unsafe { std::mem::transmute(&ev) };
        let c = one.context();
        let listed = [
            c.variables().len(),
            c.constants().len(),
            c.functions().len(),
            c.unary_functions().len(),
            c.binary_functions().len(),
        ];
        for (k, got) in listed.iter().enumerate() {
            let want = (0..n).filter(|i| kinds[i % kinds.len()] == k).count();
            if *got != want {
                return Err(format!("{} names of the kind {} are listed, of {}", got, k, want));
            }
        }
        for (i, name) in names.iter().enumerate() {
            let id = i as N * 2 + 1;
            let (text, want) = match kinds[i % kinds.len()] {
                0 => (name.to_string(), i as N * 7 + 1),
                1 => (name.to_ascii_uppercase(), i as N * 7 + 1),
                2 => (format!("{}(1, 2)", name), id * 1000 + 3),
                3 => (format!("{} 5", name), id * 1000 + 105),
                _ => (format!("3 {} 4", name.to_ascii_uppercase()), id * 1000 + 34),
            };
            let got = one.eval(&text).map_err(|e| e.to_string());
            if got != Ok(want) {
                return Err(format!("`{}` is {:?} but should be {}", text, got, want));
            }
        }
        Ok(())
    });
    drop(ev);
    free();
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => fail(desc, e),
        Ok(Ok(())) => ok(desc, n > 20, "large"),
    }
}

/// A function or operator over any type, which gives the sum of a mark and its operands.
struct Adder<T> {
    name: &'static str,
    mark: T,
    postfix: bool,
}

impl<T: Clone + std::ops::Add<Output = T>> Function<T> for Adder<T> {
    fn name(&self) -> &str {
        self.name
    }
    fn call(&self, args: &[T]) -> prexel::Result<T> {
        Ok(args.iter().fold(self.mark.clone(), |a, b| a + b.clone()))
    }
}
impl<T: Clone + std::ops::Add<Output = T>> UnaryFunction<T> for Adder<T> {
    fn name(&self) -> &str {
        self.name
    }
    fn notation(&self) -> Notation {
        if self.postfix { Notation::Postfix } else { Notation::Prefix }
    }
    fn call(&self, v: T) -> prexel::Result<T> {
        Ok(self.mark.clone() + v)
    }
}
impl<T: Clone + std::ops::Add<Output = T>> BinaryFunction<T> for Adder<T> {
    fn name(&self) -> &str {
        self.name
    }
    fn precedence(&self) -> Precedence {
        Precedence(50)
    }
    fn associativity(&self) -> Associativity {
        Associativity::Left
    }
    fn call(&self, l: T, r: T) -> prexel::Result<T> {
        Ok(self.mark.clone() + l + r)
    }
}

fn has_minus<T: Clone + FromStr + Debug>(ev: &Evaluator<'static, T>) -> bool {
    ev.context().is_unary_function("-")
}

/// A name that the type of number would also parse, `inf` or `b1`, means what was added with it.
fn numeric_name_case<T>(g: &mut Gen, kind: &str, pool: &[&'static str], of: fn(i64) -> T, mut ev: Evaluator<'static, T>) -> Out
where
    T: FromStr + Debug + Clone + PartialEq + std::ops::Add<Output = T> + 'static,
{
    let name = *g.pick(pool);
    let mark = g.range(10, 500);
    let what = g.below(6);
    let c = ev.mut_context();
    let f = Adder { name, mark: of(mark), postfix: what == 5 };
    let added = match what {
        0 => c.set_variable(name, of(mark)).map(|_| ()),
        1 => c.add_constant(name, of(mark)),
        2 => c.add_function(f),
        3 => c.add_binary_function(f),
        _ => c.add_unary_function(f),
    };
    let added_as = ["variable", "constant", "function", "binary operator", "prefix operator", "postfix operator"][what];
    // Variables are the only names that are case sensitive
    let n = if what > 0 && g.chance(30) { name.to_ascii_uppercase() } else { name.to_string() };
    let x = g.range(1, 9);
    let (text, want) = match what {
        0 | 1 => match g.below(6) {
            0 => (n.clone(), mark),
            1 => (format!("({})", n), mark),
            2 => (format!("{} + v", n), mark + x),
            3 => (format!("v+{}", n), x + mark),
            4 => (format!("-{}", n), -mark),
            _ => (format!("{}+{}+v", n, n), 2 * mark + x),
        },
        2 => match g.below(3) {
            0 => (format!("{}(v)", n), mark + x),
            1 => (format!("{}(v, {} (v))", n, n), 2 * mark + 2 * x),
            _ => (format!("v + {}(v, v)", n), mark + 3 * x),
        },
        3 => match g.below(3) {
            0 => (format!("v {} v", n), mark + 2 * x),
            1 => (format!("(v) {} (-v)", n), mark),
            _ => (format!("v {} -v", n), mark),
        },
        4 => match g.below(3) {
            0 => (format!("{} v", n), mark + x),
            1 => (format!("{} (v)", n), mark + x),
            _ => (format!("v + {} v", n), mark + 2 * x),
        },
        _ => match g.below(3) {
            0 => (format!("(v) {}", n), mark + x),
            1 => (format!("v {}", n), mark + x),
            _ => (format!("v {} + v", n), mark + 2 * x),
        },
    };
    if text.contains('-') && !has_minus(&ev) {
        return discard();
    }
    let desc = format!("{} {} {} is {}, v is {}: {}", kind, added_as, name, mark, x, text);
    if let Err(e) = added {
        return fail(desc, format!("not added: {}", e));
    }
    ev.mut_context().set_variable("v", of(x)).unwrap();
    let one: &'static Evaluator<'static, T> = unsafe { std::mem::transmute(&ev) };
    match guard(|| one.eval(&text).map_err(|e| e.to_string())) {
        Ok(Ok(v)) if v == of(want) => ok(desc, true, added_as),
        r => fail(desc, format!("expected {:?} but got {:?}", of(want), r)),
    }
}

fn any_numeric_name(g: &mut Gen) -> Out {
    use prexel::binary::{binary_number_splitter, Binary};
    const FLOATS: [&str; 8] = ["inf", "nan", "NaN", "infinity", "INF", "Infinity", "Inf", "other"];
    const BITS: [&str; 5] = ["b1", "b0", "b101", "b11111111", "other"];
    match g.below(5) {
        0 => numeric_name_case::<f64>(g, "f64", &FLOATS, |v| v as f64, Evaluator::with_context(DefaultContext::new_checked())),
        1 => numeric_name_case::<f32>(g, "f32", &FLOATS, |v| v as f32, Evaluator::with_context(DefaultContext::new_checked())),
        2 => numeric_name_case::<f64>(g, "f64 unchecked", &FLOATS, |v| v as f64, Evaluator::with_context(DefaultContext::new_unchecked())),
        3 => numeric_name_case::<num_complex::Complex<f64>>(
            g,
            "complex",
            &FLOATS,
            |v| num_complex::Complex::new(v as f64, 0.0),
            Evaluator::with_context(DefaultContext::new_complex()),
        ),
        _ => numeric_name_case::<Binary>(
            g,
            "binary",
            &BITS,
            |v| Binary(v as i128),
            {
                let mut c = DefaultContext::new_binary();
                c.add_binary_function(Adder { name: "+", mark: Binary(0), postfix: false }).unwrap();
                Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(binary_number_splitter()))
            },
        ),
    }
}

//////////////////// C15 ////////////////////

fn cased_char(g: &mut Gen) -> char {
    const ODD: [char; 40] = [
        '\u{130}', 'i', '\u{307}', '\u{131}', 'I', '\u{df}', '\u{1e9e}', 's', 'S', '\u{17f}', 'k', 'K', '\u{212a}',
        '\u{e5}', '\u{212b}', '\u{c5}', '\u{3c3}', '\u{3c2}', '\u{3a3}', '\u{3a9}', '\u{2126}', '\u{3c9}', '\u{fb01}',
        'f', '\u{1c4}', '\u{1c5}', '\u{1c6}', '\u{10400}', '\u{10428}', '\u{e9}', '\u{c9}', 'e', '\u{301}', '_', '0',
        '[', '`', '@', '{', 'Z',
    ];
    match g.below(3) {
        0 => *g.pick(&['a', 'A', 'b', 'B', 'z', 'Z', '_', '1']),
        1 => *g.pick(&ODD),
        _ => char::from_u32(g.below(0x2200) as u32).unwrap_or('x'),
    }
}

fn text(g: &mut Gen) -> String {
    (0..g.len(0, 7)).map(|_| cased_char(g)).collect()
}

/// Another text, often one which only differs in case.
fn variant(g: &mut Gen, s: &str) -> String {
    match g.below(6) {
        0 => text(g),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        3 => {
            let mut t: Vec<char> = s.chars().collect();
            if !t.is_empty() {
                let i = g.below(t.len());
                t[i] = cased_char(g);
            }
            t.into_iter().collect()
        }
        4 => s.chars().take(g.below(8)).collect(),
        _ => s
            .chars()
            .map(|c| {
                let other: Vec<char> = if g.chance(50) { c.to_lowercase().collect() } else { c.to_uppercase().collect() };
                if other.len() == 1 && g.chance(60) {
                    other[0]
                } else {
                    c
                }
            })
            .collect(),
    }
}

fn hash_of<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Equality of each character in lower case.
fn same(a: &str, b: &str) -> bool {
    let low = |s: &str| s.chars().map(|c| c.to_lowercase().collect::<String>()).collect::<Vec<_>>();
    low(a) == low(b)
}

fn laws_case(g: &mut Gen) -> Out {
    let a = text(g);
    let b = variant(g, &a);
    let c = variant(g, &b);
    let desc = format!("{:?} {:?} {:?}", a, b, c);
    laws(a, b, c, desc)
}

/// The same of long texts, where most is equal.
fn long_laws_case(g: &mut Gen) -> Out {
    let n = crate::large::count(g);
    let part = text(g);
    let other = swap_case(&part);
    let ends = [text(g), text(g)];
    let at = g.below(3);
    let make = |g: &mut Gen| {
        let middle = if g.chance(50) { &part } else { &other }.repeat(n);
        let e = if g.chance(50) { ends[0].clone() } else { variant(g, &ends[0]) };
        match at {
            0 => format!("{}{}", e, middle),
            1 => format!("{}{}", middle, e),
            _ => format!("{}{}{}", middle, e, variant(g, &ends[1])),
        }
    };
    let (a, b, c) = (make(g), make(g), make(g));
    let short = |s: &str| crate::large::shorten(s, s.len());
    let desc = format!("{:?} {:?} {:?}", short(&a), short(&b), short(&c));
    laws(a, b, c, desc)
}

/// Only of letters whose cases are one character.
fn swap_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

fn laws(a: String, b: String, c: String, desc: String) -> Out {
    let texts = [a.as_str(), b.as_str(), c.as_str()];
    let equal = |i: usize, j: usize| same(texts[i], texts[j]);
    let strs: Vec<IgnoreCaseStr> = texts.iter().map(|s| IgnoreCaseStr::new(s)).collect();
    let strings: Vec<IgnoreCaseString> = texts.iter().map(|s| IgnoreCaseString::from(*s)).collect();
    for i in 0..3 {
        let (x, y) = (&strs[i], &strings[i]);
        if x.as_str() != texts[i] || y.as_str() != texts[i] || x.to_string() != texts[i] || y.to_string() != texts[i] || y.clone().into_inner() != texts[i] || x.into_inner() != texts[i] || x.len() != texts[i].len() || y.len() != texts[i].len() {
            return fail(desc, "the text is not kept");
        }
        for j in 0..3 {
            let want = equal(i, j);
            if (strs[i] == strs[j]) != want || (strings[i] == strings[j]) != want || eq_ignore_case(texts[i], texts[j]) != want {
                return fail(desc, format!("equality of {} and {}: {} {} {}", i, j, strs[i] == strs[j], strings[i] == strings[j], eq_ignore_case(texts[i], texts[j])));
            }
            if want && (hash_of(&strs[i]) != hash_of(&strs[j]) || hash_of(&strings[i]) != hash_of(&strings[j])) {
                return fail(desc, format!("{} and {} are equal but have different hashes", i, j));
            }
            let o = strs[i].cmp(&strs[j]);
            if (o == Ordering::Equal) != want || strs[j].cmp(&strs[i]) != o.reverse() || strs[i].partial_cmp(&strs[j]) != Some(o) || strings[i].cmp(&strings[j]) != o || strings[i].partial_cmp(&strings[j]) != Some(o) {
                return fail(desc, format!("order of {} and {}", i, j));
            }
            for k in 0..3 {
                if o != Ordering::Greater && strs[j] <= strs[k] && strs[i] > strs[k] {
                    return fail(desc, "the order is not transitive");
                }
            }
        }
    }
    // As keys
    let mut map = HashMap::new();
    let mut tree = BTreeMap::new();
    let mut want: Vec<(usize, usize)> = Vec::new();
    for (i, s) in strings.iter().enumerate() {
        map.insert(s.clone(), i);
        tree.insert(s.clone(), i);
        match want.iter_mut().find(|(k, _)| equal(*k, i)) {
            Some(e) => e.1 = i,
            None => want.push((i, i)),
        }
    }
    if map.len() != want.len() || tree.len() != want.len() {
        return fail(desc, format!("{} and {} keys instead of {}", map.len(), tree.len(), want.len()));
    }
    for (k, v) in want {
        if map.get(&strings[k]) != Some(&v) || tree.get(&strings[k]) != Some(&v) {
            return fail(desc, format!("the key {} has {:?} and {:?} instead of {}", k, map.get(&strings[k]), tree.get(&strings[k]), v));
        }
    }
    ok(desc, a != b && equal(0, 1), if equal(0, 1) { "equal" } else { "different" })
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "Triples of texts of up to 7 characters, most of them the same with other letter cases or one character changed, with characters whose cases are irregular; equality against the lower case of each character, the laws of equality, order and hashes, for both types, and their use as keys; also of hundreds of characters. Non-trivial: two different texts that are equal.",
        subs: vec![
            sub("laws", 1_500_000, 40, || Box::new(laws_case)),
            sub("long", 15_000, 80, || Box::new(long_laws_case)),
        ],
    }
}

//////////////////// C16 ////////////////////

/// Expressions of any context, most of them valid, over the variables u, v and w.
fn phrase(g: &mut Gen) -> String {
    const PARTS: [&str; 40] = [
        "1", "2", "3", "10", "0", "u", "v", "w", "U", "PI", "sum(1, 2, 3)", "max(u, v)", "min(1, 2)", "avg(2, 4)", "sqrt(16)",
        "(1 + 2)", "(u)", "(v * 2)", "-1", "-u", "-(2)", "5!", "3!", "nope", "sum()", "max(1)", "(1", ")", "1 2", "product(u, 2)",
        "sum(sum(1), u)", "product(sum(1,1), sum(2,2))", "sin(30)", "ln(0)", "1/0", "sum(u,,v)", "", "u v", "2 mod 0", "20!",
    ];
    const OPS: [&str; 9] = [" + ", "-", " * ", "/", " ^ ", " mod ", "+", "*", " "];
    let mut s = g.pick(&PARTS).to_string();
    for _ in 0..g.len(0, 3) {
        s.push_str(g.pick::<&str>(&OPS));
        s.push_str(g.pick::<&str>(&PARTS));
    }
    s
}

fn shown<T: Debug>(r: prexel::Result<T>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(e) => format!("{:?} {}", e.kind(), e),
    }
}

fn purity_case<T>(g: &mut Gen, kind: &str, make: fn() -> DefaultContext<'static, T>, values: &[&str]) -> Out
where
    T: FromStr + Debug + Clone + PartialEq + 'static,
    T::Err: Debug,
{
    let value = |s: &str| s.parse::<T>().unwrap();
    let pool: Vec<String> = (0..2 + g.below(4)).map(|_| phrase(g)).collect();
    let names = ["u", "v", "w", "U"];
    let mut log = kind.to_string();
    let mut ev = Evaluator::with_context(make());
    let mut vars: Vec<Option<&str>> = vec![None; 4];
    let steps = g.len(2, 16);
    let mut evals = 0;
    let mut errors = 0;
    for _ in 0..steps {
        if g.chance(25) {
            let i = g.below(4);
            let v = *g.pick(values);
            log.push_str(&format!("; {}={}", names[i], v));
            let old = ev.mut_context().set_variable(names[i], value(v));
            if old.ok() != Some(vars[i].map(value)) {
                return fail(log, "the variable had another value");
            }
            vars[i] = Some(v);
            continue;
        }
        let text = g.pick(&pool).as_str();
        log.push_str(&format!("; {}", text));
        // What it is without a history
        let mut fresh = Evaluator::with_context(make());
        for (n, v) in names.iter().zip(&vars) {
            if let Some(v) = v {
                fresh.mut_context().set_variable(n, value(v)).unwrap();
            }
        }
        let one: &'static Evaluator<'static, T> = unsafe { std::mem::transmute(&ev) };
        let two: &'static Evaluator<'static, T> = unsafe { std::mem::transmute(&fresh) };
        let got = match guard(|| {
            let by_tokens = match Tokenizer::new().tokenize(one.context(), text) {
                Ok(tokens) => one.eval_tokens(&tokens),
                Err(e) => Err(e),
            };
            [shown(one.eval(text)), shown(two.eval(text)), shown(by_tokens), shown(one.eval(text))]
        }) {
            Ok(r) => r,
            Err(p) => return fail(log, format!("panicked: {}", p)),
        };
        if got.iter().any(|r| *r != got[1]) {
            return fail(log, format!("got {} and again {}, by its tokens {}, and {} without a history", got[0], got[3], got[2], got[1]));
        }
        evals += 1;
        errors += one.eval(text).is_err() as usize;
        for (n, v) in names.iter().zip(&vars) {
            if ev.context().get_variable(n) != v.map(value).as_ref() {
                return fail(log, format!("the variable {} changed to {:?}", n, ev.context().get_variable(n)));
            }
        }
        if ev.context().variables().len() != vars.iter().filter(|v| v.is_some()).count() {
            return fail(log, "variables appeared");
        }
    }
    ok(log, evals > 1, if errors > 0 { "with errors" } else { "without errors" })
}

/// A few expressions, evaluated in turn hundreds of times.
fn long_case<T>(g: &mut Gen, kind: &str, make: fn() -> DefaultContext<'static, T>, values: &[&str]) -> Out
where
    T: FromStr + Debug + Clone + PartialEq + 'static,
    T::Err: Debug,
{
    let n = crate::large::count(g);
    let mut ev = Evaluator::with_context(make());
    for name in ["u", "v"] {
        ev.mut_context().set_variable(name, g.pick(values).parse().unwrap()).unwrap();
    }
    let pool: Vec<String> = (0..1 + g.below(4)).map(|_| phrase(g)).collect();
    let desc = format!("{} {:?} {} times", kind, pool, n);
    let copy = Evaluator::with_context(ev.context().clone());
    let (one, other): (&'static Evaluator<'static, T>, &'static Evaluator<'static, T>) =
        unsafe { (std::mem::transmute(&ev), std::mem::transmute(&copy)) };
    let r = guard(|| {
        let first: Vec<String> = pool.iter().map(|t| shown(other.eval(t))).collect();
        for i in 0..n {
            let k = i % pool.len();
            let got = shown(one.eval(&pool[k]));
            if got != first[k] {
                return Err(format!("the evaluation {} gives {} and not {}", i, got, first[k]));
            }
        }
        Ok(first)
    });
    match r {
        Err(p) => fail(desc, format!("panicked: {}", p)),
        Ok(Err(e)) => fail(desc, e),
        Ok(Ok(_)) => ok(desc, n > 20, "long"),
    }
}

fn any_long(g: &mut Gen) -> Out {
    const INTS: [&str; 6] = ["0", "1", "-3", "7", "100", "-9223372036854775808"];
    const REALS: [&str; 6] = ["0", "1", "-3.5", "0.25", "90", "1000000"];
    match g.below(5) {
        0 => long_case::<i64>(g, "i64", DefaultContext::new_checked, &INTS),
        1 => long_case::<f64>(g, "f64", DefaultContext::new_checked, &REALS),
        2 => long_case::<f64>(g, "f64 unchecked", DefaultContext::new_unchecked, &REALS),
        3 => long_case::<Decimal>(g, "decimal", DefaultContext::new_decimal, &REALS),
        _ => long_case::<num_complex::Complex<f64>>(g, "complex", DefaultContext::new_complex, &["0", "1", "2i", "-1+3i", "0.5"]),
    }
}

fn any_purity(g: &mut Gen) -> Out {
    const INTS: [&str; 6] = ["0", "1", "-3", "7", "100", "-9223372036854775808"];
    const REALS: [&str; 6] = ["0", "1", "-3.5", "0.25", "90", "1000000"];
    match g.below(6) {
        0 => purity_case::<i64>(g, "i64", DefaultContext::new_checked, &INTS),
        1 => purity_case::<f64>(g, "f64", DefaultContext::new_checked, &REALS),
        2 => purity_case::<f64>(g, "f64 unchecked", DefaultContext::new_unchecked, &REALS),
        3 => purity_case::<Decimal>(g, "decimal", DefaultContext::new_decimal, &REALS),
        4 => purity_case::<num_complex::Complex<f64>>(g, "complex", DefaultContext::new_complex, &["0", "1", "2i", "-1+3i", "0.5"]),
        _ => purity_case::<f64>(
            g,
            "f64 with implicit multiplication",
            || DefaultContext::with_config_checked(Config::new().with_implicit_mul(true)),
            &REALS,
        ),
    }
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "Histories of up to 16 steps over an evaluator (integers, floats, decimals, complex, implicit multiplication): a variable set, or one of a few expressions evaluated, many of them malformed or failing, as text and as tokens, twice; each against a new evaluator with the same variables, and the variables as they were; and histories of hundreds of evaluations by one evaluator. Non-trivial: at least two evaluations.",
        subs: vec![
            sub("histories", 200_000, 120, || Box::new(any_purity)),
            sub("long", 4_000, 80, || Box::new(any_long)),
        ],
    }
}
