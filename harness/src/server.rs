//! C22 and C24: the server, as a process that is sent requests over the loopback network.
use crate::engine::*;
use prexel_019::binary::{binary_number_splitter, Binary};
use prexel_019::complex::Complex;
use prexel_019::context::{Config, Context, DefaultContext, Grouping};
use prexel_019::decimal::Decimal;
use prexel_019::evaluator::Evaluator;
use prexel_019::tokenizer::Tokenizer;
use std::io::{Read, Write};
use std::net::{Ipv4Addr, TcpListener, TcpStream};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::str::FromStr;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const TYPES: [&str; 5] = ["decimal", "float", "integer", "complex", "binary"];

//////////////////// The process ////////////////////

static SERVER: Mutex<Option<(Child, u16)>> = Mutex::new(None);

fn error(s: impl std::fmt::Display) -> ! {
    println!("ERROR: {}", s);
    std::process::exit(2);
}

fn launch() -> (Child, u16) {
    let root = std::env::var("PBT_ROOT").unwrap_or_else(|_| "/verif".to_string());
    let path = PathBuf::from(root).join("target/apps/debug/prexel-server");
    for _ in 0..20 {
        let port = TcpListener::bind("0.0.0.0:0").unwrap().local_addr().unwrap().port();
        let (sender, receiver) = std::sync::mpsc::channel();
        let path = path.clone();
        // The server ends with this thread, which lasts as long as the process
        std::thread::spawn(move || {
            let mut c = Command::new(&path);
            c.env("PORT", port.to_string()).env("RUST_LOG", "off");
            c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            unsafe {
                c.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            match c.spawn() {
                Ok(child) => sender.send(child).unwrap(),
                Err(e) => error(format!("cannot run {}: {}", path.display(), e)),
            }
            loop {
                std::thread::sleep(Duration::from_secs(1000));
            }
        });
        let mut child = receiver.recv().unwrap();
        let from = Instant::now();
        while child.try_wait().unwrap().is_none() {
            if TcpStream::connect(("127.0.0.1", port)).is_ok() {
                return (child, port);
            }
            if from.elapsed() > Duration::from_secs(60) {
                let _ = child.kill();
                let _ = child.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    error("the server does not start")
}

fn port() -> u16 {
    let mut s = SERVER.lock().unwrap_or_else(|e| e.into_inner());
    if let Some((child, port)) = s.as_mut() {
        if child.try_wait().unwrap().is_none() {
            return *port;
        }
    }
    *s = Some(launch());
    s.as_ref().unwrap().1
}

//////////////////// Connections ////////////////////

static CLIENTS: AtomicU32 = AtomicU32::new(1);

/// A client, which has an address no other one had.
struct Client {
    stream: TcpStream,
    rest: Vec<u8>,
}

#[derive(Debug, Clone)]
struct Reply {
    status: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}

impl Reply {
    fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
    fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).to_string()
    }
}

impl Client {
    fn new() -> Client {
        let port = port();
        let n = CLIENTS.fetch_add(1, Ordering::Relaxed);
        let ip = Ipv4Addr::new(127, 1 + (n >> 16) as u8 % 250, (n >> 8) as u8, n as u8);
        unsafe {
            let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
            if fd < 0 {
                error("no socket");
            }
            let address = |ip: Ipv4Addr, port: u16| libc::sockaddr_in {
                sin_family: libc::AF_INET as u16,
                sin_port: port.to_be(),
                sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(ip.octets()) },
                sin_zero: [0; 8],
            };
            let size = std::mem::size_of::<libc::sockaddr_in>() as u32;
            let (from, to) = (address(ip, 0), address(Ipv4Addr::LOCALHOST, port));
            if libc::bind(fd, &from as *const _ as *const libc::sockaddr, size) != 0 {
                error("cannot use a loopback address");
            }
            // No port is left waiting for the end of a connection
            let linger = libc::linger { l_onoff: 1, l_linger: 0 };
            let s = std::mem::size_of::<libc::linger>() as u32;
            libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_LINGER, &linger as *const _ as *const libc::c_void, s);
            if libc::connect(fd, &to as *const _ as *const libc::sockaddr, size) != 0 {
                error("cannot connect to the server");
            }
            let stream = TcpStream::from_raw_fd(fd);
            stream.set_nodelay(true).unwrap();
            stream.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
            let _ = stream.as_raw_fd();
            Client { stream, rest: Vec::new() }
        }
    }

    fn send(&mut self, data: &[u8]) -> Result<(), String> {
        self.stream.write_all(data).map_err(|e| format!("could not send the request: {}", e))
    }

    fn receive(&mut self) -> Result<Reply, String> {
        let mut chunk = [0u8; 16384];
        let mut more = |rest: &mut Vec<u8>, s: &mut TcpStream| match s.read(&mut chunk) {
            Ok(0) => Err("the connection was closed without an answer".to_string()),
            Ok(n) => {
                rest.extend_from_slice(&chunk[..n]);
                Ok(())
            }
            Err(e) => Err(format!("no answer: {}", e)),
        };
        let end = loop {
            if let Some(i) = self.rest.windows(4).position(|w| w == b"\r\n\r\n") {
                break i;
            }
            more(&mut self.rest, &mut self.stream)?;
        };
        let head = String::from_utf8_lossy(&self.rest[..end]).to_string();
        let mut lines = head.split("\r\n");
        let status = lines.next().unwrap_or("").split(' ').nth(1).and_then(|s| s.parse().ok());
        let status = status.ok_or_else(|| format!("not an answer: {}", head))?;
        let headers: Vec<(String, String)> = lines
            .filter_map(|l| l.split_once(':'))
            .map(|(n, v)| (n.trim().to_string(), v.trim().to_string()))
            .collect();
        let mut r = Reply { status, headers, body: vec![] };
        let rest = self.rest.split_off(end + 4);
        self.rest = rest;
        if r.header("transfer-encoding").map_or(false, |v| v.eq_ignore_ascii_case("chunked")) {
            loop {
                let line = loop {
                    if let Some(i) = self.rest.windows(2).position(|w| w == b"\r\n") {
                        break i;
                    }
                    more(&mut self.rest, &mut self.stream)?;
                };
                let size = String::from_utf8_lossy(&self.rest[..line]).to_string();
                let size = usize::from_str_radix(size.split(';').next().unwrap().trim(), 16)
                    .map_err(|_| "not a chunk".to_string())?;
                while self.rest.len() < line + 2 + size + 2 {
                    more(&mut self.rest, &mut self.stream)?;
                }
                r.body.extend_from_slice(&self.rest[line + 2..line + 2 + size]);
                let rest = self.rest.split_off(line + 2 + size + 2);
                self.rest = rest;
                if size == 0 {
                    break;
                }
            }
        } else if let Some(n) = r.header("content-length") {
            let n: usize = n.parse().map_err(|_| "not a length".to_string())?;
            while self.rest.len() < n {
                more(&mut self.rest, &mut self.stream)?;
            }
            let rest = self.rest.split_off(n);
            r.body = std::mem::replace(&mut self.rest, rest);
        }
        Ok(r)
    }
}

//////////////////// JSON ////////////////////

#[derive(Debug, Clone, PartialEq)]
enum Json {
    Null,
    Bool(bool),
    Number(String),
    Text(String),
    List(Vec<Json>),
    Object(Vec<(String, Json)>),
}

fn quote(g: &mut Gen, s: &str, out: &mut String) {
    out.push('"');
    let escapes = g.chance(10);
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 32 || (escapes && g.chance(30)) => {
                let mut units = [0u16; 2];
                for u in c.encode_utf16(&mut units) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl Json {
    fn write(&self, g: &mut Gen, out: &mut String) {
        let gap = |g: &mut Gen, out: &mut String| {
            if g.chance(6) {
                out.push_str(g.pick(&[" ", "\n", "\t", "  "]));
            }
        };
        gap(g, out);
        match self {
            Json::Null => out.push_str("null"),
            Json::Bool(b) => out.push_str(&b.to_string()),
            Json::Number(n) => out.push_str(n),
            Json::Text(s) => quote(g, s, out),
            Json::List(all) => {
                out.push('[');
                for (i, v) in all.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    v.write(g, out);
                }
                out.push(']');
            }
            Json::Object(all) => {
                out.push('{');
                for (i, (k, v)) in all.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    gap(g, out);
                    quote(g, k, out);
                    gap(g, out);
                    out.push(':');
                    v.write(g, out);
                }
                out.push('}');
            }
        }
        gap(g, out);
    }

    fn get(&self, name: &str) -> Option<&Json> {
        match self {
            Json::Object(all) => all.iter().find(|(k, _)| k == name).map(|(_, v)| v),
            _ => None,
        }
    }

    fn parse(s: &str) -> Option<Json> {
        let chars: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = parse_value(&chars, &mut i)?;
        skip(&chars, &mut i);
        (i == chars.len()).then_some(v)
    }
}

fn skip(s: &[char], i: &mut usize) {
    while *i < s.len() && " \t\r\n".contains(s[*i]) {
        *i += 1;
    }
}

fn parse_text(s: &[char], i: &mut usize) -> Option<String> {
    if s.get(*i) != Some(&'"') {
        return None;
    }
    *i += 1;
    let mut units: Vec<u16> = Vec::new();
    loop {
        let c = *s.get(*i)?;
        *i += 1;
        match c {
            '"' => return String::from_utf16(&units).ok(),
            '\\' => {
                let c = *s.get(*i)?;
                *i += 1;
                units.push(match c {
                    'n' => 10,
                    't' => 9,
                    'r' => 13,
                    'b' => 8,
                    'f' => 12,
                    'u' => {
                        let hex: String = s.get(*i..*i + 4)?.iter().collect();
                        *i += 4;
                        u16::from_str_radix(&hex, 16).ok()?
                    }
                    '"' | '\\' | '/' => c as u16,
                    _ => return None,
                });
            }
            c if (c as u32) < 32 => return None,
            c => units.extend_from_slice(c.encode_utf16(&mut [0; 2])),
        }
    }
}

fn parse_value(s: &[char], i: &mut usize) -> Option<Json> {
    skip(s, i);
    match s.get(*i)? {
        '"' => parse_text(s, i).map(Json::Text),
        '[' | '{' => {
            let object = s[*i] == '{';
            let close = if object { '}' } else { ']' };
            *i += 1;
            let (mut list, mut fields) = (vec![], vec![]);
            skip(s, i);
            if s.get(*i) == Some(&close) {
                *i += 1;
            } else {
                loop {
                    if object {
                        skip(s, i);
                        let k = parse_text(s, i)?;
                        skip(s, i);
                        if s.get(*i) != Some(&':') {
                            return None;
                        }
                        *i += 1;
                        fields.push((k, parse_value(s, i)?));
                    } else {
                        list.push(parse_value(s, i)?);
                    }
                    skip(s, i);
                    let c = *s.get(*i)?;
                    *i += 1;
                    if c == close {
                        break;
                    }
                    if c != ',' {
                        return None;
                    }
                }
            }
            Some(if object { Json::Object(fields) } else { Json::List(list) })
        }
        _ => {
            let from = *i;
            while *i < s.len() && (s[*i].is_ascii_alphanumeric() || "+-.".contains(s[*i])) {
                *i += 1;
            }
            let word: String = s[from..*i].iter().collect();
            match word.as_str() {
                "null" => Some(Json::Null),
                "true" => Some(Json::Bool(true)),
                "false" => Some(Json::Bool(false)),
                w => w.parse::<f64>().ok().map(|_| Json::Number(word.clone())),
            }
        }
    }
}

//////////////////// What the library gives ////////////////////

/// The version of the library the server is made with.
trait Kind: FromStr + Clone + std::fmt::Display + std::fmt::Debug + 'static {
    fn context(c: Config) -> DefaultContext<'static, Self>;
    fn read(s: &str) -> Result<Self, String>;
    fn tokenizer() -> Tokenizer<'static, Self> {
        Tokenizer::new()
    }
}

fn show<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

impl Kind for Decimal {
    fn context(c: Config) -> DefaultContext<'static, Self> {
        DefaultContext::with_config_decimal(c)
    }
    fn read(s: &str) -> Result<Self, String> {
        show(Decimal::from_str(s))
    }
}
impl Kind for f64 {
    fn context(c: Config) -> DefaultContext<'static, Self> {
        DefaultContext::with_config_checked(c)
    }
    fn read(s: &str) -> Result<Self, String> {
        show(f64::from_str(s))
    }
}
impl Kind for i128 {
    fn context(c: Config) -> DefaultContext<'static, Self> {
        DefaultContext::with_config_checked(c)
    }
    fn read(s: &str) -> Result<Self, String> {
        show(i128::from_str(s))
    }
}
impl Kind for Complex<f64> {
    fn context(c: Config) -> DefaultContext<'static, Self> {
        DefaultContext::with_config_complex(c.with_complex_number(true))
    }
    fn read(s: &str) -> Result<Self, String> {
        show(Complex::from_str(s))
    }
}
impl Kind for Binary {
    fn context(c: Config) -> DefaultContext<'static, Self> {
        DefaultContext::with_config_binary(c)
    }
    fn read(s: &str) -> Result<Self, String> {
        show(i128::from_str(s)).map(Binary)
    }
    fn tokenizer() -> Tokenizer<'static, Self> {
        Tokenizer::with_splitter(binary_number_splitter())
    }
}

macro_rules! by_type {
    ($t:expr, $f:ident ( $($a:expr),* )) => {
        match $t {
            0 => $f::<Decimal>($($a),*),
            1 => $f::<f64>($($a),*),
            2 => $f::<i128>($($a),*),
            3 => $f::<Complex<f64>>($($a),*),
            _ => $f::<Binary>($($a),*),
        }
    };
}

/// The values that may be given, in fact one, or the errors of all variables at fault. `None` if it panics.
fn library<N: Kind>(text: &str, vars: &[(String, String)]) -> Option<Vec<Result<String, String>>> {
    guard(|| {
        let config = Config::default()
            .with_grouping(Grouping::Parenthesis)
            .with_grouping(Grouping::Bracket)
            .with_implicit_mul(true);
        let mut context = N::context(config);
        let mut errors = Vec::new();
        for (name, value) in vars {
            let r = N::read(value).and_then(|v| show(context.set_variable(name, v)));
            if let Err(e) = r {
                errors.push(Err(e));
            }
        }
        if !errors.is_empty() {
            return errors;
        }
        let ev = Evaluator::with_context_and_tokenizer(context, N::tokenizer());
        let r = ev.eval(text).map(|v| v.to_string()).map_err(|e| e.to_string());
        vec![r]
    })
    .ok()
}

//////////////////// Requests ////////////////////

fn number(g: &mut Gen, t: usize) -> String {
    match (t, g.below(6)) {
        (4, 0..=3) => format!("b{:b}", g.below(300)),
        (4, _) => g.below(200).to_string(),
        (3, 0 | 1) => format!("{}i", g.below(20)),
        (_, 0..=2) => g.below(12).to_string(),
        (2, _) => g.below(100_000).to_string(),
        (_, 3) => format!("{}.{}", g.below(100), g.below(1000)),
        _ => (g.below(13) * 30).to_string(),
    }
}

const NAMES: [&str; 7] = ["x", "y", "abc", "X", "a_1", "n2", "é"];

/// Only what is known to end in the version of the library the server has.
fn expression(g: &mut Gen, t: usize, names: &[String], depth: usize, out: &mut Vec<String>) {
    const OPS: [&str; 6] = ["+", "-", "*", "/", "mod", "^"];
    const BITS: [&str; 9] = ["&", "|", "^", "<<", ">>", "and", "or", "xor", "shl"];
    const CALLS: [&str; 7] = ["sum", "avg", "max", "min", "product", "floor", "abs"];
    const ANGLES: [&str; 10] =
        ["sin", "cos", "tan", "atan", "sqrt", "ln", "exp", "to_degrees", "signum", "round"];
    for i in 0..1 + [0, 0, 1, 1, 2, 3][g.below(6)] {
        let mut small = false;
        if i > 0 {
            let op = if t == 4 { *g.pick(&BITS) } else { *g.pick(&OPS) };
            small = op == "^" && t != 4 || op == "<<" || op == ">>" || op == "shl";
            out.push(op.into());
        }
        if small {
            out.push(if t == 4 { format!("b{:b}", g.below(9)) } else { g.below(5).to_string() });
            continue;
        }
        if g.chance(15) {
            out.push(if t == 4 { ["~", "not"][g.below(2)] } else { ["-", "+"][g.below(2)] }.into());
        }
        match g.below(10) {
            0..=3 => out.push(number(g, t)),
            4..=5 if !names.is_empty() => {
                if t != 4 && g.chance(15) {
                    out.push(number(g, t));
                }
                out.push(g.pick(names).clone())
            }
            6 if t != 4 => out.push(["PI", "E", "pi", "e"][g.below(4)].into()),
            7 if depth < 3 => {
                if t != 4 && g.chance(25) {
                    out.push(number(g, t));
                }
                let (a, b) = *g.pick(&[("(", ")"), ("(", ")"), ("[", "]")]);
                out.push(a.into());
                expression(g, t, names, depth + 1, out);
                out.push(b.into());
            }
            8 if depth < 3 && t != 4 => {
                let many = t != 1 && t != 3 || g.chance(50);
                out.push(if many { *g.pick(&CALLS) } else { *g.pick(&ANGLES) }.into());
                out.push("(".into());
                for i in 0..if many { 1 + g.below(4) } else { 1 } {
                    if i > 0 {
                        out.push(",".into());
                    }
                    expression(g, t, names, depth + 1, out);
                }
                out.push(")".into());
            }
            _ => out.push(number(g, t)),
        }
    }
}

fn text(g: &mut Gen, t: usize, names: &[String]) -> String {
    const ODD: [&str; 24] = [
        "(", ")", ",", "q", "5", "+", "*", "@", "é", "$", "#", "random2", "sin", "1.2.3", "\"", "\\", "=", "=", "==", ";",
        "?", ":", "%", "'",
    ];
    let mut all = Vec::new();
    expression(g, t, names, 0, &mut all);
    if g.chance(15) {
        let i = match g.below(5) {
            0 => 0,
            1 => all.len(),
            _ => g.below(all.len() + 1),
        };
        if g.chance(40) && i < all.len() {
            all.remove(i);
        } else {
            all.insert(i, g.pick(&ODD).to_string());
        }
    }
    // A removed piece must not make an exponent of anything
    if t != 4 {
        for i in 1..all.len() {
            if all[i - 1] == "^" && !(all[i].len() == 1 && all[i].as_bytes()[0].is_ascii_digit()) {
                all[i] = "2".into();
            }
        }
    }
    all.join(" ")
}

/// A request and what its answer must be.
struct Call {
    method: &'static str,
    path: String,
    body: Option<Vec<u8>>,
    want: Want,
    nontrivial: bool,
}

enum Want {
    /// An evaluation, as plain text if it has a value.
    Result(Vec<Result<String, String>>, bool),
    /// A bad request, with an error that names this.
    Bad(&'static str, Option<String>),
    List(usize, usize),
    /// No such thing.
    Missing,
}

fn variable(g: &mut Gen, t: usize) -> (Json, String) {
    match g.below(10) {
        0..=3 => {
            let n = g.below(1000);
            (Json::Number(n.to_string()), n.to_string())
        }
        4 => (Json::Number(format!("-{}", g.below(100) + 1)), format!("-{}", 0)),
        5 => (Json::Number(format!("{}.{}", g.below(100), 1 + g.below(9))), String::new()),
        6 => (Json::Number(format!("{}e{}", 1 + g.below(99), g.below(20))), String::new()),
        7 if g.chance(30) => {
            let s = ["", " 1", "one", "1.2.3", "--1", "0x10", "NaN", "b101", "1e5", "+4", "½"][g.below(11)];
            (Json::Text(s.to_string()), s.to_string())
        }
        _ => {
            let s = match t {
                2 | 4 => format!("{}{}", ["", "-"][g.below(2)], g.u64() as i128 * if g.chance(20) { 1 << 40 } else { 1 }),
                3 => format!("{}{}{}i", g.below(30), ["+", "-"][g.below(2)], g.below(20)),
                _ => format!("{}{}.{}", ["", "-"][g.below(2)], g.below(1000), g.below(1000)),
            };
            (Json::Text(s.clone()), s)
        }
    }
}

fn eval_call(g: &mut Gen) -> Option<Call> {
    let t = g.below(5);
    let mut vars: Vec<(String, Json, String)> = Vec::new();
    for _ in 0..[0, 0, 1, 1, 2, 3][g.below(6)] {
        let name = match g.below(24) {
            0 => ["PI", "1x", "", "a b", "sin", "x+y", "_u"][g.below(7)].to_string(),
            _ => g.pick(&NAMES).to_string(),
        };
        let (json, mut value) = variable(g, t);
        if let Json::Number(n) = &json {
            value = n.parse::<f64>().unwrap().to_string();
        }
        if vars.iter().all(|v| v.0 != name) {
            vars.push((name, json, value));
        }
    }
    let names: Vec<String> = vars.iter().map(|v| v.0.clone()).collect();
    let text = text(g, t, &names);
    let text = crate::cli::longer(g, text);
    let mut fields = vec![("expression".to_string(), Json::Text(text.clone()))];
    if t != 0 || g.chance(60) {
        fields.push(("type".to_string(), Json::Text(TYPES[t].to_string())));
    } else if g.chance(50) {
        fields.push(("type".to_string(), Json::Null));
    }
    if !vars.is_empty() || g.chance(40) {
        let all = vars.iter().map(|(n, j, _)| (n.clone(), j.clone())).collect();
        fields.push(("variables".to_string(), Json::Object(all)));
    } else if g.chance(30) {
        fields.push(("variables".to_string(), Json::Null));
    }
    if g.chance(10) {
        fields.push((["extra", "Expression", "result"][g.below(3)].to_string(), Json::Bool(true)));
    }
    g.shuffle(&mut fields);
    let given: Vec<(String, String)> = vars.into_iter().map(|(n, _, v)| (n, v)).collect();
    let want = by_type!(t, library(&text, &given))?;
    let mut body = String::new();
    Json::Object(fields).write(g, &mut body);
    let mut path = ["/eval", "/eval", "/eval", "/eval/"][g.below(4)].to_string();
    let query = ["", "", "?only_result=true", "?only_result=true", "?only_result=false", "?other=1&only_result=true", "?only_result=no"][g.below(7)];
    path.push_str(query);
    let plain = query.ends_with("true");
    Some(Call { method: "POST", path, body: Some(body.into_bytes()), want: Want::Result(want, plain), nontrivial: true })
}

fn bad_call(g: &mut Gen) -> Call {
    let mut fields = vec![
        ("expression".to_string(), Json::Text("1 + 2".to_string())),
        ("type".to_string(), Json::Text(TYPES[g.below(5)].to_string())),
        ("variables".to_string(), Json::Object(vec![("x".to_string(), Json::Number("1".to_string()))])),
    ];
    let odd = |g: &mut Gen| match g.below(4) {
        0 => Json::Bool(g.chance(50)),
        1 => Json::List(vec![Json::Number("1".into())]),
        2 => Json::Number(g.below(20).to_string()),
        _ => Json::Object(vec![]),
    };
    let mut at = None;
    let mut text = String::new();
    let mut raw = None;
    match g.below(6) {
        0 => {
            fields[0].1 = if g.chance(30) { Json::Null } else { odd(g) };
            at = Some("expression".to_string());
        }
        1 => {
            fields[1].1 = match g.below(3) {
                0 => Json::Text(["Decimal", "double", "", "int", "complex "][g.below(5)].to_string()),
                _ => odd(g),
            };
            if fields[1].1 == Json::Object(vec![]) {
                fields[1].1 = Json::Bool(true);
            }
            at = Some("type".to_string());
        }
        2 => {
            let name = NAMES[g.below(6)];
            let v = match g.below(4) {
                0 => Json::Null,
                1 => Json::Bool(true),
                2 => Json::List(vec![]),
                _ => Json::Object(vec![("a".into(), Json::Null)]),
            };
            let mut all = vec![(name.to_string(), v)];
            if g.chance(50) {
                all.push(("zz".to_string(), Json::Number("2".into())));
                g.shuffle(&mut all);
            }
            fields[2].1 = Json::Object(all);
            at = Some(format!("variables.{}", name));
        }
        3 => {
            fields[2].1 = match g.below(3) {
                0 => Json::Text("x".into()),
                1 => Json::Number("1".into()),
                _ => Json::Bool(false),
            };
            at = Some("variables".to_string());
        }
        4 => {
            fields.remove(0);
            if g.chance(30) {
                fields.clear();
            }
        }
        _ => raw = Some(g.below(11)),
    }
    if at.is_some() {
        g.shuffle(&mut fields);
    }
    Json::Object(fields).write(g, &mut text);
    let mut body = text.into_bytes();
    match raw {
        Some(0) => body = b"".to_vec(),
        Some(1) => {
            // An unfinished object
            while body.pop() != Some(b'}') {}
        }
        Some(2) => body = b"nothing".to_vec(),
        Some(3) => body = b"3".to_vec(),
        Some(4) => body = vec![b'"', 0xff, 0xfe, b'"'],
        Some(5) => body = b"\"1 + 2\"".to_vec(),
        Some(6) => body = b"{expression: \"1\"}".to_vec(),
        Some(7) => body = b"{\"expression\" \"1\"}".to_vec(),
        Some(8) => {
            // More than an object
            let rest: &[u8] = [&b"x"[..], b" 1", b"}", b"\n{}", b",", b" null", b"{\"expression\":\"2\"}"][g.below(7)];
            body.extend_from_slice(rest);
        }
        Some(_) => {
            // No text, of any length
            let size = g.len(0, 300);
            let rest = vec![b' '; size];
            if g.chance(50) {
                body.extend_from_slice(&rest);
            } else {
                body.splice(1..1, rest);
            }
            let at = g.below(body.len() + 1);
            let bad: &[u8] = [&[0xff][..], &[0x80], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f, 0x98]][g.below(5)];
            body.splice(at..at, bad.iter().copied());
        }
        None => {}
    }
    let path = ["/eval", "/eval?only_result=true"][g.below(2)].to_string();
    let word = if at.is_some() { "type" } else { "" };
    Call { method: "POST", path, body: Some(body), want: Want::Bad(word, at), nontrivial: true }
}

fn list_call(g: &mut Gen) -> Call {
    let what = g.below(3);
    let mut t = g.below(5);
    let mut path = format!("/{}", ["operators", "functions", "constants"][what]);
    if g.chance(10) {
        path.push('/');
    }
    if t == 0 && g.chance(40) {
        // The default
    } else if g.chance(5) {
        path.push_str("?type=nothing");
        t = 0;
    } else {
        path.push_str("?type=");
        path.push_str(TYPES[t]);
    }
    Call { method: "GET", path, body: None, want: Want::List(what, t), nontrivial: true }
}

fn missing_call(g: &mut Gen) -> Call {
    let (method, path) = *g.pick(&[
        ("GET", "/eval"),
        ("GET", "/"),
        ("GET", "/nothing"),
        ("POST", "/functions"),
        ("POST", "/evaluate"),
        ("PUT", "/eval"),
        ("DELETE", "/constants"),
        ("GET", "/operators/decimal"),
    ]);
    let body = (method != "GET").then(|| b"{\"expression\":\"1\"}".to_vec());
    Call { method, path: path.to_string(), body, want: Want::Missing, nontrivial: false }
}

fn call(g: &mut Gen) -> Option<Call> {
    match g.below(20) {
        0..=13 => eval_call(g),
        14..=16 => Some(bad_call(g)),
        17..=18 => Some(list_call(g)),
        _ => Some(missing_call(g)),
    }
}

impl Call {
    /// The request, and its parts to be sent one after another.
    fn bytes(&self, g: &mut Gen) -> Vec<Vec<u8>> {
        let mut s = format!("{} {} HTTP/1.1\r\nHost: localhost\r\n", self.method, self.path);
        if g.chance(20) {
            // Nothing that depends on the client's word
            s.push_str(g.pick(&[
                "X-Forwarded-For: 10.1.2.3\r\n",
                "Forwarded: for=10.1.2.4;proto=https\r\n",
                "Cookie: X-Ratelimit-Id=abcdef\r\n",
                "Cookie: a=b; X-Ratelimit-Id=uvw; c=d\r\n",
                "X-Ratelimit-Id: zzz\r\n",
                "X-Ratelimit-Remaining: 100\r\n",
                "User-Agent: x\r\nAccept: */*\r\n",
                "Content-Type: application/json\r\n",
                "Content-Type: text/plain\r\n",
                "X-Real-Ip: 10.1.2.5\r\n",
            ]));
        }
        let mut parts = Vec::new();
        match &self.body {
            None => s.push_str("\r\n"),
            Some(b) if g.chance(10) && !b.is_empty() => {
                s.push_str("Transfer-Encoding: chunked\r\n\r\n");
                let cut = g.below(b.len());
                let mut all = s.into_bytes();
                for c in [&b[..cut], &b[cut..]] {
                    if !c.is_empty() {
                        all.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                        all.extend_from_slice(c);
                        all.extend_from_slice(b"\r\n");
                    }
                }
                all.extend_from_slice(b"0\r\n\r\n");
                return vec![all];
            }
            Some(b) => {
                s.push_str(&format!("Content-Length: {}\r\n\r\n", b.len()));
                if g.chance(10) && b.len() > 1 {
                    let cut = 1 + g.below(b.len() - 1);
                    let mut first = s.into_bytes();
                    first.extend_from_slice(&b[..cut]);
                    parts.push(first);
                    parts.push(b[cut..].to_vec());
                    return parts;
                }
                let mut all = s.into_bytes();
                all.extend_from_slice(b);
                return vec![all];
            }
        }
        vec![s.into_bytes()]
    }

    fn show(&self) -> String {
        let body = self.body.as_ref().map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default();
        format!("{} {} {}", self.method, self.path, body)
    }

    fn judge(&self, r: &Reply) -> Result<(), String> {
        let text = r.text();
        let answer = || Json::parse(&text).ok_or_else(|| format!("not JSON: {:?}", text));
        let status = |want: u16| {
            if r.status == want {
                Ok(())
            } else {
                Err(format!("expected the status {} but got {} {:?}", want, r.status, text))
            }
        };
        // One of both, the other is null
        let pair = |v: &Json| -> Result<Result<String, String>, String> {
            match (v.get("result"), v.get("error")) {
                (Some(Json::Text(s)), Some(Json::Null)) => Ok(Ok(s.clone())),
                (Some(Json::Null), Some(Json::Text(s))) => Ok(Err(s.clone())),
                _ => Err(format!("neither a result nor an error: {:?}", text)),
            }
        };
        match &self.want {
            Want::Result(want, plain) => {
                status(200)?;
                if *plain && want[0].is_ok() {
                    return if Ok(&text) == want[0].as_ref() {
                        Ok(())
                    } else {
                        Err(format!("expected {:?} but got {:?}", want[0], text))
                    };
                }
                let got = pair(&answer()?)?;
                if want.contains(&got) {
                    Ok(())
                } else {
                    Err(format!("expected {:?} but got {:?}", want, got))
                }
            }
            Want::Bad(word, at) => {
                status(400)?;
                match pair(&answer()?)? {
                    Ok(v) => Err(format!("expected an error but got {:?}", v)),
                    Err(e) if e.is_empty() || !e.contains(word) => Err(format!("expected another error than {:?}", e)),
                    Err(e) => match at {
                        Some(at) if !e.ends_with(&format!(" {}", at)) => {
                            Err(format!("expected an error at {:?} but got {:?}", at, e))
                        }
                        _ => Ok(()),
                    },
                }
            }
            Want::List(what, t) => {
                status(200)?;
                let want = by_type!(*t, listed(*what));
                let got = match answer()? {
                    Json::List(all) => all,
                    _ => return Err(format!("not a list: {:?}", text)),
                };
                let fields = if *what == 2 { vec!["name", "value"] } else { vec!["name", "aliases", "description"] };
                let mut got: Vec<String> =
                    got.iter().map(|v| format!("{:?}", fields.iter().map(|f| v.get(f)).collect::<Vec<_>>())).collect();
                let mut want: Vec<String> =
                    want.iter().map(|v| format!("{:?}", fields.iter().map(|f| v.get(f)).collect::<Vec<_>>())).collect();
                got.sort();
                want.sort();
                if got == want {
                    Ok(())
                } else {
                    let a: Vec<&String> = want.iter().filter(|l| !got.contains(l)).collect();
                    let b: Vec<&String> = got.iter().filter(|l| !want.contains(l)).collect();
                    Err(format!("of the list, missing {:?}, surplus {:?}", a, b))
                }
            }
            Want::Missing => {
                if (400..500).contains(&r.status) {
                    Ok(())
                } else {
                    Err(format!("expected that it does not exist but got {} {:?}", r.status, text))
                }
            }
        }
    }
}

fn listed<N: Kind>(what: usize) -> Vec<Json> {
    let ctx = N::context(Config::default());
    let text = |s: &str| Json::Text(s.to_string());
    let function = |n: String, aliases: Option<&[&str]>, d: Option<&str>| {
        Json::Object(vec![
            ("name".into(), Json::Text(n)),
            ("aliases".into(), Json::List(aliases.unwrap_or(&[]).iter().map(|a| text(a)).collect())),
            ("description".into(), d.map_or(Json::Null, |d| text(d))),
        ])
    };
    match what {
        0 => ctx
            .binary_functions()
            .iter()
            .map(|(n, f)| function(n.to_string(), f.aliases(), f.description()))
            .chain(ctx.unary_functions().iter().map(|(n, f)| function(n.to_string(), f.aliases(), f.description())))
            .collect(),
        1 => ctx.functions().iter().map(|(n, f)| function(n.to_string(), f.aliases(), f.description())).collect(),
        _ => ctx
            .constants()
            .iter()
            .map(|(n, v)| {
                Json::Object(vec![("name".into(), Json::Text(n.to_string())), ("value".into(), Json::Text(v.to_string()))])
            })
            .collect(),
    }
}

//////////////////// C22 ////////////////////

/// Some requests of a client, one after another or sent ahead.
fn requests_case(g: &mut Gen) -> Out {
    let mut calls = Vec::new();
    let ahead = g.chance(15);
    let n = 1 + g.len(ahead as usize, 4);
    for _ in 0..n {
        match call(g) {
            Some(c) => calls.push(c),
            None => return discard(),
        }
    }
    let desc: Vec<String> = calls.iter().map(|c| c.show()).collect();
    let desc = format!("{}{}", if ahead { "(ahead) " } else { "" }, desc.join(" | "));
    let mut client = Client::new();
    let from = Instant::now();
    let run = |g: &mut Gen, client: &mut Client| -> Result<(), String> {
        if ahead {
            let mut all = Vec::new();
            for c in &calls {
                all.extend(c.bytes(g).concat());
            }
            client.send(&all)?;
        }
        for c in &calls {
            if !ahead {
                for p in c.bytes(g) {
                    client.send(&p)?;
                }
            }
            let r = client.receive().map_err(|e| format!("{}: {}", c.show(), e))?;
            c.judge(&r).map_err(|e| format!("{}: {}", c.show(), e))?;
        }
        Ok(())
    };
    match run(g, &mut client) {
        Ok(()) => ok(desc, calls.iter().any(|c| c.nontrivial), if ahead { "ahead" } else { "in turn" }),
        // The server need not keep a connection that is not used for 5 seconds
        Err(e) if from.elapsed() > Duration::from_secs(4) && e.contains("closed without") => discard(),
        Err(e) => fail(desc, e),
    }
}

pub fn c22() -> Property {
    let mut requests = sub("requests", 40_000, 400, || Box::new(requests_case));
    requests.threads = 32;
    Property {
        id: "C22",
        rule: "The built server as a process, sent requests over the loopback network by clients of different addresses at the same time, of one to five requests each, in turn or sent ahead, whole, chunked or in pieces: evaluations of each type, well-formed or not, with variables as texts or numbers, against the version of the library the server is made with; bodies that are no such request; lists of each type; and paths there are not. Non-trivial: any but requests of missing paths.",
        subs: vec![requests],
    }
}

//////////////////// C24 ////////////////////

const MOST: usize = 100;

fn remaining(r: &Reply) -> Option<usize> {
    r.header("x-ratelimit-remaining").and_then(|v| v.parse().ok())
}

/// A request of a client that made some before.
fn limited(g: &mut Gen, c: &mut Client, made: usize) -> Result<String, String> {
    let call = match g.below(6) {
        0 => bad_call(g),
        1 => missing_call(g),
        2 => list_call(g),
        _ => Call {
            method: "POST",
            path: "/eval".to_string(),
            body: Some(b"{\"expression\":\"1+2\"}".to_vec()),
            want: Want::Result(vec![Ok("3".to_string())], false),
            nontrivial: true,
        },
    };
    for p in call.bytes(g) {
        c.send(&p)?;
    }
    let r = c.receive()?;
    let what = call.show();
    if r.header("x-ratelimit-limit") != Some("100") {
        return Err(format!("request {}, {}: the limit is not given: {:?}", made + 1, what, r.headers));
    }
    let left = MOST.saturating_sub(made + 1);
    if remaining(&r) != Some(left) {
        return Err(format!("request {}, {}: expected {} remaining but got {:?}", made + 1, what, left, remaining(&r)));
    }
    if made >= MOST {
        if r.status != 429 {
            return Err(format!("request {}, {}: expected a refusal but got {}", made + 1, what, r.status));
        }
    } else {
        call.judge(&r).map_err(|e| format!("request {}, {}: {}", made + 1, what, e))?;
    }
    Ok(what)
}

/// Some clients whose requests alternate.
fn limits_case(g: &mut Gen) -> Out {
    let n = 1 + g.below(3);
    let mut clients: Vec<(Client, usize, Instant)> = (0..n).map(|_| (Client::new(), 0, Instant::now())).collect();
    let total = if g.chance(50) { 70 + g.below(80) } else { 1 + g.below(30) } * n;
    let from = Instant::now();
    let mut i = 0;
    let mut order = String::new();
    while i < total {
        let k = g.below(n);
        let many = (1 + g.below(12)).min(total - i);
        order.push_str(&format!(" {}x{}", many, k));
        for _ in 0..many {
            let (c, made, last) = &mut clients[k];
            let r = limited(g, c, *made);
            if from.elapsed() > Duration::from_secs(40) {
                return discard();
            }
            if let Err(e) = r {
                // The server need not keep a connection that is not used for 5 seconds
                if last.elapsed() > Duration::from_secs(4) {
                    return discard();
                }
                return fail(order, format!("client {}: {}", k, e));
            }
            *made += 1;
            *last = Instant::now();
            i += 1;
        }
    }
    let refused = clients.iter().any(|c| c.1 > MOST);
    ok(order, total > 1, if refused { "refused" } else { "within" })
}

/// A client that stays over the minute.
fn renewal_case(g: &mut Gen) -> Out {
    let mut c = Client::new();
    let first = 1 + g.below(130);
    let desc = format!("{} requests, one each {} s for a minute, then some", first, 3);
    let from = Instant::now();
    let mut made = 0;
    let mut last = Instant::now();
    let mut request = |g: &mut Gen, made: &mut usize| -> Option<String> {
        let late = last.elapsed() > Duration::from_millis(4500);
        let r = limited(g, &mut c, *made);
        last = Instant::now();
        *made += 1;
        match r {
            // The server need not keep the connection
            Err(_) if late => Some(String::new()),
            Err(e) => Some(format!("after {:.1} s: {}", from.elapsed().as_secs_f64(), e)),
            Ok(_) => None,
        }
    };
    let end = |e: Option<String>| e.map(|e| if e.is_empty() { discard() } else { fail(desc.clone(), e) });
    for _ in 0..first {
        if let Some(r) = end(request(g, &mut made)) {
            return r;
        }
    }
    if from.elapsed() > Duration::from_secs(20) {
        return discard();
    }
    while from.elapsed() < Duration::from_secs(54) {
        std::thread::sleep(Duration::from_secs(3));
        if from.elapsed() > Duration::from_secs(58) {
            return discard();
        }
        if let Some(r) = end(request(g, &mut made)) {
            return r;
        }
    }
    // Neither the moment before nor after the minute is tried
    let until = |ms: u64| std::thread::sleep(Duration::from_millis(ms).saturating_sub(from.elapsed()));
    until(58_300);
    if from.elapsed() > Duration::from_millis(59_000) {
        return discard();
    }
    if let Some(r) = end(request(g, &mut made)) {
        return r;
    }
    until(61_500);
    let mut made = 0;
    for _ in 0..1 + g.below(120) {
        if let Some(r) = end(request(g, &mut made)) {
            return r;
        }
    }
    ok(format!("{} {}", desc, made), true, "renewed")
}

pub fn c24() -> Property {
    let mut limits = sub("limits", 1_500, 500, || Box::new(limits_case));
    limits.threads = 32;
    let mut renewal = sub("renewals", 48, 400, || Box::new(renewal_case));
    renewal.threads = 48;
    renewal.thorough = 240;
    Property {
        id: "C24",
        rule: "The built server as a process. Up to three clients with requests of all sorts, whatever their headers claim, that alternate, up to and beyond the limit: the remaining number, answers and refusals against a count of each client's requests. Clients that go on over the end of the minute. Non-trivial: more than one request.",
        subs: vec![limits, renewal],
    }
}
