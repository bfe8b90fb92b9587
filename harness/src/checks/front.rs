//! C19: the command-line tool, the Python module, the WebAssembly functions and the one-call
//! serialisation function against the library. The front ends run as separate processes built
//! from /repo's sources: the tool once per case, the bindings as workers that answer requests.

use super::sec::{self, KEY, METER};
use super::text::model_hex;
use super::*;
use crate::gen;
use m_bus_parser::{decode_bytes, decode_data_records, decode_hex, render_hex, serialize_mbus_data, DecodeOptions, OutputFormat, RenderOptions};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::str::FromStr;

pub fn spaces() -> Vec<Space> {
    vec![
        space("C19", "c19-cli-grid", "command line: 40 telegrams x 12 format names x keys x 7 widths x enrichment", cli_grid),
        space("C19", "c19-cli-text", "command line: every text of up to 4 (thorough: 5) out of 9 characters, as argument and as file", cli_text),
        space("C19", "c19-cli-args", "command line: texts x formats x key spellings x input sources, malformed ones included", cli_args),
        space("C19", "c19-py-grid", "Python: 40 telegrams x 12 format names x keys x 7 widths x enrichment x argument types", py_grid),
        space("C19", "c19-py-text", "Python: every text of up to 5 (thorough: 6) out of 9 characters through 5 functions", py_text),
        space("C19", "c19-py-args", "Python: texts, bytes and other types x formats x key spellings and types", py_args),
        space("C19", "c19-py-bytes", "Python: all byte strings of up to 2 bytes and record pairs through the record functions", py_bytes),
        space("C19", "c19-py-values", "Python: parsed values of every record kind and number boundary", py_values),
        space("C19", "c19-py-history", "Python: every sequence of 3 calls out of 12", py_history),
        space("C19", "c19-wasm-grid", "WebAssembly functions: 40 telegrams x 12 format names x keys x 7 widths x enrichment", wasm_grid),
        space("C19", "c19-wasm-text", "WebAssembly functions: every text of up to 5 (thorough: 6) out of 9 characters through 4 functions", wasm_text),
        space("C19", "c19-wasm-args", "WebAssembly functions: texts x formats x key spellings, malformed ones included", wasm_args),
        space("C19", "c19-wasm-history", "WebAssembly functions: every sequence of 3 calls out of 10", wasm_history),
        space(
            "C19",
            "c19-keys",
            "every front end: each of the 32 key digits as each of 22 hexadecimal characters, with a telegram sealed under that key",
            keys_digits,
        ),
        space(
            "C19",
            "c19-key-faults",
            "every front end: each key position replaced by, or preceded by, each character up to U+00FF and 12 others",
            keys_faults,
        ),
        space("C19", "c19-lengths", "every front end: clear and sealed telegrams of every length, wired and radio, 3 formats", lengths),
        space("C19", "c19-widths", "front ends with a width option: every width 0..300 and 12 larger ones x 2 telegrams", widths),
        space(
            "C19",
            "c19-cli-tty",
            "command line on a terminal of 1..260 columns x 3 telegrams, with and without a width option; 8 formats at 3 sizes",
            cli_tty,
        ),
        space("C19", "c19-call-grid", "one-call serialisation: 40 telegrams x 12 format names x keys", call_grid),
        space("C19", "c19-call-text", "one-call serialisation: every text of up to 6 out of 9 characters x 3 formats", call_text),
    ]
}

// --------------------------------------------------------------------------------- requests

/// Format names and what they stand for.
const NAMES: [(&str, OutputFormat); 10] = [
    ("table", OutputFormat::Table),
    ("json", OutputFormat::Json),
    ("yaml", OutputFormat::Yaml),
    ("yml", OutputFormat::Yaml),
    ("csv", OutputFormat::Csv),
    ("mermaid", OutputFormat::Mermaid),
    ("xml", OutputFormat::Xml),
    ("annotated", OutputFormat::Annotated),
    ("hexview", OutputFormat::Annotated),
    ("annotated-text", OutputFormat::AnnotatedText),
];
const FORMATS: [&str; 12] = ["table", "json", "yaml", "yml", "csv", "mermaid", "xml", "annotated", "hexview", "annotated-text", "JSON", " csv "];

fn format(name: &str) -> Result<OutputFormat, String> {
    match NAMES.iter().find(|n| n.0 == name) {
        Some((_, f)) => Ok(*f),
        None => OutputFormat::from_str(name).map_err(|e| e.code().to_string()),
    }
}

/// What the library says: the text, or every error code that applies.
type Want<T> = Result<T, Vec<String>>;

fn want<T>(
    text: &str,
    fmt: Option<&str>,
    key: Result<Option<[u8; 16]>, String>,
    f: impl FnOnce(Option<OutputFormat>, Option<[u8; 16]>) -> Result<T, String>,
) -> Want<T> {
    let mut codes = Vec::new();
    let fmt = match fmt.map(format).transpose() {
        Ok(f) => f,
        Err(e) => {
            codes.push(e);
            None
        }
    };
    let key = match key {
        Ok(k) => k,
        Err(e) => {
            codes.push(e);
            None
        }
    };
    if !codes.is_empty() {
        codes.extend(model_hex(text).err().map(|e| e.0.to_string()));
        return Err(codes);
    }
    f(fmt, key).map_err(|e| vec![e])
}

fn rendered(text: &str, fmt: &str, key: Result<Option<[u8; 16]>, String>, width: Option<usize>, enrich: bool) -> Want<String> {
    want(text, Some(fmt), key, |f, key| {
        let o = RenderOptions { decode: DecodeOptions { key, include_enrichment: enrich }, table_width: width };
        render_hex(text, f.unwrap(), &o).map_err(|e| e.code().to_string())
    })
}

/// A key as the tool takes it: 32 digits, nothing else.
fn cli_key(k: Option<&str>) -> Result<Option<[u8; 16]>, String> {
    let Some(k) = k else { return Ok(None) };
    if k.len() != 32 || !k.bytes().all(|b| b.is_ascii_hexdigit()) {
        return Err("option.invalid".into());
    }
    binding_key(Some(k))
}

/// A key as the bindings take it: any accepted hexadecimal spelling of 16 bytes.
fn binding_key(k: Option<&str>) -> Result<Option<[u8; 16]>, String> {
    let Some(k) = k else { return Ok(None) };
    let b = model_hex(k).map_err(|e| e.0.to_string())?;
    b.try_into().map(Some).map_err(|_| "option.invalid".to_string())
}

fn sample() -> Vec<Vec<u8>> {
    let mut v = super::table::telegrams();
    for (k, cfg, f) in [(sec::ALL[0], 0x0520, 0), (sec::ALL[1], 0x0510, 1), (sec::ALL[2], 0x0520, 0), (sec::ALL[3], 0x0700, 2), (sec::ALL[4], 0x0500, 0)] {
        v.push(sec::sealed(k, &METER, cfg, &sec::plaintext(32), f));
    }
    v
}

const WIDTHS: [Option<usize>; 7] = [None, Some(0), Some(1), Some(40), Some(79), Some(100), Some(250)];

fn keys() -> [Option<String>; 3] {
    [None, Some(hex(&KEY)), Some("11".repeat(16))]
}

const CHARS: [&str; 9] = ["0", "6", "E", "5", "x", ":", " ", "g", "é"];

fn some_text(ch: &mut Ch, max: usize) -> String {
    let n = ch.n(max + 1);
    (0..n).map(|_| ch.of(&CHARS)).collect()
}

/// Key texts, good and bad.
fn key_texts() -> Vec<Option<String>> {
    let k = hex(&KEY);
    let spaced: String = KEY.iter().map(|b| format!("{b:02x} ")).collect();
    vec![
        None,
        Some(k.clone()),
        Some(k.to_lowercase()),
        Some(spaced),
        Some(KEY.iter().map(|b| format!("0x{b:02X}")).collect::<Vec<_>>().join(":")),
        Some(k[..31].into()),
        Some(k[..30].into()),
        Some(format!("{k}00")),
        Some(format!("{k}0")),
        Some(format!("{}g", &k[..31])),
        Some(format!("{}é", &k[..30])),
        Some(format!("0x{}", &k[..30])),
        Some(String::new()),
        Some(" ".into()),
        Some(format!(" {k}")),
        Some(format!("{k}\n")),
        Some("zz".into()),
    ]
}

fn texts() -> Vec<String> {
    let d = sec::sealed(sec::ALL[0], &METER, 0x0520, &sec::plaintext(32), 0);
    let h = hex(&d);
    let clear = hex(&stream(&[0x0C, 0x13, 0x78, 0x56, 0x34, 0x12, 0x0D, 0x78, 0x03, b'<', 0xE9, b'"']));
    vec![
        h.clone(),
        h.to_lowercase(),
        d.iter().map(|b| format!("0x{b:02X} ")).collect(),
        format!("  {clear}\r\n"),
        clear.as_bytes().chunks(2).map(|c| std::str::from_utf8(c).unwrap()).collect::<Vec<_>>().join("-"),
        clear.as_bytes().chunks(2).map(|c| std::str::from_utf8(c).unwrap()).collect::<Vec<_>>().join(":\n"),
        clear[..clear.len() - 1].into(),
        clear[..clear.len() - 2].into(),
        format!("{clear},"),
        format!("{clear}00"),
        format!("\u{FEFF}{clear}"),
        "E5".into(),
        String::new(),
        " ".into(),
        "0x".into(),
        "nonsense".into(),
        "-E5".into(),
        "--help".into(),
    ]
}
const TRICKY_FORMATS: [&str; 16] = [
    "table",
    "json",
    "Yml",
    "csv",
    " json\n",
    "annotated-text",
    "annotated_text",
    "",
    "jsonl",
    "json-legacy",
    "csv-wide",
    "hexview-legacy",
    "pdf",
    "tablé",
    "-t",
    "yaml,json",
];

// --------------------------------------------------------------------------------- command line

pub(super) fn dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn engine(what: &str) -> ! {
    eprintln!("engine error: {what}");
    std::process::exit(2)
}

struct Done {
    out: String,
    err: String,
    status: Option<i32>,
}

fn cli(args: &[String]) -> Done {
    let r = Command::new(format!("{}/target-cli/debug/m-bus-cli", dir())).args(args).env_clear().stdin(Stdio::null()).output();
    match r {
        Ok(o) => Done { out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned(), status: o.status.code() },
        Err(e) => engine(&format!("the command-line tool cannot be started: {e}")),
    }
}

/// Error code as the tool and the Python module show it.
fn code(message: &str) -> Option<&str> {
    message.strip_prefix('[')?.split_once(']').map(|p| p.0)
}

fn cli_verdict(ch: &mut Ch, args: &[String], d: Done, w: Want<String>) -> Res {
    ch.note(|| format!("arguments={args:?}"));
    ch.ok();
    match w {
        Ok(t) => {
            if d.status != Some(0) {
                return fail("cli-failed", format!("exit status {:?} and {:?}, expected output", d.status, d.err));
            }
            if d.out != t {
                return fail("cli-output", format!("printed {:?}, the library renders {t:?}", d.out));
            }
            out(&t)
        }
        Err(codes) => {
            if !d.out.is_empty() {
                return fail("cli-output", format!("printed {:?}, expected error {codes:?}", d.out));
            }
            if matches!(d.status, None | Some(0)) || d.status == Some(101) {
                return fail("cli-status", format!("exit status {:?}, expected error {codes:?}", d.status));
            }
            let c = d.err.trim_start().strip_prefix("error: ").and_then(code).unwrap_or_default().to_string();
            if !codes.contains(&c) {
                return fail("cli-code", format!("failed with {:?}, expected {codes:?}", d.err));
            }
            refused(&codes)
        }
    }
}

fn strings(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

fn cli_options(args: &mut Vec<String>, fmt: Option<&str>, key: Option<&str>, width: Option<usize>, enrich: bool) {
    if let Some(f) = fmt {
        args.push(format!("--format={f}"));
    }
    if let Some(k) = key {
        args.push(format!("--key={k}"));
    }
    if let Some(w) = width {
        args.push(format!("--width={w}"));
    }
    if !enrich {
        args.push("--no-enrichment".into());
    }
}

fn cli_grid(ch: &mut Ch) -> Res {
    let d = ch.of(&sample());
    let f = ch.of(&FORMATS);
    let key = ch.of(&keys());
    // the width concerns tables only; the other formats get two of them
    let width = if f == "table" { ch.of(&WIDTHS) } else { ch.of(&WIDTHS[..2]) };
    let enrich = ch.flag();
    let mut args = strings(&["parse", "-d", &hex(&d)]);
    cli_options(&mut args, Some(f), key.as_deref(), width, enrich);
    let w = rendered(&hex(&d), f, cli_key(key.as_deref()), width.or(Some(100)), enrich);
    let done = cli(&args);
    cli_verdict(ch, &args, done, w)
}

thread_local! {
    static FILE: RefCell<Option<Scratch>> = const { RefCell::new(None) };
}

/// A file of this thread, removed when the thread ends.
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn in_file(content: &[u8]) -> String {
    FILE.with(|f| {
        let mut f = f.borrow_mut();
        let s = f.get_or_insert_with(|| {
            let t = format!("{:?}", std::thread::current().id());
            let t: String = t.chars().filter(char::is_ascii_digit).collect();
            Scratch(std::env::temp_dir().join(format!("mc-c19-{}-{t}.hex", std::process::id())))
        });
        if let Err(e) = std::fs::write(&s.0, content) {
            engine(&format!("scratch file: {e}"));
        }
        s.0.to_string_lossy().into_owned()
    })
}

fn cli_text(ch: &mut Ch) -> Res {
    let t = some_text(ch, ch.tier(4, 5));
    let args =
        if ch.flag() { strings(&["parse", "-t", "csv", "-f", &in_file(t.as_bytes())]) } else { strings(&["parse", "-t", "csv", &format!("--data={t}")]) };
    let w = rendered(&t, "csv", Ok(None), Some(100), true);
    let done = cli(&args);
    cli_verdict(ch, &[args, vec![t]].concat(), done, w)
}

fn cli_args(ch: &mut Ch) -> Res {
    match ch.n(3) {
        0 => {
            let t = ch.of(&texts());
            let f = ch.of(&TRICKY_FORMATS);
            let k = ch.of(&key_texts());
            let mut args = strings(&["parse"]);
            let source = ch.n(2);
            args.push(if source == 0 { format!("--data={t}") } else { format!("--file={}", in_file(t.as_bytes())) });
            cli_options(&mut args, Some(f), k.as_deref(), None, true);
            let w = rendered(&t, f, cli_key(k.as_deref()), Some(100), true);
            let done = cli(&args);
            cli_verdict(ch, &args, done, w)
        }
        1 => {
            // nothing usable to read, or arguments that do not parse: no output, failure
            let bad: Vec<Vec<String>> = vec![
                strings(&["parse"]),
                strings(&["parse", "-t", "json"]),
                strings(&["parse", "-d", "E5", "-f", &in_file(b"E5")]),
                strings(&["parse", "-f", "/nonexistent/telegram"]),
                strings(&["parse", "-f", "/"]),
                strings(&["parse", "-f", &in_file(&[0x45, 0x35, 0xFF])]),
                strings(&["parse", "-d"]),
                strings(&["parse", "-d", "E5", "--width", "-1"]),
                strings(&["parse", "-d", "E5", "--width", "x"]),
                strings(&["parse", "-d", "E5", "--unknown"]),
                strings(&["parse", "-d", "E5", "-k"]),
                strings(&["unknown", "-d", "E5"]),
                strings(&[]),
            ];
            let args = if let i @ 0..=12 = ch.n(bad.len()) { bad[i].clone() } else { vec![] };
            ch.note(|| format!("arguments={args:?}"));
            let d = cli(&args);
            ch.ok();
            if !d.out.is_empty() || matches!(d.status, None | Some(0 | 101)) || d.err.is_empty() {
                return fail("cli-usage", format!("exit status {:?}, printed {:?}, said {:?}", d.status, d.out, d.err));
            }
            refused(&args)
        }
        _ => {
            // option order and spelling do not matter
            let t = ch.of(&[texts()[0].clone(), texts()[3].clone()]);
            let k = hex(&KEY);
            let mut groups = vec![strings(&["-d", &t]), strings(&["-t", "json"]), strings(&["-k", &k]), strings(&["--no-enrichment"])];
            let mut args = strings(&["parse"]);
            while !groups.is_empty() {
                let i = ch.n(groups.len());
                args.extend(groups.remove(i));
            }
            let w = rendered(&t, "json", cli_key(Some(&k)), Some(100), false);
            let done = cli(&args);
            cli_verdict(ch, &args, done, w)
        }
    }
}

// --------------------------------------------------------------------------------- workers

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn start(mut c: Command) -> Worker {
    use std::os::unix::process::CommandExt;
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    // a worker does not outlive the explorer
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    match c.spawn() {
        Ok(mut child) => {
            let to = child.stdin.take().unwrap();
            let from = BufReader::new(child.stdout.take().unwrap());
            Worker { child, to, from }
        }
        Err(e) => engine(&format!("a worker cannot be started: {e}")),
    }
}

fn python() -> Worker {
    let p =
        ["/opt/vp/venv/bin/python", "/usr/bin/python3", "/usr/local/bin/python3"].into_iter().find(|p| std::path::Path::new(p).exists()).unwrap_or("python3");
    let mut c = Command::new(p);
    c.args(["-B", &format!("{}/harness-py/worker.py", dir()), &format!("{}/target-py/debug/libpymbusparser.so", dir())]);
    start(c)
}

fn wasm() -> Worker {
    start(Command::new(format!("{}/target-wasm/debug/wasm-worker", dir())))
}

thread_local! {
    static PY: RefCell<Option<Worker>> = const { RefCell::new(None) };
    static WASM: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

/// Sends one request; `None` if the worker died over it.
fn ask(cell: &'static std::thread::LocalKey<RefCell<Option<Worker>>>, new: fn() -> Worker, q: &Value) -> Option<Value> {
    cell.with(|c| {
        let mut c = c.borrow_mut();
        let w = c.get_or_insert_with(new);
        let mut line = String::new();
        let sent = writeln!(w.to, "{q}").and_then(|()| w.to.flush()).is_ok();
        if sent && w.from.read_line(&mut line).is_ok() && line.ends_with('\n') {
            match serde_json::from_str(&line) {
                Ok(v) => return Some(v),
                Err(e) => engine(&format!("answer {line:?}: {e}")),
            }
        }
        *c = None;
        None
    })
}

/// A fresh worker for cases about histories.
fn forget(cell: &'static std::thread::LocalKey<RefCell<Option<Worker>>>) {
    cell.with(|c| *c.borrow_mut() = None);
}

// --------------------------------------------------------------------------------- Python

/// Sends a call to the Python module.
fn py(call: &str, args: Vec<Value>, kwargs: Value) -> Value {
    let q = json!({"call": call, "args": args, "kwargs": kwargs});
    // a worker that cannot even start is not a finding
    match ask(&PY, python, &q) {
        Some(v) => v,
        None => match ask(&PY, python, &json!({"call": "m_bus_parse", "args": [{"str": "E5"}, {"str": "json"}], "kwargs": {}})) {
            Some(_) => json!({"err": "DIED", "parser": false, "msg": "the interpreter died"}),
            None => engine("the Python worker does not answer"),
        },
    }
}

fn py_verdict(ch: &mut Ch, got: &Value, w: &Want<Value>, same: impl Fn(&Value, &Value) -> bool) -> Res {
    ch.ok();
    match (got.get("ok"), w) {
        (Some(g), Ok(w)) => {
            if !same(g, w) {
                return fail("py-output", format!("returned {g}, the library gives {w}"));
            }
            out(&w.to_string())
        }
        (Some(g), Err(c)) => fail("py-accepted", format!("returned {g}, expected error {c:?}")),
        (None, Ok(_)) => fail("py-failed", format!("raised {got}")),
        (None, Err(codes)) => {
            let c = got["msg"].as_str().and_then(code).unwrap_or_default().to_string();
            if got["parser"] != true || got["value_error"] != true || !codes.contains(&c) {
                return fail("py-code", format!("raised {got}, expected {codes:?}"));
            }
            refused(codes)
        }
    }
}

fn exact(a: &Value, b: &Value) -> bool {
    a == b
}

fn decoded(d: &[u8], key: Option<[u8; 16]>, enrich: bool) -> Result<Value, String> {
    decode_bytes(d, &DecodeOptions { key, include_enrichment: enrich }).map(|v| serde_json::to_value(v).unwrap()).map_err(|e| e.code().to_string())
}

fn records(d: &[u8]) -> Result<Value, String> {
    decode_data_records(d).map(|v| serde_json::to_value(v).unwrap()).map_err(|e| e.code().to_string())
}

/// The decoded object, wherever it says which text it came from.
fn same_decoded(a: &Value, b: &Value) -> bool {
    let strip = |v: &Value| {
        let mut v = v.clone();
        if let Some(r) = v.get_mut("raw").and_then(Value::as_object_mut) {
            r.remove("input");
        }
        v
    };
    model::jeq(&strip(a), &strip(b))
}

/// The Python types a byte string may come as.
fn py_bytes_value(d: &[u8], kind: usize) -> Value {
    match kind {
        0 => json!({"str": hex(d)}),
        1 => json!({"bytes": d}),
        _ => json!({"bytearray": d}),
    }
}

fn py_grid(ch: &mut Ch) -> Res {
    let d = ch.of(&sample());
    let key = ch.of(&keys());
    let kb = binding_key(key.as_deref());
    let (kind, enrich) = (ch.n(3), ch.flag());
    let mut kw = json!({"include_enrichment": {"bool": enrich}});
    if let Ok(Some(k)) = &kb {
        kw["key"] = py_bytes_value(k, ch.n(3));
    }
    let call = ch.n(2);
    if call == 0 {
        ch.note(|| format!("parse {} {kw}", hex(&d)));
        let got = py("parse", vec![py_bytes_value(&d, kind)], kw);
        let w = decoded(&d, kb.unwrap(), enrich).map_err(|e| vec![e]);
        return py_verdict(ch, &got, &w, same_decoded);
    }
    let f = ch.of(&FORMATS);
    let width = if f == "table" { ch.of(&WIDTHS) } else { ch.of(&WIDTHS[..2]) };
    if let Some(w) = width {
        kw["width"] = json!({"int": w});
    }
    ch.note(|| format!("render {} {f:?} {kw}", hex(&d)));
    let got = py("render", vec![py_bytes_value(&d, kind), json!({"str": f})], kw);
    let w = rendered(&hex(&d), f, kb, width, enrich).map(Value::String);
    py_verdict(ch, &got, &w, exact)
}

/// One call of a Python function that takes text.
fn py_call(ch: &mut Ch, which: usize, t: &str, f: &str, k: Option<&str>) -> Res {
    let text = json!({"str": t});
    ch.note(|| format!("function {which} text={t:?} format={f:?} key={k:?}"));
    let mut kw = json!({});
    if let Some(k) = k {
        kw["key"] = json!({"str": k});
    }
    let bytes = |b: Result<Vec<u8>, (&'static str, Option<usize>)>| b.map_err(|e| e.0.to_string());
    match which {
        0 => {
            let got = py("render", vec![text, json!({"str": f})], kw);
            py_verdict(ch, &got, &rendered(t, f, binding_key(k), None, true).map(Value::String), exact)
        }
        1 => {
            let got = py("m_bus_parse", vec![text, json!({"str": f})], kw);
            py_verdict(ch, &got, &rendered(t, f, binding_key(k), None, true).map(Value::String), exact)
        }
        2 => {
            let got = py("parse", vec![text], kw);
            let w = want(t, None, binding_key(k), |_, k| bytes(model_hex(t)).and_then(|d| decoded(&d, k, true)));
            py_verdict(ch, &got, &w, same_decoded)
        }
        3 => {
            let got = py("parse_records", vec![text], json!({}));
            let w = bytes(model_hex(t)).and_then(|d| records(&d)).map_err(|e| vec![e]);
            py_verdict(ch, &got, &w, model::jeq)
        }
        _ => {
            let got = py("parse_application_layer", vec![text], json!({}));
            let w = bytes(model_hex(t)).and_then(|d| records(&d)).map_err(|e| vec![e]);
            py_verdict(ch, &got, &w, |g, w| g.as_str().and_then(|s| serde_json::from_str(s).ok()).is_some_and(|g: Value| model::jeq(&g, w)))
        }
    }
}

fn py_text(ch: &mut Ch) -> Res {
    let t = some_text(ch, ch.tier(5, 6));
    let which = ch.n(5);
    py_call(ch, which, &t, "csv", None)
}

fn py_args(ch: &mut Ch) -> Res {
    if ch.flag() {
        // arguments of other types are refused
        let v = ch.of(&[
            json!({"none": null}),
            json!({"int": 5}),
            json!({"float": 1.5}),
            json!({"bool": true}),
            json!({"dict": {"a": 1}}),
            json!({"list": [1, 300]}),
            json!({"list": ["E5"]}),
            json!({"tuple": [-1]}),
        ]);
        let (call, args, kw) = match ch.n(6) {
            0 => ("parse", vec![v], json!({})),
            1 => ("render", vec![v], json!({})),
            2 => ("parse_records", vec![v], json!({})),
            3 => ("parse_application_layer", vec![v], json!({})),
            4 => ("m_bus_parse", vec![v, json!({"str": "json"})], json!({})),
            _ if v.get("none").is_some() => ("render", vec![json!({"str": ""})], json!({"key": v})),
            _ => ("render", vec![json!({"str": "E5"})], json!({"key": v})),
        };
        ch.note(|| format!("{call} {args:?} {kw}"));
        let got = py(call, args, kw);
        ch.ok();
        let e = got["err"].as_str().unwrap_or_default();
        if got.get("ok").is_some() || e.starts_with("PANIC") || e == "DIED" {
            return fail("py-type", format!("gave {got}"));
        }
        return refused(&e);
    }
    let t = ch.of(&texts());
    let f = ch.of(&TRICKY_FORMATS);
    let k = ch.of(&key_texts());
    let which = ch.n(5);
    py_call(ch, which, &t, f, k.as_deref())
}

fn py_bytes(ch: &mut Ch) -> Res {
    let d: Vec<u8> = match ch.n(2) {
        0 => (0..ch.n(3)).map(|_| ch.byte()).collect(),
        _ => [gen::any_record(ch), gen::any_record(ch)].concat(),
    };
    let kind = ch.n(4);
    if kind == 3 {
        return py_call(ch, 4, &hex(&d), "json", None);
    }
    ch.note(|| format!("parse_records {} as type {kind}", hex(&d)));
    let got = py("parse_records", vec![py_bytes_value(&d, kind)], json!({}));
    let w = records(&d).map_err(|e| vec![e]);
    py_verdict(ch, &got, &w, model::jeq)
}

fn py_values(ch: &mut Ch) -> Res {
    let n = ch.n(9);
    let r: Vec<u8> = match n {
        0 => gen::any_record(ch),
        1..=7 => {
            let k = [1usize, 2, 3, 4, 6, 8, 4][n - 1];
            let dif = [1u8, 2, 3, 4, 6, 7, 5][n - 1];
            let vif = ch.of(&[0x13u8, 0x00, 0x4F, 0x6C, 0x6D, 0x7F]);
            let mut r = vec![dif, vif];
            let fill = ch.of(&[0x00u8, 0xFF, 0x80, 0x7F, 0x01, 0x55]);
            r.extend(vec![fill; k - 1]);
            r.push(ch.byte());
            r
        }
        _ => {
            let c = ch.byte();
            vec![0x0D, 0x78, 0x02, c, b'a']
        }
    };
    let d = stream(&r);
    ch.note(|| format!("parse {}", hex(&d)));
    let got = py("parse", vec![json!({"bytes": d})], json!({}));
    let w = decoded(&d, None, true).map_err(|e| vec![e]);
    py_verdict(ch, &got, &w, same_decoded)
}

fn py_history(ch: &mut Ch) -> Res {
    let t = texts();
    let key = hex(&KEY);
    let calls: [(usize, &str, &str, Option<&str>); 12] = [
        (0, &t[0], "json", None),
        (0, &t[0], "json", Some(&key)),
        (0, &t[0], "json", Some("11111111111111111111111111111111")),
        (0, &t[4], "table", None),
        (1, &t[0], "csv", Some(&key)),
        (1, &t[15], "csv", None),
        (2, &t[0], "", None),
        (2, &t[0], "", Some(&key)),
        (2, &t[4], "", None),
        (3, "0C1378563412", "", None),
        (4, "0C13", "", None),
        (0, &t[4], "pdf", None),
    ];
    let order: Vec<usize> = (0..3).map(|_| ch.n(calls.len())).collect();
    forget(&PY);
    let mut seen = Vec::new();
    for i in order {
        let (which, t, f, k) = calls[i];
        seen.push(py_call(ch, which, t, f, k)?.digest);
    }
    ch.note(|| "three calls in a fresh interpreter".into());
    out(&seen)
}

// --------------------------------------------------------------------------------- WebAssembly

fn js(call: &str, args: Value) -> Value {
    match ask(&WASM, wasm, &json!({"call": call, "args": args})) {
        Some(v) => v,
        None => match ask(&WASM, wasm, &json!({"call": "parse", "args": ["E5", "json"]})) {
            Some(_) => json!({"panic": "the process died"}),
            None => engine("the WebAssembly worker does not answer"),
        },
    }
}

/// Whether the worker could be built.
fn js_worker() -> bool {
    use std::sync::OnceLock;
    static FOUND: OnceLock<bool> = OnceLock::new();
    *FOUND.get_or_init(|| std::path::Path::new(&format!("{}/target-wasm/debug/wasm-worker", dir())).exists())
}

/// Without the worker: the functions as they are, which on the host may only be called to succeed.
fn js_direct(ch: &mut Ch, which: usize, t: &str, f: &str, k: Option<&str>, width: Option<usize>, enrich: Option<bool>) -> Res {
    use m_bus_parser_wasm_pack as w;
    let (key, width, enrich) = match which {
        0 => (k, width, enrich),
        1 => return refused(&"object"),
        2 => (None, None, None),
        _ => (Some(k.unwrap_or("")), None, None),
    };
    let Ok(expected) = rendered(t, f, js_key(key), width, enrich.unwrap_or(true)) else { return refused(&"error") };
    let got = match which {
        0 => w::m_bus_render(t, f, k.map(str::to_string), width, enrich).unwrap_or_default(),
        2 => w::m_bus_parse(t, f),
        _ => w::m_bus_parse_with_key(t, f, k.unwrap_or("")),
    };
    ch.ok();
    if got != expected {
        return fail("wasm-output", format!("returned {got:?}, the library gives {expected:?}"));
    }
    out(&got)
}

/// Key texts without content count as no key there.
fn js_key(k: Option<&str>) -> Result<Option<[u8; 16]>, String> {
    binding_key(k.filter(|k| !k.trim().is_empty()))
}

fn js_verdict(ch: &mut Ch, got: &Value, w: &Want<Value>, same: impl Fn(&Value, &Value) -> bool) -> Res {
    ch.ok();
    match (got.get("ok"), got.get("err"), w) {
        (Some(g), _, Ok(w)) => {
            if !same(g, w) {
                return fail("wasm-output", format!("returned {g}, the library gives {w}"));
            }
            out(&w.to_string())
        }
        (Some(g), _, Err(c)) => fail("wasm-accepted", format!("returned {g}, expected error {c:?}")),
        (_, Some(e), Err(codes)) => {
            let c = e["code"].as_str().unwrap_or_default().to_string();
            if !codes.contains(&c) {
                return fail("wasm-code", format!("threw {e}, expected {codes:?}"));
            }
            refused(codes)
        }
        _ => fail("wasm-failed", format!("gave {got}")),
    }
}

/// The functions that answer errors as text.
fn js_text_verdict(ch: &mut Ch, got: &Value, w: &Want<String>) -> Res {
    ch.ok();
    let Some(g) = got["ok"].as_str() else { return fail("wasm-failed", format!("gave {got}")) };
    match w {
        Ok(w) if g != w => fail("wasm-output", format!("returned {g:?}, the library gives {w:?}")),
        Ok(w) => out(w),
        Err(codes) => {
            let e: Value = serde_json::from_str(g).unwrap_or_default();
            let c = e["code"].as_str().unwrap_or_default().to_string();
            if !codes.contains(&c) {
                return fail("wasm-code", format!("returned {g:?}, expected error {codes:?}"));
            }
            refused(codes)
        }
    }
}

fn js_call(ch: &mut Ch, which: usize, t: &str, f: &str, k: Option<&str>, width: Option<usize>, enrich: Option<bool>) -> Res {
    ch.note(|| format!("function {which} text={t:?} format={f:?} key={k:?} width={width:?} enrichment={enrich:?}"));
    if !js_worker() {
        return js_direct(ch, which, t, f, k, width, enrich);
    }
    match which {
        0 => {
            let got = js("render", json!([t, f, k, width, enrich]));
            let w = rendered(t, f, js_key(k), width, enrich.unwrap_or(true)).map(Value::String);
            js_verdict(ch, &got, &w, exact)
        }
        1 => {
            let got = js("decode", json!([t, k, enrich]));
            let w = want(t, None, js_key(k), |_, key| {
                decode_hex(t, &DecodeOptions { key, include_enrichment: enrich.unwrap_or(true) })
                    .map(|v| serde_json::to_value(v).unwrap())
                    .map_err(|e| e.code().to_string())
            });
            js_verdict(ch, &got, &w, model::jeq)
        }
        2 => {
            let got = js("parse", json!([t, f]));
            js_text_verdict(ch, &got, &rendered(t, f, Ok(None), None, true))
        }
        _ => {
            let k = k.unwrap_or("");
            let got = js("parse_with_key", json!([t, f, k]));
            js_text_verdict(ch, &got, &rendered(t, f, js_key(Some(k)), None, true))
        }
    }
}

fn wasm_grid(ch: &mut Ch) -> Res {
    let d = ch.of(&sample());
    let key = ch.of(&keys());
    let enrich = ch.of(&[None, Some(true), Some(false)]);
    let which = ch.n(4);
    let f = if which == 1 { "" } else { ch.of(&FORMATS) };
    let width = match which {
        0 if f == "table" => ch.of(&WIDTHS),
        0 => ch.of(&WIDTHS[..2]),
        _ => None,
    };
    js_call(ch, which, &hex(&d), f, key.as_deref(), width, enrich)
}

fn wasm_text(ch: &mut Ch) -> Res {
    let t = some_text(ch, ch.tier(5, 6));
    let which = ch.n(4);
    js_call(ch, which, &t, "csv", None, None, None)
}

fn wasm_args(ch: &mut Ch) -> Res {
    let t = ch.of(&texts());
    let f = ch.of(&TRICKY_FORMATS);
    let k = ch.of(&key_texts());
    let which = ch.n(4);
    js_call(ch, which, &t, f, k.as_deref(), None, None)
}

fn wasm_history(ch: &mut Ch) -> Res {
    let t = texts();
    let key = hex(&KEY);
    let calls: [(usize, &str, &str, Option<&str>, Option<usize>, Option<bool>); 10] = [
        (0, &t[0], "json", None, None, None),
        (0, &t[0], "json", Some(&key), None, None),
        (0, &t[0], "json", Some(&key), None, Some(false)),
        (0, &t[4], "table", None, Some(60), None),
        (0, &t[4], "table", None, None, None),
        (1, &t[0], "", None, None, None),
        (1, &t[0], "", Some(&key), None, None),
        (2, &t[0], "csv", None, None, None),
        (3, &t[0], "csv", Some(&key), None, None),
        (2, &t[15], "csv", None, None, None),
    ];
    let order: Vec<usize> = (0..3).map(|_| ch.n(calls.len())).collect();
    forget(&WASM);
    let mut seen = Vec::new();
    for i in order {
        let (which, t, f, k, w, e) = calls[i];
        seen.push(js_call(ch, which, t, f, k, w, e)?.digest);
    }
    out(&seen)
}

// --------------------------------------------------------------------------------- all of them

const FRONTS: usize = 9;

/// The same request through one of the front ends.
fn front(ch: &mut Ch, which: usize, t: &str, f: &str, k: Option<&str>) -> Res {
    match which {
        0 | 1 => {
            let mut args = strings(&["parse"]);
            args.push(if which == 0 { format!("--data={t}") } else { format!("--file={}", in_file(t.as_bytes())) });
            cli_options(&mut args, Some(f), k, None, true);
            let w = rendered(t, f, cli_key(k), Some(100), true);
            let done = cli(&args);
            cli_verdict(ch, &args, done, w)
        }
        2..=4 => py_call(ch, which - 2, t, f, k),
        5..=7 => js_call(ch, [0, 1, 3][which - 5], t, f, k, None, None),
        _ => match binding_key(k) {
            Ok(k) => call_verdict(ch, t, f, k),
            Err(_) => refused(&"no such call"),
        },
    }
}

fn keys_digits(ch: &mut Ch) -> Res {
    const DIGITS: &[u8; 22] = b"0123456789abcdefABCDEF";
    let (p, c) = (ch.n(32), ch.of(DIGITS));
    let mut text = hex(&KEY).into_bytes();
    text[p] = c;
    let text = String::from_utf8(text).unwrap();
    let key = binding_key(Some(&text)).unwrap().unwrap();
    let (k, cfg) = ch.of(&[(sec::ALL[0], 0x0520u16), (sec::ALL[2], 0x0520)]);
    let d = sec::telegram(k, &METER, cfg, &sec::seal(k, &METER, cfg, &sec::plaintext(32), &key), 0);
    let which = ch.n(FRONTS);
    front(ch, which, &hex(&d), "csv", Some(&text))
}

fn keys_faults(ch: &mut Ch) -> Res {
    let which = ch.n(FRONTS);
    let mut text: Vec<char> = hex(&KEY).chars().collect();
    let insert = ch.flag();
    let p = ch.n(32 + usize::from(insert));
    const OTHERS: [char; 12] =
        ['\u{131}', '\u{660}', '\u{2002}', '\u{2028}', '\u{200B}', '\u{3000}', '\u{FEFF}', '\u{FF10}', '\u{FF21}', '\u{FFFD}', '\u{1D7D8}', '\u{10FFFF}'];
    let c = match ch.n(256 + OTHERS.len()) {
        // an argument cannot contain it
        0 if which < 2 => '\u{1}',
        i if i < 256 => char::from(i as u8),
        i => OTHERS[i - 256],
    };
    if insert {
        text.insert(p, c);
    } else {
        text[p] = c;
    }
    let text: String = text.into_iter().collect();
    front(ch, which, &texts()[0], "csv", Some(&text))
}

fn lengths(ch: &mut Ch) -> Res {
    let which = ch.n(FRONTS);
    let f = ch.of(&["csv", "json", "table"]);
    let kind = ch.n(4);
    let k = [sec::ALL[0], sec::ALL[2], sec::ALL[0], sec::ALL[2]][kind];
    let room = sec::room(k, 0);
    if kind < 2 {
        let n = ch.n(room + 1);
        let d = sec::telegram(k, &METER, 0, &sec::plaintext(n.max(2))[..n], 0);
        front(ch, which, &hex(&d), f, None)
    } else {
        let blocks = 1 + ch.n((room / 16).min(15));
        let d = sec::sealed(k, &METER, 0x0500 | (blocks as u16) << 4, &sec::plaintext(blocks * 16), 0);
        let key = hex(&KEY);
        front(ch, which, &hex(&d), f, Some(&key))
    }
}

fn widths(ch: &mut Ch) -> Res {
    let d = ch.of(&[stream(&[0x0C, 0x13, 0x78, 0x56, 0x34, 0x12, 0x02, 0x5B, 0x17, 0x00]), vec![0xE5]]);
    const LARGE: [usize; 12] = [301, 400, 511, 512, 1000, 1023, 1024, 4096, 10_000, 32_767, 65_535, 65_536];
    let width = match ch.n(301 + LARGE.len()) {
        i if i < 301 => i,
        i => LARGE[i - 301],
    };
    let t = hex(&d);
    match ch.n(3) {
        0 => {
            let mut args = strings(&["parse", "-d", &t]);
            cli_options(&mut args, None, None, Some(width), true);
            let done = cli(&args);
            cli_verdict(ch, &args, done, rendered(&t, "table", Ok(None), Some(width), true))
        }
        1 => {
            ch.note(|| format!("render {t} width {width}"));
            let got = py("render", vec![json!({"str": t}), json!({"str": "table"})], json!({"width": {"int": width}}));
            py_verdict(ch, &got, &rendered(&t, "table", Ok(None), Some(width), true).map(Value::String), exact)
        }
        _ => js_call(ch, 0, &t, "table", None, Some(width), None),
    }
}

/// Runs the tool with its standard output on a terminal; `None` where there are no terminals.
fn cli_terminal(args: &[String], columns: u16) -> Option<Done> {
    use std::io::Read;
    use std::os::fd::{FromRawFd, OwnedFd};
    use std::sync::Mutex;
    // One at a time: a terminal opened here must not be inherited by another thread's child.
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock();
    let (mut master, mut slave) = (-1, -1);
    let size = libc::winsize { ws_row: 24, ws_col: columns, ws_xpixel: 0, ws_ypixel: 0 };
    let (mut master, slave) = unsafe {
        let mut raw: libc::termios = std::mem::zeroed();
        libc::cfmakeraw(&mut raw);
        if libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), &raw, &size) != 0 {
            return None;
        }
        libc::fcntl(master, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(slave, libc::F_SETFD, libc::FD_CLOEXEC);
        (std::fs::File::from_raw_fd(master), OwnedFd::from_raw_fd(slave))
    };
    let mut command = Command::new(format!("{}/target-cli/debug/m-bus-cli", dir()));
    command.args(args).env_clear().stdin(Stdio::null()).stdout(slave).stderr(Stdio::piped());
    let child = command.spawn();
    // the parent's end of the terminal goes away with the command
    drop(command);
    let Ok(mut child) = child else { engine("the command-line tool cannot be started") };
    let mut all = Vec::new();
    let mut part = [0u8; 4096];
    while let Ok(n @ 1..) = master.read(&mut part) {
        all.extend(&part[..n]);
    }
    let mut err = String::new();
    let _ = child.stderr.take().map(|mut e| e.read_to_string(&mut err));
    let status = child.wait().ok().and_then(|s| s.code());
    Some(Done { out: String::from_utf8_lossy(&all).into_owned(), err, status })
}

fn cli_tty(ch: &mut Ch) -> Res {
    let long = sec::telegram(sec::ALL[0], &METER, 0, &sec::plaintext(160), 0);
    let d = ch.of(&[stream(&[0x0C, 0x13, 0x78, 0x56, 0x34, 0x12, 0x02, 0x5B, 0x17, 0x00]), long, vec![0xE5]]);
    let t = hex(&d);
    let (f, columns, given) =
        if ch.flag() { ("table", 1 + ch.n(260) as u16, ch.of(&[None, Some(0), Some(70)])) } else { (ch.of(&FORMATS), ch.of(&[20u16, 80, 200]), None) };
    let mut args = strings(&["parse", "-d", &t]);
    cli_options(&mut args, Some(f), None, given, true);
    let Some(done) = cli_terminal(&args, columns) else { return refused(&"no terminals here") };
    ch.note(|| format!("terminal of {columns} columns"));
    let w = rendered(&t, f, Ok(None), given.or(Some(columns.into())), true);
    cli_verdict(ch, &args, done, w)
}

// --------------------------------------------------------------------------------- one call

fn call_verdict(ch: &mut Ch, t: &str, f: &str, key: Option<[u8; 16]>) -> Res {
    ch.note(|| format!("text={t:?} format={f:?} key={:?}", key.map(|k| hex(&k))));
    let got = serialize_mbus_data(t, f, key.as_ref());
    ch.ok();
    match rendered(t, f, Ok(key), Some(100), true) {
        Ok(w) if got != w => fail("call-output", format!("returned {got:?}, the library renders {w:?}")),
        Ok(w) => out(&w),
        Err(codes) => {
            let c = got.strip_prefix("Error ").and_then(code).unwrap_or_default().to_string();
            if !codes.contains(&c) {
                return fail("call-code", format!("returned {got:?}, expected error {codes:?}"));
            }
            refused(&codes)
        }
    }
}

fn call_grid(ch: &mut Ch) -> Res {
    let d = ch.of(&sample());
    let f = ch.of(&FORMATS);
    let key = ch.of(&[None, Some(KEY), Some([0x11; 16])]);
    call_verdict(ch, &hex(&d), f, key)
}

fn call_text(ch: &mut Ch) -> Res {
    let t = some_text(ch, 6);
    let f = ch.of(&["csv", "pdf", "xml"]);
    call_verdict(ch, &t, f, None)
}
