//! The language server (P23): histories of editor messages over several
//! documents, sent to the real kdl-lsp binary over its standard streams.

use super::Prop;
use crate::engine::{Case, Part, Res, Src, fail};
use crate::ensure;
use crate::gen_text;
use crate::gen_tree;
use crate::mutate;
use kdl::KdlDocument;
use miette::Diagnostic;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P23",
        rule: "A history of didOpen, didChange, didSave, didClose and diagnostic messages over eight documents, sent to the kdl-lsp process one by one or in one write; texts are valid, broken or mutated KDL with characters of every UTF-8 and UTF-16 width and every line break. Non-trivial: at least one report with a diagnostic that is not on the first line, after the document was changed or another one opened.",
        assumptions: &[
            "Histories are those that the protocol allows: a document is opened before it is changed, saved or closed.",
            "The parser's own diagnostics are judged by P26; here they are what the parser gives for the current text.",
        ],
        parts: || vec![Part::all("fixed", |_| 1, p23_fixed), Part::random("histories", 40_000, 2_500_000, p23), Part::random("positions", 120_000, 8_000_000, p23_positions)],
    }]
}

struct Server {
    child: std::sync::Arc<std::sync::Mutex<Child>>,
    panicked: std::sync::Arc<std::sync::Mutex<Option<String>>>,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    next: u64,
}

impl Drop for Server {
    fn drop(&mut self) {
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

fn frame(out: &mut Vec<u8>, m: &Value) {
    let b = m.to_string();
    let _ = write!(out, "Content-Length: {}\r\n\r\n{b}", b.len());
}

type Fault = String;

impl Server {
    fn start() -> Result<Server, Fault> {
        let bin = std::env::var("KDLCHECK_LSP").map_err(|_| "KDLCHECK_LSP is not set".to_string())?;
        let mut child = Command::new(bin)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        let stderr = BufReader::new(child.stderr.take().unwrap());
        let child = std::sync::Arc::new(std::sync::Mutex::new(child));
        let panicked = std::sync::Arc::new(std::sync::Mutex::new(None));
        // a server that panics may wait for input forever: end it
        let (c, p) = (child.clone(), panicked.clone());
        std::thread::spawn(move || {
            for line in stderr.lines().map_while(Result::ok) {
                if line.contains("panicked at") {
                    p.lock().unwrap().get_or_insert(line);
                    let _ = c.lock().unwrap().kill();
                }
            }
        });
        Ok(Server { child, panicked, stdin, stdout, next: 1 })
    }
    fn id(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn send(&mut self, bytes: &[u8]) -> Result<(), Fault> {
        self.stdin.write_all(bytes).and_then(|_| self.stdin.flush()).map_err(|e| format!("the server is gone ({e})"))
    }
    fn read(&mut self) -> Result<Value, Fault> {
        let mut len = None;
        loop {
            let mut line = String::new();
            let n = self.stdout.read_line(&mut line).map_err(|e| e.to_string())?;
            if n == 0 {
                return Err("the server is gone (end of its output)".into());
            }
            let line = line.trim_end();
            if line.is_empty() {
                break;
            }
            if let Some(v) = line.strip_prefix("Content-Length: ") {
                len = v.parse::<usize>().ok();
            }
        }
        let mut b = vec![0; len.ok_or("no Content-Length")?];
        self.stdout.read_exact(&mut b).map_err(|e| format!("the server is gone ({e})"))?;
        serde_json::from_slice(&b).map_err(|e| format!("bad JSON from the server: {e}"))
    }
    /// The response to a request; what else the server says is skipped.
    fn response(&mut self, id: u64) -> Result<Value, Fault> {
        loop {
            let v = self.read()?;
            if v.get("method").is_none() && v["id"] == json!(id) {
                return Ok(v);
            }
            if v.get("method").is_none() {
                return Err(format!("a response nobody waits for: {v}"));
            }
        }
    }
    fn hello(&mut self) -> Result<(), Fault> {
        let id = self.id();
        let mut b = vec![];
        frame(&mut b, &json!({"jsonrpc": "2.0", "id": id, "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": {}}}));
        self.send(&b)?;
        let r = self.response(id)?;
        let caps = &r["result"]["capabilities"];
        let sync = &caps["textDocumentSync"];
        if sync["openClose"] != json!(true) || sync["change"] != json!(1) || caps["diagnosticProvider"].is_null() {
            return Err(format!("capabilities: {caps}"));
        }
        b.clear();
        frame(&mut b, &json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}));
        self.send(&b)
    }
}

/// LSP: lines end in LF, CRLF or CR; columns count UTF-16 units.
fn position(text: &str, at: usize) -> Value {
    let b = text.as_bytes();
    let (mut line, mut start) = (0, 0);
    let mut i = 0;
    while i < at {
        i += match b[i] {
            b'\r' if b.get(i + 1) == Some(&b'\n') => 2,
            b'\r' | b'\n' => 1,
            _ => {
                i += 1;
                continue;
            }
        };
        if i <= at {
            line += 1;
            start = i;
        }
    }
    let col: usize = text[start..at].chars().map(|c| c.len_utf16()).sum();
    json!({"line": line, "character": col})
}

fn expected(text: &str) -> Vec<Value> {
    let Err(e) = text.parse::<KdlDocument>() else { return vec![] };
    e.diagnostics
        .iter()
        .map(|d| {
            let (a, b) = (d.span.offset(), d.span.offset() + d.span.len());
            let mut v = json!({
                "range": {"start": position(text, a), "end": position(text, b)},
                "severity": match d.severity {
                    miette::Severity::Error => 1,
                    miette::Severity::Warning => 2,
                    miette::Severity::Advice => 4,
                },
                "message": d.to_string(),
            });
            if let Some(c) = d.code() {
                v["code"] = json!(c.to_string());
            }
            v
        })
        .collect()
}

/// One step of an editor.
#[derive(Debug)]
enum Step {
    Open(usize, String),
    Change(usize, Vec<String>),
    Save(usize, Option<String>),
    Close(usize),
    Ask(usize),
}

/// Some differ only in case, in their query or in their fragment.
const URIS: [&str; 8] = [
    "file:///a.kdl",
    "file:///A.kdl",
    "file:///dir/%C3%A9%20x.kdl",
    "untitled:Untitled-1",
    "file:///a.kdl?rev=1",
    "file:///a.kdl#L1",
    "file:///dir/a.kdl",
    "vscode-notebook-cell:/a.kdl",
];

/// Texts whose lines, columns and lengths all differ.
fn text(s: &mut Src) -> String {
    const PIECES: &[&str] = &[
        "a", "\n", " ", "é", "😀", "\r\n", "\r", "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "\u{2029}", "日本", "a 1z", "\"x\"", "}", "{", "b k=\"v", "# ", "// ☠\n", "\u{feff}", "k=", "(t)", "/*", "*/", "/-",
        "true", "1.", "\"\"\"\n", ";", "\\", "\t", "\u{1F1E9}\u{1F1EA}", "e\u{301}",
    ];
    let mut t = match s.below(5) {
        0 => mutate::text(s),
        1 | 2 => (0..s.range(1, 12)).map(|_| *s.pick(PIECES)).collect(),
        3 => {
            let tree = gen_tree::tree(s);
            let st = gen_text::Style::any(s);
            let mut r = gen_text::Ren::new(s, st);
            r.document(&tree);
            r.out
        }
        _ => String::new(),
    };
    if s.chance(1, 2) {
        // something before and after
        let head: String = (0..s.range(1, 6)).map(|_| *s.pick(&["é 😀", "\n", "\r\n", "\r", "x\u{2028}", "\u{85}", "\"日\"", "/* \u{c} */", "a;"])).collect();
        t.insert_str(0, &head);
    }
    t
}

fn check(s: &Server, uri: &str, want: &str, got: &Value) -> Res {
    let _ = s;
    let items = expected(want);
    let r = &got["result"];
    ensure!(got.get("error").is_none(), "error", "{uri} with {want:?}: {got}");
    ensure!(r["kind"] == json!("full"), "kind", "{uri} with {want:?}: {r}");
    let have: Vec<Value> = r["items"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|i| {
                    let mut v = json!({"range": i["range"], "severity": i["severity"], "message": i["message"]});
                    if !i["code"].is_null() {
                        v["code"] = i["code"].clone();
                    }
                    v
                })
                .collect()
        })
        .unwrap_or_default();
    ensure!(have == items, "report", "{uri} with {want:?}: reported {}\ninstead of {}", json!(have), json!(items));
    Ok(())
}

/// Runs a case on this thread's server; a server that fails is replaced.
fn on_server(f: impl FnOnce(&mut Server) -> Result<Res, Fault>) -> Res {
    SERVER.with(|c| {
        let mut slot = c.borrow_mut();
        if slot.is_none() {
            let mut s = match Server::start() {
                Ok(s) => s,
                Err(e) => return fail("HARNESS", e),
            };
            if let Err(e) = s.hello() {
                return fail("hello", e);
            }
            *slot = Some(s);
        }
        match f(slot.as_mut().unwrap()) {
            Ok(Ok(())) => Ok(()),
            Ok(r) => {
                *slot = None;
                r
            }
            Err(e) => {
                let sv = slot.take().unwrap();
                std::thread::sleep(std::time::Duration::from_millis(50));
                let p = sv.panicked.lock().unwrap().clone();
                fail("server", format!("{e}{}", p.map(|p| format!(": {p}")).unwrap_or_default()))
            }
        }
    })
}

fn p23(s: &mut Src, c: &mut Case) -> Res {
    let mut open: BTreeMap<usize, String> = BTreeMap::new();
    // what has been sent, with the answers that are due
    let mut steps = vec![];
    let mut want = vec![];
    let pipelined = s.chance(1, 2);
    let mut changed = false;
    let mut deep = false;
    for _ in 0..s.range(2, 24) {
        let u = if s.chance(1, 2) { s.below(2) } else { s.below(URIS.len() as u32) } as usize;
        let step = match open.get(&u) {
            None if s.chance(4, 5) => Step::Open(u, text(s)),
            None => Step::Ask(u),
            Some(_) => match s.weighted(&[5, 5, 2, 1]) {
                0 => Step::Ask(u),
                1 => {
                    let n = if s.chance(1, 6) { s.below(4) } else { 1 };
                    Step::Change(u, (0..n).map(|_| text(s)).collect())
                }
                2 => Step::Save(
                    u,
                    match s.below(4) {
                        0 | 1 => None,
                        2 => open.get(&u).cloned(),
                        // formatted on save, and the change not sent
                        _ => Some(if s.chance(1, 3) { String::new() } else { text(s) }),
                    },
                ),
                _ => Step::Close(u),
            },
        };
        match &step {
            Step::Open(u, t) => {
                changed |= !open.is_empty();
                open.insert(*u, t.clone());
            }
            Step::Change(u, ts) => {
                if let Some(t) = ts.last() {
                    changed = true;
                    open.insert(*u, t.clone());
                }
            }
            Step::Save(u, Some(t)) => {
                changed |= open.insert(*u, t.clone()).as_ref() != Some(t);
            }
            Step::Save(_, None) => {}
            Step::Close(u) => {
                open.remove(u);
            }
            Step::Ask(u) => {
                let t = open.get(u).cloned();
                let e = t.as_deref().map(expected).unwrap_or_default();
                deep |= changed && e.iter().any(|i| i["range"]["end"]["line"] != json!(0));
                want.push((*u, t));
            }
        }
        steps.push(step);
    }
    c.input(format!("{}{:?}", if pipelined { "at once: " } else { "" }, steps), deep);
    c.label(if pipelined { "in one write" } else { "one by one" });
    on_server(|sv| {
        let mut ids = vec![];
        let mut buf = vec![];
        let mut res = Ok(());
        let mut asked = 0;
        let mut version = 1;
        let doc = |u: usize| json!({"uri": URIS[u]});
        let mut finish: Vec<Value> = vec![];
        for step in &steps {
            version += 1;
            let (method, params) = match step {
                Step::Open(u, t) => ("textDocument/didOpen", json!({"textDocument": {"uri": URIS[*u], "languageId": "kdl", "version": version, "text": t}})),
                Step::Change(u, ts) => (
                    "textDocument/didChange",
                    json!({"textDocument": {"uri": URIS[*u], "version": version}, "contentChanges": ts.iter().map(|t| json!({"text": t})).collect::<Vec<_>>()}),
                ),
                Step::Save(u, saved) => (
                    "textDocument/didSave",
                    match saved {
                        Some(t) => json!({"textDocument": doc(*u), "text": t}),
                        None => json!({"textDocument": doc(*u)}),
                    },
                ),
                Step::Close(u) => ("textDocument/didClose", json!({"textDocument": doc(*u)})),
                Step::Ask(u) => ("textDocument/diagnostic", json!({"textDocument": doc(*u)})),
            };
            let mut m = json!({"jsonrpc": "2.0", "method": method, "params": params});
            if let Step::Ask(_) = step {
                let id = sv.id();
                m["id"] = json!(id);
                ids.push(id);
            }
            frame(&mut buf, &m);
            if !pipelined {
                sv.send(&buf)?;
                buf.clear();
                if let Step::Ask(_) = step {
                    let r = sv.response(*ids.last().unwrap())?;
                    let (u, t) = &want[asked];
                    asked += 1;
                    res = check_closed(sv, *u, t.as_deref(), &r);
                    if res.is_err() {
                        return Ok(res);
                    }
                }
            }
        }
        for u in open.keys() {
            finish.push(json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": doc(*u)}}));
        }
        if pipelined {
            // the answers may come in any order
            sv.send(&buf)?;
            let mut answers = BTreeMap::new();
            while answers.len() < ids.len() {
                let v = sv.read()?;
                if v.get("method").is_none() {
                    answers.insert(v["id"].as_u64().unwrap_or(0), v);
                }
            }
            for (id, (u, t)) in ids.iter().zip(&want) {
                let Some(r) = answers.get(id) else { return Ok(fail("answer", format!("no answer to request {id}"))) };
                res = check_closed(sv, *u, t.as_deref(), r);
                if res.is_err() {
                    return Ok(res);
                }
            }
        }
        buf.clear();
        for m in &finish {
            frame(&mut buf, m);
        }
        sv.send(&buf)?;
        Ok(res)
    })
}

fn check_closed(sv: &Server, u: usize, t: Option<&str>, r: &Value) -> Res {
    match t {
        Some(t) => check(sv, URIS[u], t, r),
        None => {
            ensure!(
                r.get("error").is_none() && r["result"]["items"].as_array().is_some_and(|a| a.is_empty()),
                "closed",
                "{} is not open, and has diagnostics: {r}",
                URIS[u]
            );
            Ok(())
        }
    }
}

/// A text that is known to make the v1 parser panic (see the known findings).
fn p23_fixed(s: &mut Src, c: &mut Case) -> Res {
    crate::engine::enum_index(s);
    one(c, "(true")
}

/// One document.
fn p23_positions(s: &mut Src, c: &mut Case) -> Res {
    let t = text(s);
    one(c, &t)
}

fn one(c: &mut Case, t: &str) -> Res {
    c.input(t, false);
    let want = expected(t);
    c.input(t, want.iter().any(|i| i["range"]["end"]["line"] != json!(0)));
    on_server(|sv| {
        let id = sv.id();
        let mut buf = vec![];
        let uri = URIS[0];
        frame(&mut buf, &json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "kdl", "version": 1, "text": t}}}));
        frame(&mut buf, &json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/diagnostic", "params": {"textDocument": {"uri": uri}}}));
        frame(&mut buf, &json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": uri}}}));
        sv.send(&buf)?;
        let r = sv.response(id)?;
        Ok(check(sv, uri, t, &r))
    })
}
