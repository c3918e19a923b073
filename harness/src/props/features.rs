//! The cargo features (P24): what the library does must not depend on which
//! of them are on. The same script runs here and in builds of this program
//! with other features, and the reports are compared.

use crate::engine::Src;
use crate::tree;
use kdl::{FormatConfig, KdlDocument, KdlEntry, KdlError, KdlIdentifier, KdlNode, KdlValue};
use std::fmt::Write as _;
use std::hash::{DefaultHasher, Hash, Hasher};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn error(out: &mut String, what: &str, e: &KdlError) {
    writeln!(out, "{what}: error {e}").unwrap();
    for d in &e.diagnostics {
        writeln!(out, "  {:?} {:?} {:?} {:?} {}..+{}", d.severity, d.message, d.label, d.help, d.span.offset(), d.span.len()).unwrap();
        assert_eq!(d.input, e.input);
    }
}

fn entry(out: &mut String, e: &KdlEntry) {
    tree::show_entry(&tree::entry_of(e), out);
    write!(out, " {:?} {:?} {:?} {}", e.format(), e.name().map(|n| n.repr()), e.ty().map(|n| n.repr()), e.len()).unwrap();
    out.push('\n');
}

fn node(out: &mut String, n: &KdlNode) {
    writeln!(out, "{:?} {:?} {:?} {:?} {}", n.name().value(), n.name().repr(), n.ty().map(|t| (t.value(), t.repr())), n.format(), n.len()).unwrap();
    for e in n.entries() {
        entry(out, e);
    }
    if let Some(c) = n.children() {
        document(out, c);
    }
}

fn document(out: &mut String, d: &KdlDocument) {
    writeln!(out, "{{ {:?} {}", d.format(), d.len()).unwrap();
    for n in d.nodes() {
        node(out, n);
    }
    out.push_str("}\n");
}

fn value(s: &mut Src) -> KdlValue {
    match s.below(6) {
        0 => KdlValue::Integer(s.below(1000) as i128 - 500),
        1 => KdlValue::String(s.pick(&["x", "", "true", "a b", "é\n", "1e5", "\"", "-1", "#inf"]).to_string()),
        2 => KdlValue::Bool(s.chance(1, 2)),
        3 => KdlValue::Null,
        4 => KdlValue::Float(*s.pick(&[0.5, -0.0, 1e300, f64::INFINITY, f64::NAN, 3.0])),
        _ => KdlValue::Integer(i64::MAX as i128 * 4),
    }
}

/// The n-th node of a document, counting all levels.
fn nth(d: &mut KdlDocument, n: &mut usize) -> Option<*mut KdlNode> {
    for k in d.nodes_mut() {
        if *n == 0 {
            return Some(k);
        }
        *n -= 1;
        if let Some(c) = k.children_mut()
            && let Some(p) = nth(c, n)
        {
            return Some(p);
        }
    }
    None
}

fn edit(out: &mut String, s: &mut Src, d: &mut KdlDocument) {
    let op = s.below(16);
    let mut i = s.below(12) as usize;
    // the pointer is used before the document is touched again
    let Some(n) = nth(d, &mut i).map(|p| unsafe { &mut *p }) else {
        d.nodes_mut().push(KdlNode::new("first"));
        return;
    };
    let key = *s.pick(&["k", "a", "x y", ""]);
    match op {
        0 => n.push(value(s)),
        1 => {
            let v = value(s);
            let old = n.insert(key, v);
            writeln!(out, "insert: {:?}", old.map(|e| e.to_string())).unwrap();
        }
        2 => {
            let old = n.remove(key).map(|e| e.to_string());
            writeln!(out, "remove: {old:?}").unwrap();
        }
        3 if !n.is_empty() => {
            let at = s.below(n.len() as u32) as usize;
            let e = n.entries_mut().remove(at);
            entry(out, &e);
        }
        4 => n.set_name(key),
        5 => n.set_ty(key),
        6 => n.ensure_children().nodes_mut().push(KdlNode::new(key)),
        7 => n.clear_children(),
        8 => {
            let v = value(s);
            if let Some(o) = n.get_mut(key) {
                *o = v;
            }
            writeln!(out, "get: {:?}", n.get(key)).unwrap();
        }
        9 => n.autoformat(),
        10 => n.clear_format_recursive(),
        11 => {
            if let Some(e) = n.entries_mut().first_mut() {
                e.set_value(value(s));
                e.clear_format();
            }
        }
        12 => {
            if let Some(e) = n.entries_mut().first_mut() {
                e.autoformat();
                e.set_ty("t");
            }
        }
        13 => {
            let mut c = KdlDocument::new();
            c.nodes_mut().push(KdlNode::new(key));
            n.set_children(c);
        }
        14 => n.retain(|e| e.name().is_none()),
        _ => {
            let v = value(s);
            n.push(KdlEntry::new_prop(key, v));
        }
    }
}

/// Everything observable about a text and some operations on it, apart from
/// positions in the tree. `pieces`: also the parsers that v1-fallback changes.
pub fn script(text: &str, ops: &[u32], pieces: bool) -> String {
    let mut out = String::new();
    let mut s = Src::replay(ops.to_vec());
    let parsed = KdlDocument::parse_v2(text);
    match &parsed {
        Ok(d) => {
            document(&mut out, d);
            writeln!(out, "{d}").unwrap();
            let again = KdlDocument::parse_v2(&d.to_string());
            writeln!(out, "again: {} {}", again.as_ref().ok() == Some(d), again.as_ref().ok().map(hash) == Some(hash(d))).unwrap();
            writeln!(out, "hash: {:x}", hash(d)).unwrap();
            let mut moved = KdlDocument::parse_v2(&format!("\n\n{text}")).ok();
            if let Some(m) = &mut moved {
                writeln!(out, "moved: {} {}", m == d, m.nodes() == d.nodes()).unwrap();
                writeln!(out, "moved: {:?}", m.nodes().iter().zip(d.nodes()).map(|(a, b)| hash(a) == hash(b)).collect::<Vec<_>>()).unwrap();
            }
        }
        Err(e) => error(&mut out, "document", e),
    }
    if pieces {
        match KdlDocument::parse(text) {
            Ok(d) => document(&mut out, &d),
            Err(e) => error(&mut out, "parse", &e),
        }
        match text.parse::<KdlDocument>() {
            Ok(d) => document(&mut out, &d),
            Err(e) => error(&mut out, "from_str", &e),
        }
        match KdlNode::parse(text) {
            Ok(n) => node(&mut out, &n),
            Err(e) => error(&mut out, "node", &e),
        }
        match KdlEntry::parse(text) {
            Ok(n) => entry(&mut out, &n),
            Err(e) => error(&mut out, "entry", &e),
        }
        match KdlIdentifier::parse(text) {
            Ok(n) => writeln!(out, "{:?} {:?}", n.value(), n.repr()).unwrap(),
            Err(e) => error(&mut out, "identifier", &e),
        }
    }
    let Ok(mut d) = parsed else { return out };
    for _ in 0..s.below(6) {
        edit(&mut out, &mut s, &mut d);
        writeln!(out, "edited: {d}").unwrap();
    }
    document(&mut out, &d);
    let mut v2 = d.clone();
    v2.ensure_v2();
    writeln!(out, "v2: {v2} {}", v2 == d).unwrap();
    let c = FormatConfig::builder().indent_level(s.below(3) as usize).indent(s.pick(&["    ", "\t", ""])).no_comments(s.chance(1, 3)).build();
    d.autoformat_config(&c);
    writeln!(out, "formatted: {d}").unwrap();
    document(&mut out, &d);
    d.clear_format_recursive();
    writeln!(out, "cleared: {d}").unwrap();
    out
}

/// What deserialization and serialization give.
pub fn serde_script(text: &str) -> String {
    #[cfg(any(feature = "v2", feature = "nospan", feature = "full"))]
    {
        use serde::Deserialize;
        use std::collections::BTreeMap;
        #[derive(Deserialize, serde::Serialize, Debug)]
        #[serde(untagged)]
        enum Any {
            Bool(bool),
            Int(i64),
            Float(f64),
            Str(String),
            Seq(Vec<Any>),
            Map(BTreeMap<String, Any>),
            Unit(()),
        }
        #[derive(Deserialize, serde::Serialize, Debug)]
        struct Node {
            #[serde(rename = "#type")]
            ty: Option<String>,
            #[serde(rename = "#args")]
            args: Vec<Option<String>>,
            k: Option<i32>,
            a: bool,
        }
        let mut out = String::new();
        fn show<T: std::fmt::Debug + serde::Serialize>(out: &mut String, r: Result<T, kdl::de::Error>) {
            match r {
                Ok(v) => {
                    let t = kdl::se::to_string(&v).map_err(|e| e.to_string());
                    writeln!(out, "{v:?} {t:?}").unwrap()
                }
                Err(e) => writeln!(out, "error {e}").unwrap(),
            }
        }
        show(&mut out, kdl::de::from_str::<Any>(text));
        show(&mut out, kdl::de::from_str::<BTreeMap<String, Any>>(text));
        show(&mut out, kdl::de::from_str::<BTreeMap<String, Node>>(text));
        show(&mut out, kdl::de::from_str::<BTreeMap<String, Option<u8>>>(text));
        show(&mut out, kdl::de::from_str::<Vec<Vec<String>>>(text));
        out
    }
    #[cfg(not(any(feature = "v2", feature = "nospan", feature = "full")))]
    {
        let _ = text;
        String::new()
    }
}

fn guarded(f: impl FnOnce() -> String) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(_) => "panicked".into(),
    }
}

/// The other side: one request per line, one report per line.
pub fn worker() -> i32 {
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(|| {
            use std::io::{BufRead, Write};
            let out = std::io::stdout();
            for line in std::io::stdin().lock().lines().map_while(Result::ok) {
                let Ok(v) = serde_json::from_str::<serde_json::Value>(&line) else { return 2 };
                let text = v["text"].as_str().unwrap_or_default();
                let ops: Vec<u32> = v["ops"].as_array().into_iter().flatten().filter_map(|o| o.as_u64()).map(|o| o as u32).collect();
                let r = if v["serde"] == serde_json::json!(true) {
                    guarded(|| serde_script(text))
                } else {
                    let pieces = v["pieces"] == serde_json::json!(true);
                    guarded(|| script(text, &ops, pieces))
                };
                let mut o = out.lock();
                if writeln!(o, "{}", serde_json::json!(r)).and_then(|_| o.flush()).is_err() {
                    return 2;
                }
            }
            0
        })
        .unwrap()
        .join()
        .unwrap_or(2)
}

#[cfg(feature = "v2")]
pub use master::props;

#[cfg(feature = "v2")]
mod master {
    use super::*;
    use crate::engine::{Case, Part, Res, fail};
    use crate::ensure;
    use crate::props::Prop;
    use crate::{gen_text, gen_tree, mutate};
    use serde_json::json;
    use std::cell::RefCell;
    use std::collections::BTreeMap;
    use std::io::{BufRead, BufReader, Write};
    use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

    pub fn props() -> Vec<Prop> {
        vec![Prop {
            id: "P24",
            rule: "Valid, mutated and assembled texts, and sequences of edits, run in builds of the library with no features, without span, with v1, and with everything; reports of all that can be observed (trees, formats, printed text, diagnostics, equality, hashes, autoformat, and serde values) are compared with those of the default features. Non-trivial: the text parses and has at least three parts, or it is rejected with a diagnostic that is not at its start.",
            assumptions: &["Spans in the tree exist only with the span feature (P05). With v1-fallback on, the parsers that fall back are left out (P18)."],
            parts: || vec![Part::random("scripts", 30_000, 900_000, p24), Part::random("serde", 40_000, 1_200_000, p24_serde)],
        }]
    }

    struct Worker {
        child: Child,
        stdin: ChildStdin,
        stdout: BufReader<ChildStdout>,
    }
    impl Drop for Worker {
        fn drop(&mut self) {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
    }
    thread_local! {
        static WORKERS: RefCell<BTreeMap<&'static str, Worker>> = const { RefCell::new(BTreeMap::new()) };
    }

    fn ask(flavour: &'static str, req: &serde_json::Value) -> Result<String, String> {
        WORKERS.with(|w| {
            let mut w = w.borrow_mut();
            if !w.contains_key(flavour) {
                let exe = std::env::current_exe().map_err(|e| e.to_string())?;
                let exe = exe.with_file_name(format!("kdlcheck-{flavour}"));
                let mut child = Command::new(exe)
                    .args(["worker", "features"])
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .map_err(|e| format!("{flavour}: {e}"))?;
                let (stdin, stdout) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
                w.insert(flavour, Worker { child, stdin, stdout });
            }
            let k = w.get_mut(flavour).unwrap();
            let mut line = String::new();
            let r = writeln!(k.stdin, "{req}").and_then(|_| k.stdin.flush()).and_then(|_| k.stdout.read_line(&mut line));
            match r {
                Ok(n) if n > 0 => serde_json::from_str(&line).map_err(|e| e.to_string()),
                _ => {
                    w.remove(flavour);
                    Err(format!("the {flavour} build died"))
                }
            }
        })
    }

    fn text(s: &mut Src) -> String {
        if s.chance(2, 3) {
            let tree = gen_tree::tree(s);
            let st = gen_text::Style::any(s);
            let mut r = gen_text::Ren::new(s, st);
            r.document(&tree);
            r.out
        } else {
            mutate::text(s)
        }
    }

    fn differ(flavour: &str, a: &str, b: &str) -> String {
        for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
            if x != y {
                return format!("with the default features line {i} of the report is {x:?}, in the {flavour} build {y:?}");
            }
        }
        format!("reports of {} and {} ({flavour} build) lines", a.lines().count(), b.lines().count())
    }

    fn p24(s: &mut Src, c: &mut Case) -> Res {
        let text = text(s);
        let ops: Vec<u32> = (0..30).map(|_| s.below(64)).collect();
        c.input(format!("{text:?}, operations {ops:?}"), match KdlDocument::parse_v2(&text) {
            Ok(d) => tree::count(&tree::tree_of(&d)) >= 3,
            Err(e) => e.diagnostics.first().is_some_and(|d| d.span.offset() > 0),
        });
        let all = guarded(|| script(&text, &ops, true));
        let v2 = guarded(|| script(&text, &ops, false));
        for (fl, pieces) in [("plain", true), ("nospan", true), ("v1", true), ("full", false)] {
            match ask(fl, &json!({"text": text, "ops": ops, "pieces": pieces})) {
                Ok(r) => {
                    let want = if pieces { &all } else { &v2 };
                    ensure!(r == *want, format!("differs {fl}"), "{text:?}: {}", differ(fl, want, &r));
                }
                Err(e) if e.contains("died") => return fail(format!("died {fl}"), format!("{text:?}: {e}")),
                Err(e) => return fail("HARNESS", e),
            }
        }
        Ok(())
    }

    fn p24_serde(s: &mut Src, c: &mut Case) -> Res {
        let text = text(s);
        let want = guarded(|| serde_script(&text));
        c.input(&text, want.lines().filter(|l| !l.starts_with("error")).count() > 0);
        match ask("nospan", &json!({"text": text, "serde": true})) {
            Ok(r) => ensure!(r == want, "serde nospan", "{text:?}: {}", differ("nospan", &want, &r)),
            Err(e) if e.contains("died") => return fail("died nospan", format!("{text:?}: {e}")),
            Err(e) => return fail("HARNESS", e),
        }
        Ok(())
    }
}
