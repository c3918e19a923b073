//! Robustness and positions: P04 (nothing panics or runs away), P05 (spans),
//! P26 (diagnostics), P27 (parsing pieces on their own).
//! These run in a build without the v1 fallback.

use super::Prop;
use crate::engine::{Case, Part, Res, Src, enum_index, fail};
use crate::tree::{entry_of, node_of, val_of};
use crate::{corpus, ensure, gen_text, mutate, refkdl};
use kdl::{FormatConfig, KdlDocument, KdlEntry, KdlError, KdlIdentifier, KdlNode};
use miette::SourceSpan;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P04",
            rule: "Random character strings, token soup, mutated documents, every token sequence up to length 4 (5 thorough) and the conformance suite go through every v2 entry point (document, node, entry, identifier), and what is accepted is then printed, autoformatted, cloned, compared and looked into. In child processes, 24 shapes of text are made 100,000 pieces long (1,000,000 thorough) and 200 levels deep, and the memory traffic of parsing, printing, formatting and converting is counted at doubling sizes. Non-trivial: more than three characters.",
            assumptions: &[
                "Child processes parse on a thread with an 8 MiB stack; a child that is killed for lack of memory or runs into its 300 s limit makes the check fail as undecided rather than as violated.",
                "Nesting is claimed to 200 levels; see the known finding on deeper nesting.",
            ],
            parts: || {
                vec![
                    // what is too slow is found here before it gets in the way
                    Part::all("effort", n_effort, p04_effort),
                    Part::random("nesting-effort", 20_000, 400_000, p04_nesting),
                    Part::random("any-text", 500_000, 10_000_000, p04),
                    Part::all("token-sequences", enum4, p04_enum),
                    Part::all("conformance-suite", n_corpus, p04_corpus),
                    Part::all("long", n_long, p04_long),
                    Part::all("deep", n_deep, p04_deep),
                ]
            },
        },
        Prop {
            id: "P05",
            rule: "Documents rendered from random trees, mutations of them and the conformance suite are parsed; the span of every document, node, entry and identifier is compared with the text and with the positions an independent reference parser reports. Non-trivial: accepted and holding at least two nodes or entries.",
            assumptions: &["Built with the `span` feature and without `v1-fallback`."],
            parts: || {
                vec![
                    Part::random("documents", 400_000, 8_000_000, p05),
                    Part::random("long-runs", 40_000, 800_000, p05_runs),
                    Part::random("moved", 100_000, 2_000_000, p05_moved),
                    Part::all("conformance-suite", n_corpus, p05_corpus),
                ]
            },
        },
        Prop {
            id: "P26",
            rule: "Texts that the parser rejects (mutations, soup, enumerated token sequences, the conformance suite, and documents into which a known set of bad lines is mixed). Non-trivial: rejected and longer than three characters.",
            assumptions: &[],
            parts: || {
                vec![
                    Part::random("rejected", 500_000, 8_000_000, p26),
                    Part::all("token-sequences", enum4, p26_enum),
                    Part::random("long-runs", 40_000, 600_000, p26_runs),
                    Part::random("shifted", 200_000, 3_000_000, p26_shift),
                    Part::random("bad-lines", 100_000, 2_000_000, p26_lines),
                ]
            },
        },
        Prop {
            id: "P27",
            rule: "Identifiers, entries and nodes rendered with random syntax and padding, mutations of them, and fragments around one doubtful token are parsed on their own; an independent reference parser decides what they mean or that they are invalid. Non-trivial: more than one character.",
            assumptions: &["Trailing slashdashed parts are not judged when a node or entry is parsed alone."],
            parts: || {
                vec![
                    Part::random("identifiers", 300_000, 5_000_000, p27_ident),
                    Part::random("entries", 300_000, 5_000_000, p27_entry),
                    Part::random("nodes", 300_000, 5_000_000, p27_node),
                    Part::random("one-token", 400_000, 8_000_000, p27_token),
                    Part::all("token-sequences", enum4, p27_enum),
                ]
            },
        },
    ]
}

fn enum4(thorough: bool) -> u64 {
    mutate::enum_count(if thorough { 5 } else { 4 })
}
fn n_corpus(_: bool) -> u64 {
    corpus::v2().len() as u64
}

// ---- P04 ----

fn p04(s: &mut Src, c: &mut Case) -> Res {
    let t = mutate::text(s);
    total(&t, c)
}
fn p04_enum(s: &mut Src, c: &mut Case) -> Res {
    total(&mutate::enumerated(enum_index(s)), c)
}
fn p04_corpus(s: &mut Src, c: &mut Case) -> Res {
    total(&corpus::v2()[enum_index(s) as usize].text, c)
}

/// Panics are caught and reported by the engine.
fn total(t: &str, c: &mut Case) -> Res {
    c.input(t, t.chars().count() > 3);
    if let Ok(i) = KdlIdentifier::parse(t) {
        c.label("identifier");
        let _ = (i.to_string(), i.len(), i.is_empty(), format!("{i:?}"));
    }
    if let Ok(mut e) = KdlEntry::parse(t) {
        c.label("entry");
        let _ = (e.to_string(), e.len(), e.is_empty(), format!("{e:?}"));
        e.autoformat();
        e.clear_format();
        let _ = e.to_string();
    }
    if let Ok(n) = KdlNode::parse(t) {
        c.label("node");
        let _ = (n.to_string(), n.len(), n.is_empty(), format!("{n:?}"));
        let mut m = n.clone();
        m.autoformat();
        let _ = m.to_string();
        m.clear_format_recursive();
        let _ = m.to_string();
    }
    match KdlDocument::parse_v2(t) {
        Ok(d) => {
            c.label("document");
            let _ = (d.to_string(), d.len(), d.is_empty(), format!("{d:?}"));
            for how in 0..3 {
                let mut m = d.clone();
                match how {
                    0 => m.autoformat(),
                    1 => m.autoformat_no_comments(),
                    _ => {
                        let mut k = FormatConfig::builder().indent_level(1).indent("\t").build();
                        k.entry_autoformate_keep = true;
                        m.autoformat_config(&k)
                    }
                }
                let _ = m.to_string();
            }
            let mut m = d.clone();
            m.clear_format_recursive();
            let _ = m.to_string();
        }
        Err(e) => {
            let _ = (e.to_string(), format!("{e:?}"));
        }
    }
    Ok(())
}

/// Families of text with a size.
const SHAPES: &[(&str, fn(usize) -> String)] = &[
    ("nodes", |k| "a 1 b=#true\n".repeat(k)),
    ("entries", |k| format!("a{}", " 1".repeat(k))),
    ("props", |k| format!("a{}", " b=1".repeat(k))),
    ("closing braces", |k| "}".repeat(k)),
    ("closing braces on lines", |k| "}\n".repeat(k)),
    ("bad lines", |k| "a 1z\n".repeat(k)),
    ("bad names", |k| "1a\n".repeat(k)),
    ("block comment", |k| format!("/*{}*/", "x".repeat(k))),
    ("stars in a comment", |k| format!("/*{}*/", "*".repeat(k))),
    ("line comments", |k| "// x\n".repeat(k)),
    ("slashdashed nodes", |k| "/-a 1\n".repeat(k)),
    ("slashdashed entries", |k| format!("a{}", " /-b=1".repeat(k))),
    ("slashdashes", |k| "/-".repeat(k)),
    ("continuations", |k| format!("a{} 1", " \\\n".repeat(k))),
    ("semicolons", |k| "a;".repeat(k)),
    ("empty semicolons", |k| ";".repeat(k)),
    ("hashes", |k| "#".repeat(k)),
    ("quotes", |k| "\"".repeat(k)),
    ("raw quotes", |k| format!("a {}\"x\"{}", "#".repeat(k), "#".repeat(k))),
    ("escapes", |k| format!("a \"{}\"", "\\n\\u{41}".repeat(k))),
    ("whitespace escapes", |k| format!("a \"x\\{}y\"", "\n ".repeat(k))),
    ("digits", |k| format!("a {}", "1".repeat(k))),
    ("float digits", |k| format!("a 1.{}e5", "1_".repeat(k))),
    ("equals", |k| format!("a b{}", "=".repeat(k))),
    ("parentheses", |k| "(".repeat(k)),
    ("typed", |k| "(t)a (u)1\n".repeat(k)),
    ("multi-line string", |k| format!("a \"\"\"\n{}  \"\"\"", "  x\n".repeat(k))),
    ("multi-line escapes", |k| format!("a \"\"\"\n{}  \"\"\"", "  x\\\n   y\n".repeat(k))),
    ("multi-line raw", |k| format!("a #\"\"\"\n{}  \"\"\"#", "  x\"\n".repeat(k))),
    ("spaces", |k| " ".repeat(k)),
    ("newlines", |k| "\r\n".repeat(k)),
    ("unicode", |k| format!("a \"{}\"", "é🦀\u{300}".repeat(k))),
    ("marks", |k| "\u{feff}".repeat(k)),
    ("long name", |k| "a".repeat(k)),
    ("blocks", |k| "a { b; }\n".repeat(k)),
    ("slashdashed blocks", |k| format!("a{}", " /-{ b; }".repeat(k))),
    ("backslashes", |k| "\\".repeat(k)),
    ("dots", |k| format!("a {}", ".".repeat(k))),
];

/// Families of text with a depth.
const DEEP: &[(&str, fn(usize) -> String)] = &[
    ("blocks", |k| format!("{}{}", "a {".repeat(k), "}".repeat(k))),
    ("blocks on lines", |k| format!("{}{}", "a {\n".repeat(k), "}\n".repeat(k))),
    ("open blocks", |k| "a {".repeat(k)),
    ("bare braces", |k| "{".repeat(k)),
    ("bare blocks", |k| format!("{}{}", "{".repeat(k), "}".repeat(k))),
    ("slashdashed nodes", |k| format!("{}{}", "/-a {".repeat(k), "}".repeat(k))),
    ("slashdashed children", |k| format!("{}{}", "a /-{".repeat(k), "}".repeat(k))),
    ("slashdashed before children", |k| format!("a {}{}", "/-{ a ".repeat(k), "}".repeat(k))),
    ("children then node", |k| format!("{}{}", "a {".repeat(k), "} b".repeat(k))),
    ("slashdashed then node", |k| format!("{}{}", "/-a {".repeat(k), "} b".repeat(k))),
    ("children then slashdashed", |k| format!("{}{}", "a {".repeat(k), "} /-{}".repeat(k))),
    ("bad values", |k| format!("{}{}", "a 1z {".repeat(k), "}".repeat(k))),
    ("entries after", |k| format!("{}{}", "a {".repeat(k), "} 1".repeat(k))),
    ("comments", |k| format!("{}{}", "/*".repeat(k), "*/".repeat(k))),
    ("open comments", |k| "/*".repeat(k)),
    ("bad slashdashed", |k| format!("{}{}", "/-a 1z {".repeat(k), "}".repeat(k))),
    ("mixed", |k| format!("{}{}", "a 1 b=2 /-c {\n/-d {\n".repeat(k / 2), "}\n}\n".repeat(k / 2))),
];

/// More nesting, for the effort alone.
const NESTED: &[(&str, fn(usize) -> String)] = &[
    ("bad names in slashdashed children", |k| format!("{}a{}", " /-{\\".repeat(k), "}{".repeat(k))),
    ("slashdashed children before children", |k| format!("{}{}", "a /-{ b } {".repeat(k), "}".repeat(k))),
    ("children before slashdashed children", |k| format!("{}{}", "a {} /-{".repeat(k), "}".repeat(k))),
    ("slashdashed in slashdashed", |k| format!("{}{}", "/-a /-1 /-{ /-b {".repeat(k), "}}".repeat(k))),
    ("continuations", |k| format!("{}{}", "a \\\n 1 \\\n {\\\n".repeat(k), "} \\\n\n".repeat(k))),
    ("unclosed after nodes", |k| format!("{}b", "a; c 1 {".repeat(k))),
    ("types", |k| format!("{}t{} a", "(".repeat(k), ")".repeat(k))),
    ("trailing slashdashed children", |k| format!("{}{}", "a {".repeat(k), "} /-{ b /-{} }\n".repeat(k))),
];

fn n_long(thorough: bool) -> u64 {
    SHAPES.len() as u64 * if thorough { 2 } else { 1 }
}
fn n_deep(_: bool) -> u64 {
    DEEP.len() as u64 * 2
}

fn p04_long(s: &mut Src, c: &mut Case) -> Res {
    let i = enum_index(s) as usize;
    let (i, k) = if i < SHAPES.len() { (i, 100_000) } else { (i - SHAPES.len(), 1_000_000) };
    let name = SHAPES[i].0;
    c.input(format!("{name}, {k} pieces"), true);
    child("long", i, k, &format!("long {name}")).map(|_| ())
}

fn p04_deep(s: &mut Src, c: &mut Case) -> Res {
    let i = enum_index(s) as usize;
    // 200 levels have to work; 20,000 levels are recorded as a finding.
    let (i, k) = (i / 2, if i % 2 == 0 { 200 } else { 20_000 });
    let name = DEEP[i].0;
    c.input(format!("{name}, {k} levels"), true);
    let sig = if k == 200 { format!("deep {name}") } else { format!("20000 levels of {name}") };
    child("deep", i, k, &sig).map(|_| ())
}

/// Run one case in a child process; a crash there is a violation.
fn child(what: &str, shape: usize, k: usize, sig: &str) -> Result<String, crate::engine::Fail> {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut ch = match std::process::Command::new(exe)
        .args(["worker", what, &shape.to_string(), &k.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return fail("HARNESS", format!("cannot start the child: {e}")),
    };
    let started = std::time::Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                let mut out = String::new();
                if let Some(mut o) = ch.stdout.take() {
                    let _ = std::io::Read::read_to_string(&mut o, &mut out);
                }
                return match (st.code(), st.signal()) {
                    (Some(0), _) => Ok(out),
                    // SIGABRT, SIGBUS, SIGSEGV: a stack overflow ends in one of these
                    (_, Some(g)) if g == 6 || g == 7 || g == 11 => fail(sig, format!("the process died of signal {g}")),
                    (Some(101), _) => fail(sig, format!("panicked: {out}")),
                    other => fail("HARNESS", format!("the child ended with {other:?}")),
                };
            }
            Ok(None) if started.elapsed().as_secs() > 300 => {
                let _ = ch.kill();
                let _ = ch.wait();
                return fail("HARNESS", format!("{sig}: no answer within 300 s"));
            }
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(2)),
            Err(e) => return fail("HARNESS", format!("{e}")),
        }
    }
}

/// The other side of `child`.
pub fn worker(args: &[String]) -> i32 {
    let (shape, k): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let text = match args[0].as_str() {
        "long" => SHAPES[shape].1(k),
        _ => DEEP[shape].1(k),
    };
    let res = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let _ = KdlIdentifier::parse(&text);
            let _ = KdlEntry::parse(&text);
            let _ = KdlNode::parse(&text);
            match KdlDocument::parse_v2(&text) {
                Ok(d) => {
                    if d.to_string() != text {
                        return false;
                    }
                    let mut m = d.clone();
                    m.autoformat();
                    let out = m.to_string();
                    let again = KdlDocument::parse_v2(&out).is_ok();
                    // equality and dropping recurse as well
                    again && m == m.clone() && d == d.clone()
                }
                Err(e) => !e.diagnostics.is_empty(),
            }
        })
        .unwrap()
        .join();
    match res {
        Ok(true) => 0,
        Ok(false) => {
            println!("wrong result");
            101
        }
        Err(_) => {
            println!("{}", "panic");
            101
        }
    }
}

/// How much memory parsing asks for, as a measure of work that is the same in
/// every run.
fn effort(text: &str) -> u64 {
    let before = crate::ALLOCATED.with(|a| a.get());
    let r = KdlDocument::parse_v2(text);
    // what can be done with a parsed document is no more expensive
    if let Ok(mut d) = r {
        let _ = (d.to_string(), d.is_empty(), d.clone() == d);
        d.clone().ensure_v2();
        for n in d.nodes() {
            let _ = (n.to_string(), n.len());
        }
        d.autoformat();
        let _ = d.to_string();
        d.clear_format_recursive();
        let _ = d.to_string();
    }
    crate::ALLOCATED.with(|a| a.get()) - before
}

fn n_effort(_: bool) -> u64 {
    (DEEP.len() + NESTED.len() + SHAPES.len()) as u64
}

fn p04_effort(s: &mut Src, c: &mut Case) -> Res {
    let i = enum_index(s) as usize;
    let nested = DEEP.len() + NESTED.len();
    let (name, f) = if i < DEEP.len() {
        DEEP[i]
    } else if i < nested {
        NESTED[i - DEEP.len()]
    } else {
        SHAPES[i - nested]
    };
    let sizes: &[usize] = if i < nested { &[4, 8, 12, 16, 20, 24, 48, 96] } else { &[64, 128, 256, 512, 1024, 2048] };
    c.input(format!("{name}: sizes {sizes:?}"), true);
    // Small inputs first, so that an exponential case is caught while it is
    // still cheap.
    let mut prev: Option<(usize, u64)> = None;
    for &k in sizes {
        let e = effort(&f(k)) + 2000;
        if let Some((pk, pe)) = prev {
            // quadratic growth at most, with some slack
            let ratio = k as f64 / pk as f64;
            let limit = pe as f64 * ratio * ratio * 1.5;
            ensure!((e as f64) < limit, format!("effort {name}"), "parsing {name} with {k} pieces allocates {e} bytes, with {pk} pieces {pe}");
        }
        prev = Some((k, e));
    }
    Ok(())
}

/// Random nesting patterns: what opens a level and what closes it are short
/// token sequences, valid or not.
fn p04_nesting(s: &mut Src, c: &mut Case) -> Res {
    const T: &[&str] = &["a", " ", "{", "}", "/-", "1", "\n", ";", "(", ")", "=", "b=1", "/*", "*/", "\"", "1z", "\\", "//", "#", "a {", "a {\n", " /-{", "/-a {", "\"\"\"\n", "#\""];
    let mut seq = |n: u32| -> String {
        let k = s.range(1, n);
        (0..k).map(|_| *s.pick(T)).collect()
    };
    let (mut open, mut mid, mut close) = (seq(4), seq(2), seq(4));
    if s.chance(1, 3) {
        // levels that are valid
        let mut some = |xs: &[&str], n: u32| -> String {
            let k = s.below(n + 1);
            (0..k).map(|_| *s.pick(xs)).collect()
        };
        let lead = some(&["\n", "/-x;", "//c\n", "/*c*/", "/-y {\n}\n", "a;", "a {};", "/-", "\\\n"], 2);
        let entries = some(&[" 1", " k=1", " /-2", " \\\n", " /-k=(t)3", "  ", " /*c*/"], 3);
        let before = some(&[" /-{}", " /-{ b 1; }", " \\\n", " /-{\n/-c {}\n}", "/*c*/"], 2);
        let end = some(&["\n", ";", "\nz 1\n", "\n/-z {}\n", "\n//c\n", " ", "\\\n", " /-9"], 2);
        let after = some(&[" /-{}", "\n", ";", " /-{ b\n}", ";b 2;", "//c\n", "\\\n", "\n/-"], 2);
        let block = some(&[" {", " /-{", "{"], 1);
        open = format!("{lead}n{entries}{before}{}", if block.is_empty() { " {" } else { &block });
        close = format!("{end}}}{after}");
        mid = some(&["\n", "a", "a 1;", "/-b"], 1);
    }
    c.input(format!("{open:?} {mid:?} {close:?}"), open.contains('{') || open.contains("/*") || open.contains('('));
    let f = |k: usize| format!("{}{mid}{}", open.repeat(k), close.repeat(k));
    c.label_if(KdlDocument::parse_v2(&f(2)).is_ok(), "valid");
    let mut seen = vec![];
    for k in [2usize, 4, 8, 16, 32] {
        let e = effort(&f(k)) + 4000;
        // Four times the levels: at most about the fourth power, while doubling
        // the work with each level multiplies it by 4096 between 4 and 16.
        if seen.len() >= 2 {
            let (pk, pe): (usize, u64) = seen[seen.len() - 2];
            ensure!(e < pe * 250, "effort of nesting", "parsing {k} levels allocates {e} bytes, {pk} levels {pe}");
        }
        seen.push((k, e));
    }
    Ok(())
}

// ---- P05 ----

fn sl<'a>(t: &'a str, sp: SourceSpan, what: &str) -> Result<&'a str, crate::engine::Fail> {
    let (a, b) = (sp.offset(), sp.offset() + sp.len());
    match t.get(a..b) {
        Some(x) => Ok(x),
        None => fail("bounds", format!("{what} span {a}..{b} is outside the text or splits a character")),
    }
}

fn p05(s: &mut Src, c: &mut Case) -> Res {
    let t = if s.chance(3, 10) { mutate::text(s) } else { gen_text::document(s).text };
    spans(&t, c)
}
fn p05_runs(s: &mut Src, c: &mut Case) -> Res {
    spans(&mutate::repeated(s), c)
}
fn p05_corpus(s: &mut Src, c: &mut Case) -> Res {
    spans(&corpus::v2()[enum_index(s) as usize].text, c)
}

fn spans(t: &str, c: &mut Case) -> Res {
    c.input(t, false);
    let Ok(d) = KdlDocument::parse_v2(t) else {
        c.label("rejected");
        return Ok(());
    };
    let r = refkdl::parse(t);
    let reference = match &r.verdict {
        refkdl::Verdict::Ok(p) if r.gray.is_none() => Some(&p.nodes[..]),
        _ => None,
    };
    c.nontrivial = crate::tree::count(&crate::tree::tree_of(&d)) >= 2;
    c.label_if(!t.is_ascii(), "non-ASCII");
    doc_spans(t, &d, reference, (0, t.len()))
}

fn exact(t: &str, sp: SourceSpan, r: refkdl::Span, what: &str) -> Res {
    ensure!(
        (sp.offset(), sp.offset() + sp.len()) == r,
        format!("{what}-span"),
        "{what} span is {}..{} ({:?}), it stands at {}..{} ({:?})",
        sp.offset(),
        sp.offset() + sp.len(),
        t.get(sp.offset()..sp.offset() + sp.len()),
        r.0,
        r.1,
        t.get(r.0..r.1)
    );
    Ok(())
}

fn doc_spans(t: &str, d: &KdlDocument, r: Option<&[refkdl::RNode]>, within: (usize, usize)) -> Res {
    let sp = d.span();
    sl(t, sp, "document")?;
    let (a, b) = (sp.offset(), sp.offset() + sp.len());
    ensure!(within.0 <= a && b <= within.1, "document-nested", "document span {a}..{b} is not within {within:?}");
    match (d.nodes().first(), d.nodes().last()) {
        (Some(f), Some(l)) => {
            let want = (f.span().offset(), l.span().offset() + l.span().len());
            ensure!((a, b) == want, "document-span", "document span {a}..{b}, its nodes stand at {want:?}");
        }
        _ => ensure!(a == b, "document-span", "the span of a document without nodes is {a}..{b}"),
    }
    if let Some(r) = r {
        ensure!(r.len() == d.nodes().len(), "HARNESS", "reference disagrees");
    }
    let mut at = within.0;
    for (i, n) in d.nodes().iter().enumerate() {
        let r = r.map(|r| &r[i]);
        let sp = n.span();
        let (a, b) = (sp.offset(), sp.offset() + sp.len());
        let text = sl(t, sp, "node")?;
        ensure!(at <= a && b <= within.1, "node-nested", "node span {a}..{b} overlaps or leaves its parent");
        at = b;
        // What the node prints, without what stands before it and its terminator.
        let f = n.format().cloned().unwrap_or_default();
        let mut printed = n.to_string();
        printed.replace_range(..f.leading.len(), "");
        printed.truncate(printed.len() - f.trailing.len() - f.terminator.len());
        ensure!(printed == text, "node-text", "node span {a}..{b} is {text:?}, the node prints {printed:?}");
        if let Some(r) = r {
            ensure!(a == r.span.0 && b >= r.end_all, "node-span", "node span {a}..{b}, it stands at {}..{}", r.span.0, r.end_all);
        }
        let mut at = a;
        if let Some(ty) = n.ty() {
            ident_span(t, ty, r.and_then(|r| r.ty.as_ref()), "node type", &mut at, b)?;
        }
        ident_span(t, n.name(), r.map(|r| &r.name), "node name", &mut at, b)?;
        for (j, e) in n.entries().iter().enumerate() {
            let r = r.map(|r| &r.entries[j]);
            let sp = e.span();
            let (ea, eb) = (sp.offset(), sp.offset() + sp.len());
            let text = sl(t, sp, "entry")?;
            ensure!(at <= ea && eb <= b, "entry-nested", "entry span {ea}..{eb} overlaps or leaves its node {a}..{b}");
            let f = e.format().cloned().unwrap_or_default();
            let mut printed = e.to_string();
            printed.replace_range(..f.leading.len(), "");
            printed.truncate(printed.len() - f.trailing.len());
            ensure!(printed == text, "entry-text", "entry span {ea}..{eb} is {text:?}, the entry prints {printed:?}");
            if let Some(r) = r {
                exact(t, sp, r.span, "entry")?;
            }
            let mut at2 = ea;
            if let Some(k) = e.name() {
                ident_span(t, k, r.and_then(|r| r.name.as_ref()), "property name", &mut at2, eb)?;
            }
            if let Some(k) = e.ty() {
                ident_span(t, k, r.and_then(|r| r.ty.as_ref()), "entry type", &mut at2, eb)?;
            }
            at = eb;
        }
        if let Some(ch) = n.children() {
            let inner = match r {
                Some(r) => (r.children_span.0 + 1, r.children_span.1 - 1),
                None => (at, b),
            };
            doc_spans(t, ch, r.and_then(|r| r.children.as_deref()), inner)?;
        }
    }
    Ok(())
}

fn ident_span(t: &str, i: &KdlIdentifier, r: Option<&refkdl::RIdent>, what: &str, at: &mut usize, end: usize) -> Res {
    let sp = i.span();
    let (a, b) = (sp.offset(), sp.offset() + sp.len());
    let text = sl(t, sp, what)?;
    ensure!(*at <= a && b <= end, format!("{what}-nested"), "{what} span {a}..{b} overlaps or leaves its parent");
    ensure!(i.repr() == Some(text), format!("{what}-text"), "{what} span {a}..{b} is {text:?}, its text is {:?}", i.repr());
    if let Some(r) = r {
        exact(t, sp, r.span, what)?;
    }
    *at = b;
    Ok(())
}

/// Text put in front of a document moves its spans and changes nothing else.
fn p05_moved(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_text::document(s).text;
    let p = prefix(s);
    c.input(format!("{p:?} then {t:?}"), false);
    let (Ok(d), false) = (KdlDocument::parse_v2(&t), t.starts_with('\u{feff}')) else { return Ok(()) };
    let lead = KdlDocument::parse_v2(&p).map(|d| d.nodes().len()).unwrap_or(0);
    let all = format!("{p}{t}");
    let Ok(m) = KdlDocument::parse_v2(&all) else { return fail("moved-rejected", "rejected with the prefix") };
    c.nontrivial = !d.nodes().is_empty();
    ensure!(m.nodes().len() == lead + d.nodes().len(), "moved-nodes", "{} nodes", m.nodes().len());
    for (x, y) in d.nodes().iter().zip(&m.nodes()[lead..]) {
        same_shifted(x, y, p.len())?;
    }
    Ok(())
}

fn same_shifted(x: &KdlNode, y: &KdlNode, by: usize) -> Res {
    let ok = |a: SourceSpan, b: SourceSpan, what: &str| -> Res {
        ensure!(a.offset() + by == b.offset() && a.len() == b.len(), "moved-span", "{what} span {a:?} became {b:?}, moved by {by}");
        Ok(())
    };
    ok(x.span(), y.span(), "node")?;
    ok(x.name().span(), y.name().span(), "name")?;
    for (e, f) in x.entries().iter().zip(y.entries()) {
        ok(e.span(), f.span(), "entry")?;
        if let (Some(a), Some(b)) = (e.name(), f.name()) {
            ok(a.span(), b.span(), "property name")?;
        }
        if let (Some(a), Some(b)) = (e.ty(), f.ty()) {
            ok(a.span(), b.span(), "entry type")?;
        }
    }
    if let (Some(a), Some(b)) = (x.children(), y.children()) {
        ok(a.span(), b.span(), "children")?;
        for (p, q) in a.nodes().iter().zip(b.nodes()) {
            same_shifted(p, q, by)?;
        }
    }
    Ok(())
}

/// Valid text that ends where the next node may start.
fn prefix(s: &mut Src) -> String {
    const P: &[&str] = &["x\n", "\n", "é \"🦀\"\r\n", "/* c */\n", "// é\n", "a { b 1; }\n", "  ", "/-z 1\n", "a;", "(t)y k=\"\"\"\n  v\n  \"\"\"\n", "\u{2028}"];
    let mut o = String::new();
    for _ in 0..s.range(1, 3) {
        o.push_str(s.pick(P));
    }
    o
}

// ---- P26 ----

fn diagnostics(t: &str, e: &KdlError) -> Res {
    ensure!(!e.diagnostics.is_empty(), "none", "the error has no diagnostics");
    ensure!(*e.input == t, "input", "the error's input is {:?}", e.input);
    for d in &e.diagnostics {
        ensure!(*d.input == t, "diag-input", "a diagnostic's input is {:?}", d.input);
        let (a, b) = (d.span.offset(), d.span.offset() + d.span.len());
        ensure!(t.get(a..b).is_some(), "span", "diagnostic span {a}..{b} is outside the text or splits a character: {d:?}");
        ensure!(!d.to_string().is_empty(), "message", "empty message: {d:?}");
        ensure!(d.severity == miette::Severity::Error, "severity", "an error of severity {:?}", d.severity);
    }
    let mut o = String::new();
    let r = miette::NarratableReportHandler::new().render_report(&mut o, e);
    ensure!(r.is_ok(), "render", "miette cannot render it: {:?}", e.diagnostics);
    let mut o = String::new();
    let r = miette::JSONReportHandler::new().render_report(&mut o, e);
    ensure!(r.is_ok(), "render-json", "miette cannot render it: {:?}", e.diagnostics);
    Ok(())
}

fn p26(s: &mut Src, c: &mut Case) -> Res {
    let t = mutate::text(s);
    rejected(&t, c)
}
fn p26_runs(s: &mut Src, c: &mut Case) -> Res {
    rejected(&mutate::repeated(s), c)
}
fn p26_enum(s: &mut Src, c: &mut Case) -> Res {
    rejected(&mutate::enumerated(enum_index(s)), c)
}

fn rejected(t: &str, c: &mut Case) -> Res {
    c.input(t, false);
    if let Err(e) = KdlDocument::parse_v2(t) {
        c.label("document");
        c.nontrivial = t.chars().count() > 3;
        c.label_if(e.diagnostics.len() > 1, "several diagnostics");
        diagnostics(t, &e)?;
    }
    if let Err(e) = KdlNode::parse(t) {
        c.label("node");
        diagnostics(t, &e)?;
    }
    if let Err(e) = KdlEntry::parse(t) {
        c.label("entry");
        diagnostics(t, &e)?;
    }
    if let Err(e) = KdlIdentifier::parse(t) {
        c.label("identifier");
        diagnostics(t, &e)?;
    }
    Ok(())
}

/// Valid text in front of a bad document moves the diagnostics, and changes
/// nothing else about them.
fn p26_shift(s: &mut Src, c: &mut Case) -> Res {
    let t = mutate::text(s);
    let p = prefix(s);
    c.input(format!("{p:?} then {t:?}"), false);
    let (Err(e), false) = (KdlDocument::parse_v2(&t), t.starts_with('\u{feff}')) else { return Ok(()) };
    c.nontrivial = t.chars().count() > 3;
    let all = format!("{p}{t}");
    let f = match KdlDocument::parse_v2(&all) {
        Ok(_) => return fail("shift-accepted", format!("{t:?} is rejected, but accepted after {p:?}")),
        Err(f) => f,
    };
    let show = |e: &KdlError, by: usize| -> Vec<(usize, usize, Option<String>, Option<String>, Option<String>)> {
        e.diagnostics.iter().map(|d| (d.span.offset() + by, d.span.len(), d.message.clone(), d.label.clone(), d.help.clone())).collect()
    };
    let (x, y) = (show(&e, p.len()), show(&f, 0));
    ensure!(x == y, "shift", "expected {x:?}\ngot {y:?}");
    Ok(())
}

const GOOD: &[&str] = &["a", "node 1 2 k=v", "é \"🦀\" { b; c 1; }", "(t)x (u)1.5", "/* c */ q #true", "r #\"raw\"#", "\"quoted name\" #null", "d {\n  e {\n    f 1\n  }\n}"];
/// Lines with one mistake that ends on the same line.
const BAD: &[&str] = &[
    "a 1z", "a 0xg", "a 1.x", "a #tru", "1a", "a \"\\q\"", "a true", "a k=null x", "a b ]", "a 1.5.5", "a {b 1z}", "a }x", "\"x\"y", "a 1 2z 3", "a 5\"x\"", "a [b",
    "a \"x\"y z", "a =b", "(1)a", "a (1)b", "}", "a null {}", "x \"\\u{d800}\"", "false", "k 0b2 {b; c 1}",
];

/// Good and bad lines mixed: each bad line is reported, no good one is.
fn p26_lines(s: &mut Src, c: &mut Case) -> Res {
    let mut t = String::new();
    let mut lines = vec![];
    let (mut bad, mut good) = (0, 0);
    let n = if s.chance(1, 100) { s.range(8, 300) } else { s.range(1, 7) };
    for _ in 0..n {
        let is_bad = s.chance(1, 3);
        let l = if is_bad { *s.pick(BAD) } else { *s.pick(GOOD) };
        let start = t.len();
        t.push_str(l);
        lines.push((start, t.len(), is_bad));
        t.push_str(s.pick(&["\n", "\n", "\r\n", "\n\n", "\r"]));
        *if is_bad { &mut bad } else { &mut good } += 1;
    }
    c.input(&t, bad > 0 && good > 0);
    let e = match (KdlDocument::parse_v2(&t), bad) {
        (Ok(_), 0) => return Ok(()),
        (Ok(_), _) => return fail("lines-accepted", "accepted"),
        (Err(_), 0) => return fail("lines-rejected", "rejected"),
        (Err(e), _) => e,
    };
    for (a, b, is_bad) in lines {
        let hit = e.diagnostics.iter().find(|d| d.span.offset() <= b && d.span.offset() >= a);
        if is_bad {
            ensure!(hit.is_some(), "line-missed", "nothing is reported for {:?}: {:?}", &t[a..b], e.diagnostics.iter().map(|d| d.span).collect::<Vec<_>>());
        } else {
            ensure!(hit.is_none(), "line-blamed", "{:?} is reported as {:?}", &t[a..b], hit);
        }
    }
    Ok(())
}

// ---- P27 ----

fn p27_ident(s: &mut Src, c: &mut Case) -> Res {
    let mut t = if s.chance(1, 2) {
        let v = crate::gen_tree::string(s);
        let mut r = gen_text::Ren::new(s, gen_text::Style::any(&mut Src::replay(vec![])));
        r.string(&v);
        r.out.clone()
    } else {
        mutate::soup(s, 3)
    };
    if s.chance(1, 4) {
        t = mutate::mutate(s, t);
    }
    ident_alone(&t, c)
}

fn ident_alone(t: &str, c: &mut Case) -> Res {
    c.input(t, t.chars().count() > 1);
    let r = refkdl::parse(&format!("{t}\n"));
    if r.gray.is_some() {
        c.skip();
        return Ok(());
    }
    let want = refkdl::parse_string_alone(t);
    match (KdlIdentifier::parse(t), want) {
        (Ok(i), Some(v)) => {
            c.label("accepted");
            ensure!(i.value() == v, "ident-value", "value {:?}, expected {v:?}", i.value());
            ensure!(i.to_string() == t && i.repr() == Some(t), "ident-print", "prints {:?}", i.to_string());
        }
        (Err(_), None) => {}
        (Ok(i), None) => return fail("ident-accepted", format!("accepted as {:?}", i.value())),
        (Err(e), Some(v)) => return fail("ident-rejected", format!("stands for {v:?}, but {e:?}")),
    }
    Ok(())
}

fn p27_entry(s: &mut Src, c: &mut Case) -> Res {
    let e = crate::gen_tree::entry(s);
    let st = gen_text::Style::any(s);
    let mut r = gen_text::Ren::new(s, st);
    if r.s.chance(1, 3) {
        r.line_space0();
    }
    // commented-out entries around it are kept, wherever they end up
    for _ in 0..if r.s.chance(1, 4) { r.s.range(1, 2) } else { 0 } {
        let sd = *r.s.pick(&["/-1 ", "/-a=1\t", "/- \\\n 2 ", "/-(t)\"x\" ", "/-{} ", "/*c*/"]);
        r.out.push_str(sd);
        if r.s.chance(1, 3) {
            r.line_space0();
        }
    }
    r.entry(&e);
    if r.s.chance(1, 6) {
        let sd = *r.s.pick(&[" /-1", " /-a=1 ", "/*c*/ /-2", " /-{}", " /-3\n"]);
        r.out.push_str(sd);
    }
    if r.s.chance(1, 3) {
        r.line_space0();
    }
    let mut t = r.out.clone();
    if s.chance(1, 3) {
        t = mutate::mutate(s, t);
    }
    entry_alone(&t, c)
}

fn entry_alone(t: &str, c: &mut Case) -> Res {
    c.input(t, t.chars().count() > 1);
    let r = refkdl::parse_entry_alone(t);
    let judged = !r.gray && !r.slashdash;
    let got = r.entry.as_ref().filter(|_| !r.gray).map(|e| crate::tree::TEntry {
        name: e.name.as_ref().map(|x| x.value.clone()),
        ty: e.ty.as_ref().map(|x| x.value.clone()),
        val: e.val.clone(),
    });
    match (KdlEntry::parse(t), got) {
        (Ok(e), got) => {
            c.label("accepted");
            ensure!(e.to_string() == t, "entry-print", "prints {:?}", e.to_string());
            if let Some(w) = got {
                ensure!(entry_of(&e) == w, "entry-value", "parsed as {:?}, expected {w:?}", entry_of(&e));
            } else if judged {
                return fail("entry-accepted", format!("accepted as {:?}, but it is not one entry", entry_of(&e)));
            }
        }
        (Err(e), Some(w)) if judged => return fail("entry-rejected", format!("stands for {w:?}, but {e:?}")),
        _ => {}
    }
    Ok(())
}

fn p27_node(s: &mut Src, c: &mut Case) -> Res {
    let n = crate::gen_tree::node(s, 2);
    let st = gen_text::Style::any(s);
    let mut r = gen_text::Ren::new(s, st);
    if r.s.chance(1, 3) {
        r.line_space0();
    }
    r.node(&n);
    if r.s.chance(1, 2) {
        let nl = *r.s.pick(&["\n", ";", "\r\n", " ", ""]);
        r.out.push_str(nl);
        if r.s.chance(1, 2) {
            r.line_space0();
        }
    }
    let mut t = r.out.clone();
    if s.chance(1, 3) {
        t = mutate::mutate(s, t);
    }
    node_alone(&t, c)
}

fn node_alone(t: &str, c: &mut Case) -> Res {
    c.input(t, t.chars().count() > 1);
    let r = refkdl::parse(t);
    let (want, sd) = match &r.verdict {
        refkdl::Verdict::Ok(p) => (
            (p.nodes.len() == 1).then(|| r.tree().unwrap().remove(0)),
            p.comments.iter().any(|k| k.kind == refkdl::CommentKind::Slashdash && k.between_nodes),
        ),
        _ => (None, false),
    };
    let judged = r.gray.is_none() && !sd && !t.starts_with('\u{feff}');
    match (KdlNode::parse(t), want) {
        (Ok(n), want) => {
            c.label("accepted");
            ensure!(n.to_string() == t, "node-print", "prints {:?}", n.to_string());
            match want {
                Some(w) => ensure!(node_of(&n) == w, "node-value", "parsed as {:?}, expected {w:?}", node_of(&n)),
                None if judged => return fail("node-accepted", format!("accepted as {:?}; as a document it is {:?}", node_of(&n), r.verdict)),
                None => {}
            }
            for e in n.entries() {
                let _ = val_of(e.value());
            }
        }
        (Err(e), Some(w)) if judged => return fail("node-rejected", format!("stands for {w:?}, but {e:?}")),
        _ => {}
    }
    Ok(())
}

/// Fragments built around one doubtful token.
fn p27_token(s: &mut Src, c: &mut Case) -> Res {
    match s.below(3) {
        0 => ident_alone(&mutate::token_like(s, false), c),
        1 => {
            let w = mutate::token_like(s, true);
            let w = match s.below(4) {
                0 => format!("k={w}"),
                1 => format!("{}=1", mutate::token_like(s, false)),
                _ => w,
            };
            let (a, b) = (if s.chance(1, 4) { mutate::space_like(s) } else { String::new() }, if s.chance(1, 4) { mutate::space_like(s) } else { String::new() });
            entry_alone(&format!("{a}{w}{b}"), c)
        }
        _ => node_alone(&mutate::targeted(s), c),
    }
}

fn p27_enum(s: &mut Src, c: &mut Case) -> Res {
    let t = mutate::enumerated(enum_index(s));
    ident_alone(&t, c)?;
    entry_alone(&t, c)?;
    node_alone(&t, c)
}
