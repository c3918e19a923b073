//! KDL v1: conversion both ways (P15, P16), v1 parsing (P17) and the fallback (P18).

use super::Prop;
use crate::engine::{Case, Part, Res, Src, enum_index, fail, no_panic};
use crate::gen_text::{self, Style};
use crate::refkdl::{self, Verdict};
use crate::tree::{self, TEntry, TNode, Tree, Val, show};
use crate::{ensure, gen_v1, mutate};
use kdl::{KdlDocument, KdlEntry, KdlError, KdlIdentifier, KdlNode};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P15",
            rule: "KDL v1 documents are rendered by construction from a content tree (the tree is the oracle), with spacing, newlines, comments and slashdashed parts that mean the same in v1 and v2. Non-trivial: at least two nodes or entries.",
            assumptions: &["What a document skips (whitespace, comments, slashdashed parts) is copied by the conversion as it is, as its documentation in the source says; only such text that both versions read alike is generated."],
            parts: || vec![Part::random("documents", 250_000, 2_000_000, p15), Part::random("pieces", 100_000, 1_500_000, p15_pieces), Part::random("v2-unchanged", 150_000, 2_000_000, p15_v2)],
        },
        Prop {
            id: "P16",
            rule: "KDL v2 documents are rendered by construction from a content tree that v1 can express; the result of the conversion is read by the independent v1 release of the crate (kdl 4.7.1) and compared with the tree. Non-trivial: at least two nodes or entries.",
            assumptions: &["What a document skips is copied by the conversion as it is, as its documentation in the source says; only such text that both versions read alike is generated.", "kdl 4.7.1 reads v1 correctly (integers beyond i64 and #inf, #-inf and #nan have no v1 form there)."],
            parts: || vec![Part::random("documents", 250_000, 4_000_000, p16), Part::random("assembled", 150_000, 2_000_000, p16_assembled), Part::random("edited", 150_000, 2_000_000, p16_edited), Part::random("there-and-back", 100_000, 1_500_000, p16_back)],
        },
        Prop {
            id: "P17",
            rule: "v1 documents rendered by construction (the tree is the oracle), and mutated v1 texts, v2 texts and token sequences up to length 3 for which kdl 4.7.1 itself is the oracle, as documents, nodes, entries and identifiers. Non-trivial: the text is accepted by either and longer than three characters, or rejected by either.",
            assumptions: &["Texts on which kdl 4.7.1 itself panics are not judged here."],
            parts: || {
                vec![
                    Part::random("by-construction", 250_000, 4_000_000, p17),
                    Part::random("any-text", 300_000, 5_000_000, p17_any),
                    Part::all("token-sequences", enum3, p17_enum),
                ]
            },
        },
        Prop {
            id: "P18",
            rule: "v2 documents, v1 documents, texts valid in neither and token sequences up to length 3, as documents, nodes, entries and identifiers. The independent v2 reference parser and the dedicated v1 parser say which result the fallback has to give. Non-trivial: longer than three characters and rejected as v2.",
            assumptions: &["The reference parser reads the KDL 2.0 grammar correctly; where the grammar and the crate's documented leniencies differ is not judged.", "Texts on which kdl 4.7.1 itself panics are recorded as known findings."],
            parts: || {
                vec![
                    Part::random("v1-documents", 150_000, 2_000_000, p18_v1),
                    Part::random("any-text", 300_000, 5_000_000, p18_any),
                    Part::random("pieces", 200_000, 3_000_000, p18_pieces),
                    Part::all("token-sequences", enum3, p18_enum),
                ]
            },
        },
    ]
}

fn enum3(thorough: bool) -> u64 {
    mutate::enum_count(if thorough { 4 } else { 3 })
}

// ---- content as kdl 4.7.1 reads it ----

fn v1_val(v: &kdlv1::KdlValue) -> Val {
    use kdlv1::KdlValue::*;
    match v {
        RawString(s) | String(s) => Val::Str(s.clone()),
        Base2(i) | Base8(i) | Base10(i) | Base16(i) => Val::Int(*i as i128),
        Base10Float(f) => Val::Float(*f),
        Bool(b) => Val::Bool(*b),
        Null => Val::Null,
    }
}
fn v1_entry(e: &kdlv1::KdlEntry) -> TEntry {
    TEntry { name: e.name().map(|n| n.value().to_string()), ty: e.ty().map(|t| t.value().to_string()), val: v1_val(e.value()) }
}
fn v1_node(n: &kdlv1::KdlNode) -> TNode {
    TNode {
        ty: n.ty().map(|t| t.value().to_string()),
        name: n.name().value().to_string(),
        entries: n.entries().iter().map(v1_entry).collect(),
        children: n.children().map(v1_tree),
    }
}
fn v1_tree(d: &kdlv1::KdlDocument) -> Tree {
    d.nodes().iter().map(v1_node).collect()
}

/// What kdl 4.7.1 says, or None where it panics.
fn v1_says<T: std::str::FromStr<Err = kdlv1::KdlError>>(s: &str) -> Option<Result<T, kdlv1::KdlError>> {
    no_panic(|| s.parse::<T>()).ok()
}

// ---- P15 ----

fn p15(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_v1::document(s);
    let text = &t.text.text;
    c.input(text, tree::count(&t.text.tree) >= 2);
    for l in &t.text.labels {
        c.label(l);
    }
    match v1_says::<kdlv1::KdlDocument>(text) {
        Some(Ok(d)) if v1_tree(&d) == t.text.tree => {}
        Some(Ok(d)) => return fail("generator", format!("kdl 4.7.1 reads another tree: {}", show(&v1_tree(&d)))),
        Some(Err(e)) => return fail("generator", format!("kdl 4.7.1 rejects the generated text: {e:?}")),
        None => return fail("generator", "kdl 4.7.1 panics on the generated text"),
    }
    let out = match KdlDocument::v1_to_v2(text) {
        Ok(o) => o,
        Err(e) => return fail("rejected", format!("{text:?}: {e:?}")),
    };
    check_v2(text, &out, &t.text.tree)?;
    let p = refkdl::parse(&out);
    let Verdict::Ok(p) = p.verdict else { unreachable!() };
    // comments, in order
    let have: Vec<&str> = p.comments.iter().filter(|c| c.kind != refkdl::CommentKind::Slashdash).map(|c| out[c.span.0..c.span.1].trim_end_matches(refkdl::is_newline_char)).collect();
    let mut it = have.iter();
    for w in &t.comments {
        ensure!(it.any(|h| h == w), "comment", "{text:?} becomes\n{out:?}\nthe comment {w:?} is lost or out of order");
    }
    // numbers keep their spelling
    let mut spans = vec![];
    numbers(&p.nodes, &mut spans);
    let have: Vec<&str> = spans.iter().map(|s| &out[s.0..s.1]).collect();
    ensure!(have == t.numbers, "number", "{text:?} becomes\n{out:?}\nnumbers {:?} are now {have:?}", t.numbers);
    // the same by hand
    let mut d = KdlDocument::parse_v1(text).expect("parsed before");
    d.ensure_v2();
    ensure!(d.to_string() == out, "ensure_v2", "{text:?}: v1_to_v2 gives {out:?}, ensure_v2 on the parsed document {:?}", d.to_string());
    ensure!(tree::tree_of(&d) == t.text.tree, "content", "{text:?}: ensure_v2 changes the content to {}", show(&tree::tree_of(&d)));
    // what is v2 already stays as it is
    d.ensure_v2();
    ensure!(d.to_string() == out, "twice", "{text:?}: ensure_v2 twice gives {:?} instead of {out:?}", d.to_string());
    Ok(())
}

fn numbers(ns: &[refkdl::RNode], out: &mut Vec<refkdl::Span>) {
    for n in ns {
        for e in &n.entries {
            if matches!(e.val, Val::Int(_) | Val::Float(_)) {
                out.push(e.val_span);
            }
        }
        if let Some(c) = &n.children {
            numbers(c, out);
        }
    }
}

/// `out` is valid v2 with the content of `want`.
fn check_v2(text: &str, out: &str, want: &Tree) -> Res {
    let o = refkdl::parse(out);
    match &o.verdict {
        Verdict::Ok(p) => {
            let got = refkdl::to_tree(&p.nodes);
            ensure!(got == *want, "changed", "{text:?} becomes\n{out:?}\nwhich reads {}\ninstead of {}", show(&got), show(want));
        }
        Verdict::Err(at, m) => return fail("invalid", format!("{text:?} becomes\n{out:?}\nwhich is not v2: {m} at {at}")),
    }
    match KdlDocument::parse_v2(out) {
        Ok(d) => ensure!(tree::tree_of(&d) == *want, "changed", "{text:?} becomes\n{out:?}\nwhich parses as {}", show(&tree::tree_of(&d))),
        Err(e) => return fail("invalid", format!("{text:?} becomes\n{out:?}\nwhich parse_v2 rejects: {e:?}")),
    }
    Ok(())
}

/// Single nodes, entries and identifiers.
fn p15_pieces(s: &mut Src, c: &mut Case) -> Res {
    let n = gen_v1::v1_tree(&vec![crate::gen_tree::node(s, 2)]).remove(0);
    let mut r = gen_v1::ren(s);
    r.slashdash = false;
    r.node(&n);
    let text = std::mem::take(&mut r.out);
    c.input(&text, !n.entries.is_empty() || n.children.is_some());
    if v1_says::<kdlv1::KdlNode>(&text).map(|x| x.map(|n| v1_node(&n))) != Some(Ok(n.clone())) {
        // a node on its own has to end where it ends in v1
        c.label("not one node to kdl 4.7.1");
        c.nontrivial = false;
        return Ok(());
    }
    let mut k = match KdlNode::parse_v1(&text) {
        Ok(k) => k,
        Err(e) => return fail("node-rejected", format!("{text:?}: {e:?}")),
    };
    k.ensure_v2();
    let out = k.to_string();
    check_v2(&text, &out, &vec![n.clone()])?;
    for e in &n.entries {
        let mut r = gen_v1::ren(s);
        r.entry(e);
        let text = std::mem::take(&mut r.out);
        let mut k = match KdlEntry::parse_v1(&text) {
            Ok(k) => k,
            Err(e) => return fail("entry-rejected", format!("{text:?}: {e:?}")),
        };
        k.ensure_v2();
        let out = k.to_string();
        let p = refkdl::parse_entry_alone(&out);
        let Some(g) = p.entry else { return fail("entry-invalid", format!("{text:?} becomes {out:?}, which is no v2 entry")) };
        let g = TEntry { name: g.name.map(|n| n.value), ty: g.ty.map(|n| n.value), val: g.val };
        ensure!(g == *e, "entry-changed", "{text:?} becomes {out:?}, which reads {g:?} instead of {e:?}");
        ensure!(tree::entry_of(&k) == *e, "entry-changed", "{text:?} is now {k:?} instead of {e:?}");
    }
    Ok(())
}

/// `ensure_v2` on a v2 document changes neither its content nor its validity.
fn p15_v2(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_text::document(s);
    c.input(&t.text, tree::count(&t.tree) >= 2);
    let Ok(mut d) = KdlDocument::parse_v2(&t.text) else {
        c.label("rejected");
        c.nontrivial = false;
        return Ok(());
    };
    d.ensure_v2();
    let out = d.to_string();
    ensure!(tree::tree_of(&d) == t.tree, "content", "{:?}: ensure_v2 changes the content to {}", t.text, show(&tree::tree_of(&d)));
    check_v2(&t.text, &out, &t.tree)
}

// ---- P16 ----

/// A style whose spacing v1 reads like v2: no vertical tabs, comments
/// and slashdashes only where v1 allows them.
fn v1_style(s: &mut Src) -> Style {
    Style { wild: s.below(4), slashdash: false, comments: s.chance(1, 2), exotic: false, lf_only: s.chance(1, 2) }
}

fn check_v1(text: &str, out: &str, want: &Tree) -> Res {
    match v1_says::<kdlv1::KdlDocument>(out) {
        Some(Ok(d)) => {
            let got = v1_tree(&d);
            ensure!(got == *want, "changed", "{text:?} becomes\n{out:?}\nwhich reads {}\ninstead of {}", show(&got), show(want));
        }
        Some(Err(e)) => return fail("invalid", format!("{text:?} becomes\n{out:?}\nwhich is not v1: {e:?}")),
        None => return fail("invalid", format!("{text:?} becomes\n{out:?}\nwhich makes kdl 4.7.1 panic")),
    }
    Ok(())
}

fn p16(s: &mut Src, c: &mut Case) -> Res {
    let st = v1_style(s);
    let tree = gen_v1::v1_tree(&crate::gen_tree::tree(s));
    let mut r = gen_text::Ren::new(s, st);
    r.v1 = true;
    r.document(&tree);
    let (text, labels) = (std::mem::take(&mut r.out), std::mem::take(&mut r.labels));
    c.input(&text, tree::count(&tree) >= 2);
    for l in labels {
        c.label(l);
    }
    let o = refkdl::parse(&text);
    match &o.verdict {
        Verdict::Ok(p) if refkdl::to_tree(&p.nodes) == tree => {}
        _ => return fail("generator", "the generated text is not what it should be"),
    }
    let out = match KdlDocument::v2_to_v1(&text) {
        Ok(o) => o,
        Err(e) => return fail("rejected", format!("{text:?}: {e:?}")),
    };
    check_v1(&text, &out, &tree)?;
    let mut d = KdlDocument::parse_v2(&text).expect("parsed before");
    d.ensure_v1();
    ensure!(d.to_string() == out, "ensure_v1", "{text:?}: v2_to_v1 gives {out:?}, ensure_v1 on the parsed document {:?}", d.to_string());
    ensure!(tree::tree_of(&d) == tree, "content", "{text:?}: ensure_v1 changes the content to {}", show(&tree::tree_of(&d)));
    Ok(())
}

/// Documents assembled from values, without a text they come from.
fn p16_assembled(s: &mut Src, c: &mut Case) -> Res {
    let tree = gen_v1::v1_tree(&crate::gen_tree::tree(s));
    c.input(show(&tree), tree::count(&tree) >= 2);
    let mut d = tree::build_doc(&tree);
    if s.chance(1, 2) {
        c.label("autoformatted");
        d.autoformat();
    }
    d.ensure_v1();
    let out = d.to_string();
    ensure!(tree::tree_of(&d) == tree, "content", "ensure_v1 changes the content to {}", show(&tree::tree_of(&d)));
    check_v1(&show(&tree), &out, &tree)
}

/// Parsed documents with new nodes and entries, and nodes and entries of other
/// texts, put into them.
fn p16_edited(s: &mut Src, c: &mut Case) -> Res {
    let st = v1_style(s);
    let tree = gen_v1::v1_tree(&crate::gen_tree::tree(s));
    let mut r = gen_text::Ren::new(s, st);
    r.v1 = true;
    r.document(&tree);
    let text = std::mem::take(&mut r.out);
    let Ok(mut d) = KdlDocument::parse_v2(&text) else { return fail("generator", format!("{text:?}")) };
    let mut log = format!("{text:?}\n");
    for _ in 0..s.range(1, 4) {
        let n = gen_v1::v1_tree(&vec![crate::gen_tree::node(s, 1)]).remove(0);
        let new = if s.chance(1, 2) {
            let mut b = tree::build_node(&n);
            if s.chance(1, 2) {
                b.clear_format();
            }
            b
        } else {
            let st = v1_style(s);
            let mut r = gen_text::Ren::new(s, st);
            r.v1 = true;
            r.line_space0();
            r.node(&n);
            let mut t = std::mem::take(&mut r.out);
            t.push_str(s.pick::<&str>(&["", "\n", ";", " // c\n", " // c", "; // c\n", " /*c*/", "\n\n"]));
            KdlNode::parse(&t).unwrap_or_else(|_| tree::build_node(&n))
        };
        let k = d.nodes().len() as u32;
        let i = if k == 0 { 0 } else { s.below(k) as usize };
        match if k == 0 { 0 } else { s.below(9) } {
            6 => {
                log += &format!("clear format of node {i}\n");
                d.nodes_mut()[i].clear_format();
            }
            7 => {
                log += &format!("clear format of node {i} and its parts\n");
                d.nodes_mut()[i].clear_format_recursive();
            }
            8 => {
                log += &format!("autoformat node {i}\n");
                d.nodes_mut()[i].autoformat();
            }
            0 | 1 => {
                let at = s.below(k + 1) as usize;
                log += &format!("insert node {:?} at {at}\n", new.to_string());
                d.nodes_mut().insert(at, new);
            }
            2 => {
                log += &format!("push node {:?}\n", new.to_string());
                d.nodes_mut().push(new);
            }
            3 => {
                let ch = d.nodes_mut()[i].ensure_children();
                let at = s.below(ch.nodes().len() as u32 + 1) as usize;
                log += &format!("insert child {:?} at {i}, {at}\n", new.to_string());
                ch.nodes_mut().insert(at, new);
            }
            4 => {
                let x = &mut d.nodes_mut()[i];
                for e in new.entries() {
                    let at = s.below(x.entries().len() as u32 + 1) as usize;
                    log += &format!("insert entry {:?} at {i}, {at}\n", e.to_string());
                    x.entries_mut().insert(at, e.clone());
                }
            }
            _ => {
                log += &format!("remove node {i}\n");
                d.nodes_mut().remove(i);
            }
        }
    }
    let want = tree::tree_of(&d);
    c.input(&log, tree::count(&want) >= 2);
    d.ensure_v1();
    let out = d.to_string();
    ensure!(tree::tree_of(&d) == want, "content", "{log}ensure_v1 changes the content to {}", show(&tree::tree_of(&d)));
    check_v1(&log, &out, &want)
}

/// v1 to v2 to v1, and v2 to v1 to v2.
fn p16_back(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_v1::document(s);
    let text = &t.text.text;
    c.input(text, tree::count(&t.text.tree) >= 2);
    if t.text.labels.iter().any(|l| l.starts_with("slashdashed")) {
        c.label("slashdashed parts (not judged)");
        c.nontrivial = false;
        return Ok(());
    }
    let Ok(v2) = KdlDocument::v1_to_v2(text) else { return fail("rejected", format!("{text:?}")) };
    let Ok(v1) = KdlDocument::v2_to_v1(&v2) else { return fail("back-rejected", format!("{text:?} becomes {v2:?}, which v2_to_v1 rejects")) };
    check_v1(text, &v1, &t.text.tree)?;
    let Ok(again) = KdlDocument::v1_to_v2(&v1) else { return fail("again-rejected", format!("{text:?} becomes {v1:?}, which v1_to_v2 rejects")) };
    check_v2(text, &again, &t.text.tree)
}

// ---- P17 ----

fn p17(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_v1::document(s);
    let text = &t.text.text;
    c.input(text, text.chars().count() > 3);
    for l in &t.text.labels {
        c.label(l);
    }
    match KdlDocument::parse_v1(text) {
        Ok(d) => ensure!(tree::tree_of(&d) == t.text.tree, "content", "{text:?} parses as {}\ninstead of {}", show(&tree::tree_of(&d)), show(&t.text.tree)),
        Err(e) => return fail("rejected", format!("{text:?}: {e:?}")),
    }
    same_as_v1(text, c)
}

fn p17_any(s: &mut Src, c: &mut Case) -> Res {
    let text = any_text(s);
    c.input(&text, text.chars().count() > 3);
    same_as_v1(&text, c)
}

fn p17_enum(s: &mut Src, c: &mut Case) -> Res {
    let text = mutate::enumerated(enum_index(s));
    c.input(&text, text.chars().count() > 3);
    same_as_v1(&text, c)
}

fn any_text(s: &mut Src) -> String {
    match s.below(5) {
        0 => gen_v1::document(s).text.text,
        1 | 2 => {
            let t = gen_v1::document(s).text.text;
            mutate::mutate(s, t)
        }
        3 => mutate::text(s),
        _ => {
            let mut t = mutate::soup(s, 8);
            if s.chance(1, 2) {
                t = t.replace("#true", "true").replace("#null", "null");
            }
            t
        }
    }
}

fn same_error(what: &str, text: &str, e: &KdlError, o: &kdlv1::KdlError) -> Res {
    ensure!(e.input.as_str() == o.input && e.diagnostics.len() == 1, format!("{what} error"), "{text:?}: {e:?} instead of {o:?}");
    let d = &e.diagnostics[0];
    let same = d.span.offset() == o.span.offset()
        && d.span.len() == o.span.len()
        && d.message.as_deref() == Some(o.kind.to_string().as_str())
        && d.label.as_deref() == o.label
        && d.help.as_deref() == o.help
        && d.input.as_str() == o.input;
    ensure!(same, format!("{what} error"), "{text:?}: {d:?} instead of {o:?}");
    Ok(())
}

fn same_as_v1(text: &str, c: &mut Case) -> Res {
    match v1_says::<kdlv1::KdlDocument>(text) {
        None => c.label("kdl 4.7.1 panics"),
        Some(o) => match (KdlDocument::parse_v1(text), o) {
            (Ok(d), Ok(o)) => {
                c.label("document accepted");
                ensure!(tree::tree_of(&d) == v1_tree(&o), "document", "{text:?} is {} instead of {}", show(&tree::tree_of(&d)), show(&v1_tree(&o)));
                spans(text, &d, &o)?;
            }
            (Err(e), Err(o)) => {
                c.label("document rejected");
                same_error("document", text, &e, &o)?;
            }
            (a, b) => return fail("document-verdict", format!("{text:?}: parse_v1 gives {:?}, kdl 4.7.1 {:?}", a.map(|_| ()), b.map(|_| ()))),
        },
    }
    match v1_says::<kdlv1::KdlNode>(text) {
        None => c.label("kdl 4.7.1 panics"),
        Some(o) => match (KdlNode::parse_v1(text), o) {
            (Ok(d), Ok(o)) => {
                c.label("node accepted");
                ensure!(tree::node_of(&d) == v1_node(&o), "node", "{text:?} is {:?} instead of {:?}", tree::node_of(&d), v1_node(&o))
            }
            (Err(e), Err(o)) => same_error("node", text, &e, &o)?,
            (a, b) => return fail("node-verdict", format!("{text:?}: parse_v1 gives {:?}, kdl 4.7.1 {:?}", a.map(|_| ()), b.map(|_| ()))),
        },
    }
    match v1_says::<kdlv1::KdlEntry>(text) {
        None => c.label("kdl 4.7.1 panics"),
        Some(o) => match (KdlEntry::parse_v1(text), o) {
            (Ok(d), Ok(o)) => {
                c.label("entry accepted");
                ensure!(tree::entry_of(&d) == v1_entry(&o), "entry", "{text:?} is {:?} instead of {:?}", tree::entry_of(&d), v1_entry(&o))
            }
            (Err(e), Err(o)) => same_error("entry", text, &e, &o)?,
            (a, b) => return fail("entry-verdict", format!("{text:?}: parse_v1 gives {:?}, kdl 4.7.1 {:?}", a.map(|_| ()), b.map(|_| ()))),
        },
    }
    match v1_says::<kdlv1::KdlIdentifier>(text) {
        None => c.label("kdl 4.7.1 panics"),
        Some(o) => match (KdlIdentifier::parse_v1(text), o) {
            (Ok(d), Ok(o)) => {
                c.label("identifier accepted");
                ensure!(d.value() == o.value(), "identifier", "{text:?} is {:?} instead of {:?}", d.value(), o.value())
            }
            (Err(e), Err(o)) => same_error("identifier", text, &e, &o)?,
            (a, b) => return fail("identifier-verdict", format!("{text:?}: parse_v1 gives {:?}, kdl 4.7.1 {:?}", a.map(|_| ()), b.map(|_| ()))),
        },
    }
    Ok(())
}

/// Spans are taken over.
fn spans(text: &str, d: &KdlDocument, o: &kdlv1::KdlDocument) -> Res {
    macro_rules! eq {
        ($a:expr, $b:expr) => {
            $a.offset() == $b.offset() && $a.len() == $b.len()
        };
    }
    for (n, m) in d.nodes().iter().zip(o.nodes()) {
        ensure!(eq!(n.span(), m.span()), "node span", "{text:?}: {:?} instead of {:?}", n.span(), m.span());
        ensure!(eq!(n.name().span(), m.name().span()), "name span", "{text:?}: {:?} instead of {:?}", n.name().span(), m.name().span());
        for (e, f) in n.entries().iter().zip(m.entries()) {
            ensure!(eq!(e.span(), f.span()), "entry span", "{text:?}: {:?} instead of {:?}", e.span(), f.span());
        }
        if let (Some(c), Some(k)) = (n.children(), m.children()) {
            spans(text, c, k)?;
        }
    }
    Ok(())
}

// ---- P18 ----

/// What the documentation of `parse` asks for, given the v2 verdict.
fn p18_v1(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_v1::document(s);
    fallback_document(&t.text.text, c)
}

fn p18_any(s: &mut Src, c: &mut Case) -> Res {
    let mut text = any_text(s);
    match s.below(12) {
        0 => text.insert_str(0, "/- kdl-version 1\n"),
        1 => text.insert_str(0, "/- kdl-version 2\n"),
        2 => text.push_str(s.pick(&["\na true", "\na null 1\n", "\na b=false", "\nb false {\n"])),
        _ => {}
    }
    fallback_document(&text, c)
}

fn p18_enum(s: &mut Src, c: &mut Case) -> Res {
    let text = mutate::enumerated(enum_index(s));
    fallback_document(&text, c)?;
    fallback_pieces(&text, c)
}

fn p18_pieces(s: &mut Src, c: &mut Case) -> Res {
    let n = gen_v1::v1_tree(&vec![crate::gen_tree::node(s, 1)]).remove(0);
    let text = match s.below(8) {
        0 | 1 => {
            let mut r = gen_v1::ren(s);
            r.node(&n);
            std::mem::take(&mut r.out)
        }
        2 if !n.entries.is_empty() => {
            let mut r = gen_v1::ren(s);
            r.entry(&n.entries[0]);
            std::mem::take(&mut r.out)
        }
        3 => {
            let mut r = gen_text::Ren::new(s, Style { wild: 2, slashdash: false, comments: true, exotic: false, lf_only: false });
            r.node(&n);
            std::mem::take(&mut r.out)
        }
        4 if !n.entries.is_empty() => {
            let mut r = gen_text::Ren::new(s, Style { wild: 2, slashdash: false, comments: true, exotic: false, lf_only: false });
            r.entry(&n.entries[0]);
            std::mem::take(&mut r.out)
        }
        5 => {
            let v = crate::gen_tree::string(s);
            let mut r = gen_v1::ren(s);
            r.entry(&TEntry { name: None, ty: None, val: Val::Str(v) });
            std::mem::take(&mut r.out)
        }
        6 => mutate::soup(s, 4),
        _ => {
            let mut r = gen_v1::ren(s);
            r.node(&n);
            let t = std::mem::take(&mut r.out);
            mutate::mutate(s, t)
        }
    };
    fallback_pieces(&text, c)
}

fn fallback_document(text: &str, c: &mut Case) -> Res {
    let o = refkdl::parse(text);
    c.input(text, false);
    if o.gray.is_some() {
        c.label("gray");
        return Ok(());
    }
    let got = KdlDocument::parse(text);
    let from_str = text.parse::<KdlDocument>();
    ensure!(got == from_str, "from_str", "{text:?}: parse gives {got:?}, from_str {from_str:?}");
    match &o.verdict {
        Verdict::Ok(p) => {
            c.label("v2");
            let Ok(d) = &got else { return fail("v2-rejected", format!("{text:?} is v2 and was rejected: {got:?}")) };
            let want = refkdl::to_tree(&p.nodes);
            ensure!(tree::tree_of(d) == want, "v2-content", "{text:?} is v2 and reads {}, not {}", show(&want), show(&tree::tree_of(d)));
            ensure!(d.to_string() == text, "v2-text", "{text:?} is v2 and prints {:?}", d.to_string());
        }
        Verdict::Err(..) => {
            c.nontrivial = text.chars().count() > 3;
            let v1 = KdlDocument::parse_v1(text);
            let v2 = KdlDocument::parse_v2(text);
            match (&got, &v1) {
                (Ok(d), Ok(w)) => {
                    c.label("v1");
                    ensure!(d == w && d.to_string() == w.to_string(), "v1-content", "{text:?} gives {d:?}, parse_v1 {w:?}");
                }
                (Err(e), Err(w)) => {
                    c.label("neither");
                    ensure!(e == w || Some(e) == v2.as_ref().err(), "error", "{text:?} fails with {e:?}, which is neither the v1 error nor the v2 errors");
                    // the version marker of v1, or a keyword that cannot be anything else
                    let marked = text.starts_with("/- kdl-version 1\n");
                    let keyword = !text.contains(['"', '#', '/', '\\']) && text.split('\n').any(|l| l.split(' ').skip(1).any(|w| ["true", "false", "null"].contains(&w)));
                    if marked || keyword {
                        c.label(if marked { "neither, marked as v1" } else { "neither, with keywords of v1" });
                        ensure!(e == w, "error-version", "{text:?} is meant to be v1 and fails with {e:?} instead of {w:?}");
                    }
                    // nothing in it that only v1 has, so it has to be v2
                    let v1_only = ["true", "false", "null", "r#", "kdl-version 1", " \"\n", " \"\r\n"].iter().any(|w| text.contains(w));
                    if !v1_only {
                        c.label("neither, and no sign of v1");
                        ensure!(Some(e) == v2.as_ref().err(), "error-version", "{text:?} has no sign of v1 and fails with {e:?} instead of {v2:?}");
                    }
                }
                _ => return fail("verdict", format!("{text:?} is not v2; parse gives {:?}, parse_v1 {:?}", got.map(|d| tree::tree_of(&d)), v1.map(|d| tree::tree_of(&d)))),
            }
        }
    }
    Ok(())
}

fn fallback_pieces(text: &str, c: &mut Case) -> Res {
    c.input(text, false);
    // identifiers: exactly one string
    let name = refkdl::parse_string_alone(text);
    let gray = refkdl::parse(text).gray.is_some();
    if gray {
        c.label("gray");
        return Ok(());
    }
    let got = KdlIdentifier::parse(text);
    ensure!(got == text.parse::<KdlIdentifier>(), "identifier from_str", "{text:?}");
    if let Some(n) = &name {
        ensure!(got.as_ref().map(|g| g.value()).ok() == Some(n.as_str()), "identifier", "{text:?} is {got:?} instead of {n:?}");
    } else {
        let v1 = KdlIdentifier::parse_v1(text);
        same_fallback("identifier", text, &got, &v1, c)?;
    }
    // entries
    let e = refkdl::parse_entry_alone(text);
    if !e.gray {
        let got = KdlEntry::parse(text);
        ensure!(got == text.parse::<KdlEntry>(), "entry from_str", "{text:?}");
        match e.entry {
            Some(w) => {
                let w = TEntry { name: w.name.map(|n| n.value), ty: w.ty.map(|n| n.value), val: w.val };
                if !e.slashdash {
                    ensure!(got.as_ref().map(tree::entry_of).ok().as_ref() == Some(&w), "entry", "{text:?} is {got:?} instead of {w:?}");
                }
            }
            None => {
                let v1 = KdlEntry::parse_v1(text);
                same_fallback("entry", text, &got, &v1, c)?;
            }
        }
    }
    // nodes: a document of one node is a node
    let o = refkdl::parse(text);
    let got = KdlNode::parse(text);
    ensure!(got == text.parse::<KdlNode>(), "node from_str", "{text:?}");
    match &o.verdict {
        Verdict::Ok(p) if p.nodes.len() == 1 && p.comments.iter().all(|c| c.kind != refkdl::CommentKind::Slashdash) && !text.starts_with('\u{feff}') => {
            let w = refkdl::to_tree(&p.nodes).remove(0);
            ensure!(got.as_ref().map(tree::node_of).ok().as_ref() == Some(&w), "node", "{text:?} is {got:?} instead of {w:?}");
        }
        Verdict::Ok(_) => {}
        Verdict::Err(..) => {
            c.nontrivial = text.chars().count() > 3;
            let v1 = KdlNode::parse_v1(text);
            same_fallback("node", text, &got, &v1, c)?;
        }
    }
    Ok(())
}

/// Not v2: the v1 result, or else v2 errors (which are never those of the v1 parser).
fn same_fallback<T: PartialEq + std::fmt::Debug + std::fmt::Display>(what: &'static str, text: &str, got: &Result<T, KdlError>, v1: &Result<T, KdlError>, c: &mut Case) -> Res {
    match (got, v1) {
        (Ok(g), Ok(w)) => {
            c.label("v1 piece");
            ensure!(g == w && g.to_string() == w.to_string(), format!("{what} v1"), "{text:?} gives {g:?}, parse_v1 {w:?}");
        }
        (Err(e), Err(w)) => {
            c.label("piece of neither");
            ensure!(e != w, format!("{what} error"), "{text:?}: both fail, and the v1 error is returned: {e:?}");
        }
        _ => return fail(format!("{what} verdict"), format!("{text:?} is no v2 {what}; parse gives {got:?}, parse_v1 {v1:?}")),
    }
    Ok(())
}
