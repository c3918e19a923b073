//! Autoformatting: P08 (meaning), P09 (stability), P10 (comments), P25 (layout).

use super::Prop;
use super::model::{some_doc, some_entry, some_node};
use crate::engine::{Case, Part, Res, Src, fail};
use crate::gen_text::Style;
use crate::refkdl::{self, CommentKind, Verdict};
use crate::tree::{TNode, show, tree_of};
use crate::{ensure, gen_text, gen_tree, mutate, tree};
use kdl::{FormatConfig, KdlDocument, KdlNode};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P08",
            rule: "Random documents (rendered, mutated, conformance cases, or assembled by edits) are formatted with random configurations (indentation level and text, comment removal, entry formatting kept), as documents and as single nodes. Non-trivial: at least two nodes or entries.",
            assumptions: &["Texts on which the grammar's versions differ are not judged.", "Pieces that are assembled are closed with a newline if their last line is a comment or continuation."],
            parts: || vec![Part::random("parsed", 300_000, 6_000_000, p08_parsed), Part::random("assembled", 150_000, 3_000_000, p08_assembled), Part::random("nodes", 100_000, 2_000_000, p08_node)],
        },
        Prop {
            id: "P09",
            rule: "As for P08; the formatted document, or one node of it, is formatted again, both in memory and after parsing its text. Non-trivial: at least two nodes or entries and a text that formatting changes.",
            assumptions: &["As for P08."],
            parts: || vec![Part::random("parsed", 300_000, 6_000_000, p09), Part::random("nodes", 120_000, 2_500_000, p09_node)],
        },
        Prop {
            id: "P10",
            rule: "Random documents full of comments, or single nodes of them, are formatted with and without comment removal; the comments are listed by the reference parser before and after. Non-trivial: at least one comment.",
            assumptions: &["Comments inside a node's entries, type annotations and line continuations are not claimed: the repository marks those as an open issue (ignored test `autoformat` in src/document.rs)."],
            parts: || vec![Part::random("comments", 300_000, 6_000_000, p10), Part::random("nodes", 120_000, 2_500_000, p10_node)],
        },
        Prop {
            id: "P25",
            rule: "Documents without comments or slashdashes are formatted with random configurations; the result is compared with an independent printer; entries are marked to be kept at random; with comments, the reference parser says where the nodes of the result begin. Non-trivial: a nested block or at least two nodes.",
            assumptions: &[],
            parts: || vec![Part::random("layout", 200_000, 4_000_000, p25), Part::random("lines", 100_000, 2_000_000, p25_lines), Part::random("layout-node", 100_000, 2_000_000, p25_node), Part::random("kept-entries", 150_000, 2_500_000, p25_kept)],
        },
    ]
}

struct Cfg {
    level: usize,
    indent: &'static str,
    no_comments: bool,
    keep: bool,
    /// 0: autoformat(), 1: autoformat_no_comments(), others: autoformat_config()
    how: u32,
}

fn cfg(s: &mut Src) -> Cfg {
    match s.below(4) {
        0 => Cfg { level: 0, indent: "    ", no_comments: false, keep: false, how: 0 },
        1 => Cfg { level: 0, indent: "    ", no_comments: true, keep: false, how: 1 },
        _ => Cfg {
            level: *s.pick(&[0, 0, 1, 2, 5]),
            indent: s.pick(&["    ", "", "  ", "\t", " ", " \t", "\u{3000}"]),
            no_comments: s.chance(1, 3),
            keep: s.chance(1, 3),
            how: s.range(2, 5),
        },
    }
}

impl Cfg {
    /// The same configuration, in several ways (setters can be repeated, and
    /// `maybe_` setters given nothing leave things alone).
    fn config(&self) -> FormatConfig<'static> {
        let b = FormatConfig::builder();
        let b = match self.how {
            2 => b.indent_level(self.level).indent(self.indent).no_comments(self.no_comments),
            3 => b.maybe_indent_level(Some(self.level)).maybe_indent(Some(self.indent)).maybe_no_comments(Some(self.no_comments)),
            4 => b.no_comments(self.no_comments).indent(self.indent).indent_level(self.level).maybe_indent(None).maybe_indent_level(None).maybe_no_comments(None),
            _ => b
                .no_comments(!self.no_comments)
                .indent("xyz")
                .indent_level(9)
                .maybe_no_comments(Some(self.no_comments))
                .maybe_indent_level(Some(self.level))
                .maybe_indent(Some(self.indent)),
        };
        let mut c = b.build();
        c.entry_autoformate_keep = self.keep;
        c
    }
    fn doc(&self, d: &mut KdlDocument) {
        match self.how {
            0 => d.autoformat(),
            1 => d.autoformat_no_comments(),
            _ => d.autoformat_config(&self.config()),
        }
    }
    fn node(&self, d: &mut KdlNode) {
        match self.how {
            0 => d.autoformat(),
            1 => d.autoformat_no_comments(),
            _ => d.autoformat_config(&self.config()),
        }
    }
    fn show(&self) -> String {
        format!("level {} indent {:?} no_comments {} keep {} how {}", self.level, self.indent, self.no_comments, self.keep, self.how)
    }
}

fn source(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 2]) {
        0 => gen_text::document(s).text,
        1 => s.pick(crate::corpus::v2()).text.clone(),
        _ => mutate::text(s),
    }
}

/// A parsed document that the oracles judge.
fn parsed(s: &mut Src, c: &mut Case) -> Option<(String, KdlDocument)> {
    let text = source(s);
    if refkdl::parse(&text).gray.is_none()
        && let Ok(d) = KdlDocument::parse_v2(&text)
    {
        return Some((text, d));
    }
    c.skip();
    None
}

fn keeps_meaning(d: &mut KdlDocument, cfg: &Cfg, log: &str) -> Res {
    let want = tree_of(d);
    cfg.doc(d);
    let log = format!("{log}\nformatted ({})", cfg.show());
    ensure!(tree_of(d) == want, "content", "{log}: the content changed to {}", show(&tree_of(d)));
    means(&d.to_string(), &want, &log)
}

fn means(text: &str, want: &tree::Tree, log: &str) -> Res {
    let r = refkdl::parse(text);
    match r.tree() {
        Some(t) => ensure!(t == *want, "meaning", "{log} prints {text:?}\nwhich means {}\nexpected {}", show(&t), show(want)),
        None => return fail("invalid", format!("{log} prints {text:?}, which is not KDL: {:?}", r.verdict)),
    }
    match KdlDocument::parse_v2(text) {
        Ok(p) => ensure!(tree_of(&p) == *want, "reparse", "{log} prints {text:?}\nwhich parses as {}\nexpected {}", show(&tree_of(&p)), show(want)),
        Err(e) => return fail("reparse", format!("{log} prints {text:?}, which does not parse: {e:?}")),
    }
    Ok(())
}

fn p08_parsed(s: &mut Src, c: &mut Case) -> Res {
    let Some((text, mut d)) = parsed(s, c) else { return Ok(()) };
    let cfg = cfg(s);
    c.input(format!("{text:?} {}", cfg.show()), tree::count(&tree_of(&d)) >= 2);
    c.label_if(cfg.keep, "entry formatting kept");
    c.label_if(cfg.no_comments, "comments removed");
    keeps_meaning(&mut d, &cfg, &format!("{text:?}"))
}

fn p08_assembled(s: &mut Src, c: &mut Case) -> Res {
    let mut d = some_doc(s);
    for _ in 0..s.range(1, 4) {
        let k = d.nodes().len() as u32;
        let at = s.below(k + 1) as usize;
        match s.below(4) {
            0 | 1 => d.nodes_mut().insert(at, some_node(s)),
            2 if k > 0 => {
                let e = some_entry(s);
                d.nodes_mut()[at.min(k as usize - 1)].push(e);
            }
            _ if k > 0 => {
                let n = some_node(s);
                d.nodes_mut()[at.min(k as usize - 1)].ensure_children().nodes_mut().push(n);
            }
            _ => {}
        }
        if s.chance(1, 4) {
            // formatting some part first
            let cfg = cfg(s);
            let k = d.nodes().len();
            if k > 0 {
                cfg.node(&mut d.nodes_mut()[k - 1]);
            }
        }
    }
    let cfg = cfg(s);
    let text = d.to_string();
    c.input(format!("{text:?} {}", cfg.show()), tree::count(&tree_of(&d)) >= 2);
    keeps_meaning(&mut d, &cfg, &format!("{text:?}"))
}

fn p08_node(s: &mut Src, c: &mut Case) -> Res {
    let Some((text, mut d)) = parsed(s, c) else { return Ok(()) };
    let cfg = cfg(s);
    if d.nodes().is_empty() {
        c.skip();
        return Ok(());
    }
    let i = s.below(d.nodes().len() as u32) as usize;
    c.input(format!("{text:?} node {i} {}", cfg.show()), tree::count(&tree_of(&d)) >= 2);
    let mut n = d.nodes()[i].clone();
    let want = tree::node_of(&n);
    cfg.node(&mut n);
    let log = format!("{text:?} node {i} formatted alone ({})", cfg.show());
    ensure!(tree::node_of(&n) == want, "content", "{log}: the content changed");
    means(&n.to_string(), &vec![want], &log)?;
    // put back in its place
    let t = tree_of(&d);
    d.nodes_mut()[i] = n;
    means(&d.to_string(), &t, &format!("{log} and put back"))
}

fn p09(s: &mut Src, c: &mut Case) -> Res {
    let Some((text, mut d)) = parsed(s, c) else { return Ok(()) };
    let cfg = cfg(s);
    let t = tree_of(&d);
    cfg.doc(&mut d);
    let once = d.to_string();
    c.input(format!("{text:?} {}", cfg.show()), tree::count(&t) >= 2 && once != text);
    let log = format!("{text:?} ({}) becomes\n{once:?}", cfg.show());
    let mut again = d.clone();
    cfg.doc(&mut again);
    ensure!(again.to_string() == once, "in-memory", "{log}\nthen\n{:?}", again.to_string());
    match KdlDocument::parse_v2(&once) {
        Ok(mut p) => {
            cfg.doc(&mut p);
            ensure!(p.to_string() == once, "reparsed", "{log}\nthen (parsed again)\n{:?}", p.to_string());
        }
        Err(e) => return fail("invalid", format!("{log}, which does not parse: {e:?}")),
    }
    Ok(())
}

/// The lines of a comment without surrounding space.
fn norm(text: &str) -> String {
    text.split(refkdl::is_newline_char).map(|l| l.trim()).filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n")
}

/// The comments that formatting promises to keep: between nodes, or between a
/// node's content and its end.
fn kept_comments(text: &str, p: &refkdl::Parsed) -> Vec<String> {
    // regions of node content in which comments may be lost
    fn regions(ns: &[refkdl::RNode], out: &mut Vec<(usize, usize)>) {
        for n in ns {
            let head_end = n.children.as_ref().map(|_| n.children_span.0).unwrap_or(n.span.1);
            out.push((n.span.0, head_end));
            if let Some(ch) = &n.children {
                regions(ch, out);
            }
        }
    }
    let mut dead = vec![];
    regions(&p.nodes, &mut dead);
    let mut out = vec![];
    for c in &p.comments {
        if c.slashdashed || c.kind == CommentKind::Slashdash || dead.iter().any(|r| r.0 <= c.span.0 && c.span.0 < r.1) {
            continue;
        }
        // part of a line continuation?
        if !c.between_nodes {
            let line = text[..c.span.0].rsplit(refkdl::is_newline_char).next().unwrap();
            if line.contains('\\') {
                continue;
            }
        }
        out.push(norm(&text[c.span.0..c.span.1]));
    }
    out
}

/// A single node, formatted twice.
fn p09_node(s: &mut Src, c: &mut Case) -> Res {
    let Some((text, d)) = parsed(s, c) else { return Ok(()) };
    let Some(mut n) = any_node(s, &d) else {
        c.skip();
        return Ok(());
    };
    let cfg = cfg(s);
    let before = n.to_string();
    cfg.node(&mut n);
    let once = n.to_string();
    c.input(format!("{text:?} {before:?} {}", cfg.show()), (n.len() >= 2 || n.children().is_some()) && once != before);
    let log = format!("{text:?} {before:?} ({}) becomes\n{once:?}", cfg.show());
    let mut again = n.clone();
    cfg.node(&mut again);
    ensure!(again.to_string() == once, "in-memory", "{log}\nthen\n{:?}", again.to_string());
    match once.parse::<KdlNode>() {
        Ok(mut p) => {
            cfg.node(&mut p);
            ensure!(p.to_string() == once, "reparsed", "{log}\nthen (parsed again)\n{:?}", p.to_string());
        }
        Err(e) => return fail("invalid", format!("{log}, which does not parse as a node: {e:?}")),
    }
    Ok(())
}

/// A text for P10, with comments for the most part.
fn commented(s: &mut Src) -> String {
    if s.chance(2, 3) {
        let st = Style { comments: true, wild: 1 + s.below(3), ..Style::any(s) };
        gen_text::document_styled(s, st).text
    } else {
        source(s)
    }
}

/// What formatting has made of the comments of `text`.
fn p10_judge(c: &mut Case, cfg: &Cfg, text: &str, p: &refkdl::Parsed, out: &str) -> Res {
    let r2 = refkdl::parse(out);
    let Verdict::Ok(p2) = &r2.verdict else {
        return fail("invalid", format!("{text:?} ({}) becomes {out:?}, which is not KDL", cfg.show()));
    };
    if cfg.no_comments {
        c.label("removed");
        let left: Vec<&str> = p2.comments.iter().filter(|_| !cfg.keep).map(|c| &out[c.span.0..c.span.1]).collect();
        ensure!(left.is_empty(), "left-over", "{text:?} ({}) becomes\n{out:?}\nwhich still has {left:?}", cfg.show());
    } else {
        let want = kept_comments(text, p);
        let have: Vec<String> = p2.comments.iter().filter(|c| c.kind != CommentKind::Slashdash).map(|c| norm(&out[c.span.0..c.span.1])).collect();
        c.label_if(!want.is_empty(), "kept");
        // in order, possibly among others
        let mut it = have.iter();
        for w in &want {
            ensure!(it.any(|h| h == w), "lost", "{text:?} ({}) becomes\n{out:?}\nthe comment {w:?} is lost or out of order", cfg.show());
        }
    }
    Ok(())
}

fn p10(s: &mut Src, c: &mut Case) -> Res {
    let text = commented(s);
    let r = refkdl::parse(&text);
    let (Verdict::Ok(p), None) = (&r.verdict, r.gray) else {
        c.skip();
        return Ok(());
    };
    let Ok(mut d) = KdlDocument::parse_v2(&text) else {
        c.skip();
        return Ok(());
    };
    let cfg = cfg(s);
    c.input(format!("{text:?} {}", cfg.show()), !p.comments.is_empty());
    cfg.doc(&mut d);
    p10_judge(c, &cfg, &text, p, &d.to_string())
}

/// Some node of a document, at any depth.
fn any_node(s: &mut Src, d: &KdlDocument) -> Option<KdlNode> {
    let mut nodes = d.nodes();
    let mut found = None;
    while !nodes.is_empty() {
        let n = &nodes[s.below(nodes.len() as u32) as usize];
        found = Some(n);
        nodes = n.children().map(|k| k.nodes()).unwrap_or(&[]);
        if s.chance(2, 3) {
            break;
        }
    }
    found.cloned()
}

/// One node of a document, formatted on its own.
fn p10_node(s: &mut Src, c: &mut Case) -> Res {
    let d = KdlDocument::parse_v2(&commented(s)).ok();
    let Some(mut n) = d.and_then(|d| any_node(s, &d)) else {
        c.skip();
        return Ok(());
    };
    let text = n.to_string();
    let r = refkdl::parse(&text);
    let (Verdict::Ok(p), None) = (&r.verdict, r.gray) else {
        c.skip();
        return Ok(());
    };
    let cfg = cfg(s);
    c.input(format!("{text:?} {}", cfg.show()), !p.comments.is_empty());
    cfg.node(&mut n);
    p10_judge(c, &cfg, &text, p, &n.to_string())
}

// ---- P25 ----

fn ident(s: &str, out: &mut String) {
    out.push_str(&kdl::KdlValue::from(s).to_string());
}

/// A block that has no formatting at all gets no blank line if it is empty.
fn layout(n: &TNode, level: usize, indent: &str, blank: bool, out: &mut String) {
    let pad = |out: &mut String| (0..level).for_each(|_| out.push_str(indent));
    pad(out);
    if let Some(t) = &n.ty {
        out.push('(');
        ident(t, out);
        out.push(')');
    }
    ident(&n.name, out);
    for e in &n.entries {
        out.push(' ');
        if let Some(k) = &e.name {
            ident(k, out);
            out.push('=');
        }
        if let Some(t) = &e.ty {
            out.push('(');
            ident(t, out);
            out.push(')');
        }
        out.push_str(&tree::kdl_val(&e.val).to_string());
    }
    if let Some(ch) = &n.children {
        out.push_str(" {\n");
        ch.iter().for_each(|c| layout(c, level + 1, indent, blank, out));
        if ch.is_empty() && blank {
            out.push('\n');
        }
        pad(out);
        out.push('}');
    }
    out.push('\n');
}

fn continued(d: &KdlDocument) -> bool {
    d.format().is_some_and(|f| f.leading.contains('\\') || f.trailing.contains('\\'))
        || d.nodes().iter().any(|n| {
            n.format().is_some_and(|f| [&f.leading, &f.before_terminator, &f.trailing].iter().any(|x| x.contains('\\')))
                || n.children().is_some_and(continued)
        })
}

fn p25(s: &mut Src, c: &mut Case) -> Res {
    let st = Style { comments: false, slashdash: false, ..Style::any(s) };
    let t = gen_tree::tree(s);
    let mut r = gen_text::Ren::new(s, st);
    r.document(&t);
    let text = std::mem::take(&mut r.out);
    // a rendered text may still hold comments (line continuations, for one)
    let rf = refkdl::parse(&text);
    let (Verdict::Ok(p), None) = (&rf.verdict, rf.gray) else {
        c.skip();
        return Ok(());
    };
    if !p.comments.is_empty() {
        c.skip();
        return Ok(());
    }
    let cfg = Cfg { keep: false, ..cfg(s) };
    let mut d = match KdlDocument::parse_v2(&text) {
        // line continuations after a node's content stay
        Ok(d) if tree_of(&d) == t && !continued(&d) => d,
        _ => {
            c.skip();
            return Ok(());
        }
    };
    c.input(format!("{text:?} {}", cfg.show()), tree::count(&t) >= 2);
    cfg.doc(&mut d);
    let mut want = String::new();
    t.iter().for_each(|n| layout(n, cfg.level, cfg.indent, true, &mut want));
    ensure!(d.to_string() == want, "layout", "{text:?} ({}) becomes\n{:?}\nexpected\n{want:?}", cfg.show(), d.to_string());
    Ok(())
}

fn p25_node(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_tree::node(s, 2);
    let mut n = tree::build_node(&t);
    if s.chance(1, 2) {
        n.clear_format_recursive();
    }
    let cfg = Cfg { keep: false, ..cfg(s) };
    let text = n.to_string();
    c.input(format!("{text:?} {}", cfg.show()), t.children.is_some() || !t.entries.is_empty());
    cfg.node(&mut n);
    let mut want = String::new();
    layout(&t, cfg.level, cfg.indent, false, &mut want);
    ensure!(n.to_string() == want, "layout", "{text:?} ({}) becomes\n{:?}\nexpected\n{want:?}", cfg.show(), n.to_string());
    Ok(())
}

/// With comments, nodes still begin lines of their own.
fn p25_lines(s: &mut Src, c: &mut Case) -> Res {
    let st = Style { comments: true, slashdash: false, wild: 1 + s.below(3), ..Style::any(s) };
    let text = gen_text::document_styled(s, st).text;
    let rf = refkdl::parse(&text);
    let (Verdict::Ok(p), None) = (&rf.verdict, rf.gray) else {
        c.skip();
        return Ok(());
    };
    let cfg = Cfg { keep: false, ..cfg(s) };
    let mut d = match KdlDocument::parse_v2(&text) {
        Ok(d) if !continued(&d) => d,
        _ => {
            c.skip();
            return Ok(());
        }
    };
    c.input(format!("{text:?} {}", cfg.show()), !p.comments.is_empty() && !p.nodes.is_empty());
    cfg.doc(&mut d);
    let out = d.to_string();
    let r2 = refkdl::parse(&out);
    let Verdict::Ok(p2) = &r2.verdict else {
        return fail("invalid", format!("{text:?} ({}) becomes {out:?}, which is not KDL", cfg.show()));
    };
    fn lines(ns: &[refkdl::RNode], out: &str, level: usize, cfg: &Cfg) -> Option<usize> {
        ns.iter().find_map(|n| {
            let line = out[..n.span.0].rsplit('\n').next().unwrap();
            if line != cfg.indent.repeat(level) {
                return Some(n.span.0);
            }
            n.children.as_ref().and_then(|k| lines(k, out, level + 1, cfg))
        })
    }
    if let Some(at) = lines(&p2.nodes, &out, cfg.level, &cfg) {
        return fail("lines", format!("{text:?} ({}) becomes\n{out:?}\nwhere the node at {at} is not alone at the start of an indented line", cfg.show()));
    }
    ensure!(out.is_empty() || out.ends_with('\n'), "end", "{text:?} ({}) becomes\n{out:?}\nwhich does not end with a newline", cfg.show());
    Ok(())
}

/// Entries whose formatting is kept, by the configuration or one by one.
fn p25_kept(s: &mut Src, c: &mut Case) -> Res {
    let st = Style { comments: false, slashdash: s.chance(1, 4), ..Style::any(s) };
    let t = gen_tree::tree(s);
    let mut r = gen_text::Ren::new(s, st);
    r.document(&t);
    let text = std::mem::take(&mut r.out);
    let rf = refkdl::parse(&text);
    let (Verdict::Ok(p), None) = (&rf.verdict, rf.gray) else {
        c.skip();
        return Ok(());
    };
    let mut d = match KdlDocument::parse_v2(&text) {
        Ok(d) if tree_of(&d) == t && !continued(&d) && !p.comments.iter().any(|c| c.between_nodes) && !comments(&d) => d,
        _ => {
            c.skip();
            return Ok(());
        }
    };
    let mut cfg = cfg(s);
    cfg.keep = cfg.how >= 2 && s.chance(2, 3);
    let mut kept = 0;
    fn mark(s: &mut Src, d: &mut KdlDocument, all: bool, kept: &mut usize) {
        for n in d.nodes_mut() {
            for e in n.entries_mut() {
                if !all && s.chance(1, 2) {
                    e.keep_format();
                }
                // a string broken across lines becomes a multi-line one
                if e.format().is_some_and(|f| !f.value_repr.contains("\"\"\"") && f.value_repr.contains(refkdl::is_newline_char)) {
                    e.clear_format();
                }
                *kept += (all || e.format().is_some_and(|f| f.autoformat_keep)) as usize;
            }
            if let Some(ch) = n.children_mut() {
                mark(s, ch, all, kept);
            }
        }
    }
    mark(s, &mut d, cfg.keep, &mut kept);
    c.input(format!("{text:?} {}", cfg.show()), kept > 0);
    c.label(if cfg.keep { "all kept" } else { "some kept" });
    let mut want = String::new();
    d.nodes().iter().for_each(|n| layout_kept(n, &cfg, cfg.level, &mut want));
    cfg.doc(&mut d);
    ensure!(d.to_string() == want, "kept", "{text:?} ({}) becomes\n{:?}\nexpected\n{want:?}", cfg.show(), d.to_string());
    Ok(())
}

/// Whether there is anything but space where formatting would have to keep it.
fn comments(d: &KdlDocument) -> bool {
    let space = |t: &str| t.chars().all(|c| c.is_whitespace() || refkdl::is_newline_char(c));
    d.nodes().iter().any(|n| {
        n.format().is_some_and(|f| {
            let decor = [&f.leading, &f.before_ty_name, &f.after_ty_name, &f.after_ty, &f.before_children, &f.before_terminator, &f.trailing];
            !decor.iter().all(|x| space(x)) || f.terminator.starts_with("//")
        }) || n.children().is_some_and(comments)
    }) || d.format().is_some_and(|f| !space(&f.trailing) || !space(f.leading.trim_start_matches('\u{feff}')))
}

fn layout_kept(n: &kdl::KdlNode, cfg: &Cfg, level: usize, out: &mut String) {
    let pad = |out: &mut String| (0..level).for_each(|_| out.push_str(cfg.indent));
    pad(out);
    if let Some(t) = n.ty() {
        out.push('(');
        ident(t.value(), out);
        out.push(')');
    }
    ident(n.name().value(), out);
    for e in n.entries() {
        let fmt = e.format().filter(|f| cfg.keep || f.autoformat_keep);
        out.push_str(fmt.map(|f| f.leading.as_str()).unwrap_or(" "));
        if let Some(k) = e.name() {
            ident(k.value(), out);
            out.push('=');
        }
        if let Some(t) = e.ty() {
            out.push('(');
            ident(t.value(), out);
            out.push(')');
        }
        let bare = e.value().as_string().is_some_and(refkdl::is_bare_ident);
        match fmt {
            // a string that can be bare is made so
            Some(f) if !bare => out.push_str(&f.value_repr),
            _ => out.push_str(&e.value().to_string()),
        }
    }
    if let Some(ch) = n.children() {
        out.push_str(" {\n");
        ch.nodes().iter().for_each(|c| layout_kept(c, cfg, level + 1, out));
        if ch.nodes().is_empty() {
            out.push('\n');
        }
        pad(out);
        out.push('}');
    }
    out.push('\n');
}
