//! Values, identifiers and documents built through the API:
//! P06 (canonical printing), P07 (programmatic documents print as themselves).

use super::Prop;
use crate::engine::{Case, Part, Res, Src, enum_index, fail};
use crate::gen_text::{Ren, Style};
use crate::tree::{Val, kdl_val, show, show_val, tree_of, val_of};
use crate::{ensure, gen_text, gen_tree, refkdl, tree};
use kdl::{KdlDocument, KdlEntry, KdlIdentifier, KdlNode, KdlValue};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P06",
            rule: "Values (strings over the whole of Unicode with emphasis on delimiters, keywords, number-like words and control characters; integers over all of i128; floats over all of f64) and identifiers are printed and parsed back, alone and inside a node; every string of up to two characters from a set of 60 special ones is enumerated. Non-trivial: not the empty string and not a plain lower-case word.",
            assumptions: &["All NaNs are one value."],
            parts: || {
                vec![
                    Part::random("values", 300_000, 6_000_000, p06_value),
                    Part::random("identifiers", 300_000, 6_000_000, p06_ident),
                    Part::all("special-characters", |_| (SPECIAL.len() * SPECIAL.len() + SPECIAL.len()) as u64, p06_special),
                    Part::all("single-code-points", |t| if t { 0x110000 } else { 0x3100 }, p06_cp),
                ]
            },
        },
        Prop {
            id: "P07",
            rule: "Documents are assembled through the API: new nodes and entries, nodes, entries and child documents parsed from their own text, entries and nodes inserted, removed, sorted, retained, given types, and formatting cleared at random places. The content is read through accessors, then the printed text is parsed. Non-trivial: at least two nodes or entries, and at least one operation after the first.",
            assumptions: &[],
            parts: || {
                vec![
                    Part::random("from-tree", 150_000, 3_000_000, p07_tree),
                    Part::random("assembled", 200_000, 4_000_000, p07_ops),
                ]
            },
        },
    ]
}

const SPECIAL: &[char] = &[
    '\0', '\u{1}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{e}', '\u{1f}', ' ', '!', '"', '#', '$', '\'', '(', ')', '*', '+', ',', '-', '.', '/',
    '0', '9', ':', ';', '<', '=', '>', '?', '@', 'A', 'x', 'n', 'u', '[', '\\', ']', '^', '_', '`', '{', '|', '}', '~', '\u{7f}', '\u{85}', '\u{a0}',
    '\u{1680}', '\u{200b}', '\u{200e}', '\u{2028}', '\u{2029}', '\u{202a}', '\u{2066}', '\u{3000}', '\u{feff}', '\u{10ffff}',
];

fn p06_value(s: &mut Src, c: &mut Case) -> Res {
    let v = gen_tree::val(s);
    value_prints(&v, c)
}

fn value_prints(v: &Val, c: &mut Case) -> Res {
    let plain = matches!(v, Val::Str(s) if s.chars().all(|c| c.is_ascii_lowercase()));
    c.input(show_val(v), !plain);
    c.label(match v {
        Val::Str(_) => "string",
        Val::Int(_) => "integer",
        Val::Float(_) => "float",
        Val::Bool(_) => "bool",
        Val::Null => "null",
    });
    let k = kdl_val(v);
    let text = k.to_string();
    ensure!(refkdl::parse_value_alone(&text).as_ref() == Some(v), "value-print", "prints as {text:?}, which the KDL grammar reads as {:?}", refkdl::parse_value_alone(&text));
    // alone, as an entry
    match KdlEntry::new(k.clone()).to_string().parse::<KdlEntry>() {
        Ok(e) => ensure!(val_of(e.value()) == *v && e.name().is_none() && e.ty().is_none(), "entry-parse", "prints as {text:?}, parses as {e:?}"),
        Err(e) => return fail("entry-parse", format!("prints as {text:?}, which does not parse: {e:?}")),
    }
    // as argument, property value and (for strings) name and type
    let mut n = KdlNode::new("n");
    n.push(k.clone());
    n.push(("p", k.clone()));
    let mut d = KdlDocument::new();
    d.nodes_mut().push(n);
    let text = d.to_string();
    match KdlDocument::parse_v2(&text) {
        Ok(p) => ensure!(tree_of(&p) == tree_of(&d), "node-parse", "prints as {text:?}, parses as {}", show(&tree_of(&p))),
        Err(e) => return fail("node-parse", format!("prints as {text:?}, which does not parse: {e:?}")),
    }
    Ok(())
}

fn p06_ident(s: &mut Src, c: &mut Case) -> Res {
    let n = gen_tree::string(s);
    ident_prints(&n, c)
}

fn ident_prints(n: &str, c: &mut Case) -> Res {
    let plain = n.chars().all(|c| c.is_ascii_lowercase());
    c.input(format!("{n:?}"), !plain);
    let id = KdlIdentifier::from(n);
    let text = id.to_string();
    let bare = refkdl::is_bare_ident(n);
    c.label(if bare { "bare" } else { "quoted" });
    ensure!(refkdl::parse_string_alone(&text).as_deref() == Some(n), "ident-print", "prints as {text:?}, which the KDL grammar reads as {:?}", refkdl::parse_string_alone(&text));
    // "It will attempt to make it an unquoted identifier"
    ensure!((text == n) == bare, "ident-quoting", "prints as {text:?}; a bare identifier is {}", if bare { "possible" } else { "not possible" });
    ensure!(KdlValue::from(n).to_string() == text, "ident-vs-value", "identifier prints {text:?}, value prints {:?}", KdlValue::from(n).to_string());
    ensure!(id.len() == text.len() && id.is_empty() == text.is_empty(), "ident-len", "len() is {}, prints {text:?}", id.len());
    match text.parse::<KdlIdentifier>() {
        Ok(p) => ensure!(p.value() == n, "ident-parse", "{text:?} parses as {:?}", p.value()),
        Err(e) => return fail("ident-parse", format!("{text:?} does not parse: {e:?}")),
    }
    let mut node = KdlNode::new(n);
    node.set_ty(n);
    node.push((n, KdlValue::Null));
    let mut e = KdlEntry::new(1);
    e.set_ty(n);
    node.push(e);
    let mut d = KdlDocument::new();
    d.nodes_mut().push(node);
    let text = d.to_string();
    match KdlDocument::parse_v2(&text) {
        Ok(p) => ensure!(tree_of(&p) == tree_of(&d), "node-parse", "prints as {text:?}, parses as {}", show(&tree_of(&p))),
        Err(e) => return fail("node-parse", format!("prints as {text:?}, which does not parse: {e:?}")),
    }
    Ok(())
}

fn p06_special(s: &mut Src, c: &mut Case) -> Res {
    let i = enum_index(s) as usize;
    let k = SPECIAL.len();
    let mut t = String::new();
    if i < k {
        t.push(SPECIAL[i]);
    } else {
        t.push(SPECIAL[(i - k) / k]);
        t.push(SPECIAL[(i - k) % k]);
    }
    value_prints(&Val::Str(t.clone()), c)?;
    ident_prints(&t, c)?;
    ident_prints(&format!("a{t}"), c)?;
    c.nontrivial = true;
    Ok(())
}

fn p06_cp(s: &mut Src, c: &mut Case) -> Res {
    let Some(ch) = char::from_u32(enum_index(s) as u32) else {
        c.skip();
        return Ok(());
    };
    ident_prints(&format!("a{ch}b"), c)?;
    let t = ch.to_string();
    ident_prints(&t, c)?;
    c.nontrivial = true;
    Ok(())
}

// ---- P07 ----

pub fn prints_itself(d: &KdlDocument, clause: &str) -> Res {
    let want = tree_of(d);
    let text = d.to_string();
    match refkdl::parse(&text).tree() {
        Some(t) => ensure!(t == want, format!("{clause}-differs"), "holds {}\n  prints {text:?}\n  which means {}", show(&want), show(&t)),
        None => return fail(format!("{clause}-invalid"), format!("holds {}\n  prints {text:?}, which is not KDL: {:?}", show(&want), refkdl::parse(&text).verdict)),
    }
    match KdlDocument::parse_v2(&text) {
        Ok(p) => ensure!(tree_of(&p) == want, format!("{clause}-reparse"), "holds {}\n  prints {text:?}\n  which parses as {}", show(&want), show(&tree_of(&p))),
        Err(e) => return fail(format!("{clause}-reparse"), format!("holds {}\n  prints {text:?}, which does not parse: {e:?}", show(&want))),
    }
    Ok(())
}

fn p07_tree(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_tree::tree(s);
    let mut d = tree::build_doc(&t);
    c.input(show(&t), tree::count(&t) >= 2);
    ensure!(tree_of(&d) == t, "built", "built {} from {}", show(&tree_of(&d)), show(&t));
    prints_itself(&d, "built")?;
    d.clear_format();
    prints_itself(&d, "doc-cleared")?;
    d.clear_format_recursive();
    ensure!(tree_of(&d) == t, "clear-content", "clear_format_recursive changed the content to {}", show(&tree_of(&d)));
    prints_itself(&d, "cleared")
}

pub fn some_doc(s: &mut Src) -> KdlDocument {
    if s.chance(1, 4) {
        return KdlDocument::new();
    }
    if s.chance(1, 3) {
        return tree::build_doc(&gen_tree::nodes(s, 1));
    }
    KdlDocument::parse_v2(&gen_text::document(s).text).unwrap_or_default()
}

pub fn some_node(s: &mut Src) -> KdlNode {
    let t = gen_tree::node(s, 1);
    if s.chance(1, 2) {
        return tree::build_node(&t);
    }
    let st = Style::any(s);
    let mut r = Ren::new(s, st);
    r.line_space0();
    r.node(&t);
    let mut text = std::mem::take(&mut r.out);
    match s.below(8) {
        0 | 1 => {}
        2 => text.push('\n'),
        3 => text.push(';'),
        4 => text.push_str(" // c\n"),
        5 => text.push_str(" // c"),
        6 => text.push_str("; // c"),
        _ => text.push_str([" \\", " \\ // c", " \\\r", " \\\r\n", "\\\n/*x*/", ";\r", "\\/*\n*/", " //\\"][s.below(8) as usize]),
    }
    KdlNode::parse(&text).unwrap_or_else(|_| tree::build_node(&t))
}

pub fn some_entry(s: &mut Src) -> KdlEntry {
    let t = gen_tree::entry(s);
    if s.chance(1, 2) {
        return tree::build_entry(&t);
    }
    let st = Style::any(s);
    let mut r = Ren::new(s, st);
    match r.s.below(4) {
        0 | 1 => r.node_space1(),
        2 => r.line_space0(),
        _ => {}
    }
    r.entry(&t);
    match r.s.below(8) {
        0 => r.node_space1(),
        1 => r.line_space0(),
        2 => r.out += [" // c", " \\", " \\ // c", "\n\\", "\r", "\\\r", "\r\n", "// \\"][r.s.below(8) as usize],
        _ => {}
    }
    let text = std::mem::take(&mut r.out);
    KdlEntry::parse(&text).unwrap_or_else(|_| tree::build_entry(&t))
}

/// A format with something fit for each place.
fn some_node_format(s: &mut Src) -> kdl::KdlNodeFormat {
    let mut f = kdl::KdlNodeFormat::default();
    f.leading = s.pick(&["", "  ", "\n\t", "// c\n", "/* c */", "/-x\n"]).to_string();
    f.before_ty_name = s.pick(&["", " "]).to_string();
    f.after_ty_name = s.pick(&["", "/* c */"]).to_string();
    f.after_ty = s.pick(&["", " "]).to_string();
    f.before_children = s.pick(&["", " ", "  ", " /* c */ ", " /-{ x\n} ", " \\\n"]).to_string();
    f.before_terminator = s.pick(&["", "", " ", " /* c */", " /-{ x\n}"]).to_string();
    f.terminator = s.pick(&["", "\n", ";", "\r\n", "// c\n"]).to_string();
    f.trailing = s.pick(&["", "", " ", "\n", "// c\n"]).to_string();
    f
}

/// A key of the node, or a new one.
fn some_key(s: &mut Src, n: &KdlNode) -> String {
    let keys: Vec<String> = n.entries().iter().filter_map(|e| e.name().map(|n| n.value().to_string())).collect();
    if keys.is_empty() || s.chance(1, 5) { gen_tree::name(s) } else { s.pick(&keys).clone() }
}

fn p07_ops(s: &mut Src, c: &mut Case) -> Res {
    let mut d = some_doc(s);
    let mut log = format!("start {:?}\n", d.to_string());
    let n = s.range(1, 8);
    for _ in 0..n {
        let k = d.nodes().len();
        if k == 0 || s.chance(1, 4) {
            let node = some_node(s);
            let at = s.below(k as u32 + 1) as usize;
            log += &format!("insert node {:?} at {at}\n", node.to_string());
            d.nodes_mut().insert(at, node);
            continue;
        }
        let i = s.below(k as u32) as usize;
        // sometimes work inside a child block
        let deep = s.chance(1, 3);
        let target = &mut d.nodes_mut()[i];
        let mut path = format!("[{i}]");
        let target = if deep && target.children().is_some_and(|c| !c.nodes().is_empty()) {
            let ch = target.children_mut().as_mut().unwrap();
            let j = s.below(ch.nodes().len() as u32) as usize;
            path += &format!("[{j}]");
            &mut ch.nodes_mut()[j]
        } else {
            target
        };
        match s.below(21) {
            0 => {
                let e = some_entry(s);
                log += &format!("{path}.push {:?}\n", e.to_string());
                target.push(e);
            }
            1 => {
                let e = some_entry(s);
                let at = s.below(target.entries().len() as u32 + 1) as usize;
                log += &format!("{path}.entries.insert {at} {:?}\n", e.to_string());
                target.entries_mut().insert(at, e);
            }
            2 if !target.entries().is_empty() => {
                let at = s.below(target.entries().len() as u32) as usize;
                log += &format!("{path}.entries.remove {at}\n");
                target.entries_mut().remove(at);
            }
            3 => {
                let n = gen_tree::name(s);
                log += &format!("{path}.set_name {n:?}\n");
                target.set_name(n);
            }
            4 => {
                let n = gen_tree::name(s);
                log += &format!("{path}.set_ty {n:?}\n");
                target.set_ty(n);
            }
            5 => {
                log += &format!("{path}.ty = None\n");
                *target.ty_mut() = None;
            }
            6 => {
                let ch = some_doc(s);
                log += &format!("{path}.set_children {:?}\n", ch.to_string());
                target.set_children(ch);
            }
            7 => {
                let n = some_node(s);
                log += &format!("{path}.ensure_children().push {:?}\n", n.to_string());
                target.ensure_children().nodes_mut().push(n);
            }
            8 => {
                log += &format!("{path}.clear_children\n");
                target.clear_children();
            }
            9 => {
                log += &format!("{path}.clear_format\n");
                target.clear_format();
            }
            10 => {
                log += &format!("{path}.clear_format_recursive\n");
                target.clear_format_recursive();
            }
            11 if !target.entries().is_empty() => {
                let at = s.below(target.entries().len() as u32) as usize;
                let v = gen_tree::val(s);
                log += &format!("{path}.entries[{at}] = {} and clear_format\n", show_val(&v));
                let e = &mut target.entries_mut()[at];
                e.set_value(kdl_val(&v));
                e.clear_format();
            }
            12 if k > 0 => {
                log += &format!("remove node {i}\n");
                d.nodes_mut().remove(i);
            }
            13 => {
                let k = some_key(s, target);
                let mut e = some_entry(s);
                if s.chance(1, 2) || e.name().is_some() {
                    e = KdlEntry::new(kdl_val(&gen_tree::val(s)));
                }
                log += &format!("{path}.insert {k:?} {:?}\n", e.to_string());
                target.insert(k.as_str(), e);
            }
            14 => {
                let k = some_key(s, target);
                log += &format!("{path}.remove {k:?}\n");
                target.remove(k.as_str());
            }
            15 => {
                let args = target.entries().iter().filter(|e| e.name().is_none()).count() as u32;
                let at = s.below(args + 1) as usize;
                let v = gen_tree::val(s);
                log += &format!("{path}.insert {at} {}\n", show_val(&v));
                target.insert(at, kdl_val(&v));
            }
            16 => {
                log += "reverse nodes\n";
                d.nodes_mut().reverse();
            }
            17 => {
                let f = some_node_format(s);
                log += &format!("{path}.set_format {f:?}\n");
                target.set_format(f);
            }
            18 if !target.entries().is_empty() => {
                let at = s.below(target.entries().len() as u32) as usize;
                let e = &mut target.entries_mut()[at];
                let mut f = kdl::KdlEntryFormat::default();
                f.value_repr = e.value().to_string();
                f.leading = s.pick(&["", " ", "  ", "\t", " /* c */ ", " \\\n ", " /-x "]).to_string();
                f.after_key = s.pick(&["", " "]).to_string();
                f.after_eq = s.pick(&["", " ", "/* c */"]).to_string();
                f.after_ty = s.pick(&["", " "]).to_string();
                log += &format!("{path}.entries[{at}].set_format {f:?}\n");
                e.set_format(f);
            }
            19 => {
                let f = kdl::KdlDocumentFormat {
                    leading: s.pick(&["", "\n", "// c\n", "  ", "/-x\n"]).to_string(),
                    trailing: s.pick(&["", "\n", "// c\n", "  ", "/-x\n", "// c"]).to_string(),
                };
                if s.chance(1, 2) && target.children().is_some() {
                    log += &format!("{path}.children.set_format {f:?}\n");
                    target.ensure_children().set_format(f);
                } else {
                    log += &format!("doc.set_format {f:?}\n");
                    d.set_format(f);
                }
            }
            _ => {
                log += "doc.clear_format\n";
                d.clear_format();
            }
        }
    }
    let t = tree_of(&d);
    c.input(log, tree::count(&t) >= 2 && n >= 2);
    prints_itself(&d, "assembled")
}
