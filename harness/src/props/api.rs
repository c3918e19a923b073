//! The editing API against reference models:
//! P11 (node entries), P12 (document access), P13 (edits are local), P14 (equality).

use super::Prop;
use super::model::{some_doc, some_entry, some_node};
use crate::engine::{Case, Part, Res, Src, fail, no_panic};
use crate::gen_text::Style;
use crate::tree::{TEntry, TNode, Tree, Val, entry_of, kdl_val, node_of, show, show_val, tree_of, val_of};
use crate::{ensure, gen_text, gen_tree, mutate, refkdl, tree};
use kdl::{KdlDocument, KdlEntry, KdlIdentifier, KdlNode, KdlValue, NodeKey};
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P11",
            rule: "A node (parsed from random text, or built) goes through a random history of up to 16 operations (push, insert and remove by name or index, get/entry/index lookups and writes, retain, stable sorts, clear), in step with a plain list of (name, type, value). Keys are mostly names that occur, written as &str, String, identifiers with or without their own spelling, or indices. Non-trivial: at least three operations on a node that had an entry.",
            assumptions: &["Inserting beyond the number of arguments, removing an argument that does not exist, and inserting an entry under another name panic by design (the messages say so)."],
            parts: || vec![Part::random("node-history", 350_000, 7_000_000, p11)],
        },
        Prop {
            id: "P12",
            rule: "Documents (parsed or built, with repeated names and `-` children) are queried through every accessor with names that do and do not occur, and written through the mutable ones, in step with a content tree. Non-trivial: at least one name that occurs.",
            assumptions: &[],
            parts: || vec![Part::random("document-access", 250_000, 5_000_000, p12)],
        },
        Prop {
            id: "P13",
            rule: "A random document is parsed; one edit is made at a random node (nested ones included): rename, retype, change a value, add or remove an entry or a node, set or clear children, swap neighbours. The new text has to be the old one with just the edited piece replaced, inserted or removed (a single space or newline may be added to keep pieces apart), and to mean the edited content. Non-trivial: the document holds at least two nodes or entries.",
            assumptions: &["A value is edited together with its representation (clear_format, or value_repr), as the API documents.", "Text ends with a newline if its last line is a comment or continuation."],
            parts: || vec![Part::random("single-edits", 300_000, 6_000_000, p13)],
        },
        Prop {
            id: "P14",
            rule: "Pairs of documents (parsed from equal, closely related or unrelated texts; clones; single-field edits; spans set; formats changed, against the equality of all accessible parts) and pairs and triples of values (all floats, integers and strings) are compared, hashed and ordered. Non-trivial: the two sides are not both empty.",
            assumptions: &["KdlValue deliberately equates infinities with the largest finite floats and NaN with zero (documented in the code)."],
            parts: || vec![Part::random("documents", 200_000, 2_500_000, p14_docs), Part::random("touched", 150_000, 2_500_000, p14_touched), Part::random("values", 500_000, 8_000_000, p14_values)],
        },
    ]
}

// ---- P11 ----

fn key_of(s: &mut Src, model: &[TEntry]) -> String {
    let names: Vec<&String> = model.iter().filter_map(|e| e.name.as_ref()).collect();
    if !names.is_empty() && s.chance(3, 4) {
        (*s.pick(&names)).clone()
    } else {
        gen_tree::name(s)
    }
}

/// The same key in one of the forms the API takes.
fn node_key(s: &mut Src, k: &str) -> NodeKey {
    match s.below(4) {
        0 => NodeKey::from(k),
        1 => NodeKey::from(k.to_string()),
        2 => {
            // an identifier with a representation of its own
            let q = format!("{:?}", k).replace("\\'", "'");
            match no_panic(|| q.parse::<KdlIdentifier>()) {
                Ok(Ok(i)) if i.value() == k => NodeKey::Key(i),
                _ => NodeKey::from(k),
            }
        }
        _ => match no_panic(|| k.parse::<KdlIdentifier>()) {
            Ok(Ok(i)) if i.value() == k => NodeKey::Key(i),
            _ => NodeKey::from(k),
        },
    }
}

fn arg_pos(model: &[TEntry], i: usize) -> Option<usize> {
    model.iter().enumerate().filter(|(_, e)| e.name.is_none()).nth(i).map(|(p, _)| p)
}
fn prop_pos(model: &[TEntry], k: &str) -> Option<usize> {
    model.iter().rposition(|e| e.name.as_deref() == Some(k))
}
fn entries_model(n: &KdlNode) -> Vec<TEntry> {
    n.entries().iter().map(entry_of).collect()
}
fn same(r: &Option<&KdlEntry>, n: &KdlNode, want: Option<usize>) -> bool {
    match (r, want) {
        (None, None) => true,
        (Some(e), Some(p)) => std::ptr::eq(*e, &n.entries()[p]),
        _ => false,
    }
}

fn p11(s: &mut Src, c: &mut Case) -> Res {
    let mut n = if s.chance(1, 6) {
        KdlNode::new(gen_tree::name(s))
    } else {
        let mut n = some_node(s);
        if s.chance(1, 2) && !n.entries().is_empty() {
            // repeat a name
            let e = s.pick(n.entries()).clone();
            n.push(e);
        }
        n
    };
    let mut m = entries_model(&n);
    let head = n.clone();
    // the entries themselves, with their formatting
    let mut q: Vec<KdlEntry> = n.entries().to_vec();
    let had = !m.is_empty();
    let mut log = format!("start {:?}\n", n.to_string());
    let ops = s.range(1, 16);
    for _ in 0..ops {
        let nargs = m.iter().filter(|e| e.name.is_none()).count();
        match s.below(17) {
            0 => {
                let e = some_entry(s);
                log += &format!("push {:?}\n", e.to_string());
                m.push(entry_of(&e));
                q.push(e.clone());
                n.push(e);
            }
            1 => {
                let (k, v) = (key_of(s, &m), gen_tree::val(s));
                log += &format!("push ({k:?}, {})\n", show_val(&v));
                m.push(TEntry { name: Some(k.clone()), ty: None, val: v.clone() });
                n.push((k.as_str(), kdl_val(&v)));
                q.push(KdlEntry::new_prop(k, kdl_val(&v)));
            }
            2 | 3 => {
                // insert by name: a nameless entry takes the name
                let k = key_of(s, &m);
                let named = s.chance(1, 2);
                let mut e = some_entry(s);
                if named {
                    e.set_name(Some(k.as_str()));
                } else {
                    e.set_name(None::<&str>);
                }
                let mut te = entry_of(&e);
                te.name = Some(k.clone());
                log += &format!("insert {k:?} {:?}\n", e.to_string());
                let want = prop_pos(&m, &k);
                let old = want.map(|p| n.entries()[p].clone());
                let key = node_key(s, &k);
                let mut qe = e.clone();
                let got = n.insert(key, e);
                if !named {
                    // it takes the key as it is spelled
                    let new = prop_pos(&entries_model(&n), &k).map(|p| n.entries()[p].name().cloned());
                    qe.set_name(new.flatten());
                }
                match want {
                    Some(p) => q[p] = qe,
                    None => q.push(qe),
                }
                c.label(if old.is_some() { "replace property" } else { "insert property" });
                ensure!(got == old, "insert-return", "{log}returned {got:?}, expected {old:?}");
                match want {
                    Some(p) => m[p] = te,
                    None => m.push(te),
                }
            }
            4 => {
                let i = s.below(nargs as u32 + 1) as usize;
                let mut e = some_entry(s);
                e.set_name(None::<&str>);
                log += &format!("insert {i} {:?}\n", e.to_string());
                let te = entry_of(&e);
                match arg_pos(&m, i) {
                    Some(p) => q.insert(p, e.clone()),
                    None => q.push(e.clone()),
                }
                let got = n.insert(i, e);
                ensure!(got.is_none(), "insert-return", "{log}returned {got:?}");
                c.label("insert argument");
                match arg_pos(&m, i) {
                    Some(p) => m.insert(p, te),
                    None => m.push(te),
                }
            }
            5 | 6 => {
                let k = key_of(s, &m);
                log += &format!("remove {k:?}\n");
                let want = prop_pos(&m, &k);
                let old = want.map(|p| n.entries()[p].clone());
                let key = node_key(s, &k);
                let got = n.remove(key);
                c.label(if old.is_some() { "remove property" } else { "remove absent" });
                ensure!(got == old, "remove-return", "{log}returned {got:?}, expected {old:?}");
                if let Some(p) = want {
                    m.remove(p);
                    q.remove(p);
                }
            }
            7 if nargs > 0 => {
                let i = s.below(nargs as u32) as usize;
                log += &format!("remove {i}\n");
                let p = arg_pos(&m, i).unwrap();
                let old = n.entries()[p].clone();
                let got = n.remove(i);
                c.label("remove argument");
                ensure!(got.as_ref() == Some(&old), "remove-return", "{log}returned {got:?}, expected {old:?}");
                m.remove(p);
                q.remove(p);
            }
            8 => {
                let k = key_of(s, &m);
                let v = gen_tree::val(s);
                log += &format!("write {k:?} = {}\n", show_val(&v));
                let p = prop_pos(&m, &k);
                let how = s.below(4);
                match how {
                    0 => {
                        if let Some(x) = n.get_mut(node_key(s, &k)) {
                            *x = kdl_val(&v);
                        }
                    }
                    1 => {
                        if let Some(x) = n.entry_mut(node_key(s, &k)) {
                            x.set_value(kdl_val(&v));
                            x.clear_format();
                        }
                    }
                    2 => {
                        if let Some(x) = n.entry_mut(k.as_str()) {
                            *x.value_mut() = kdl_val(&v);
                        }
                    }
                    _ => {
                        c.label("index write");
                        n[k.as_str()] = kdl_val(&v);
                        if p.is_none() {
                            m.push(TEntry { name: Some(k.clone()), ty: None, val: v.clone() });
                            q.push(KdlEntry::new_prop(k, kdl_val(&v)));
                        }
                    }
                }
                if let Some(p) = p {
                    q[p].set_value(kdl_val(&v));
                    if how == 1 {
                        q[p].clear_format();
                    }
                    m[p].val = v;
                }
            }
            9 if nargs > 0 => {
                let i = s.below(nargs as u32) as usize;
                let v = gen_tree::val(s);
                log += &format!("write {i} = {}\n", show_val(&v));
                match s.below(3) {
                    0 => *n.get_mut(i).expect("argument") = kdl_val(&v),
                    1 => n.entry_mut(i).expect("argument").set_value(kdl_val(&v)),
                    _ => n[i] = kdl_val(&v),
                }
                let p = arg_pos(&m, i).unwrap();
                q[p].set_value(kdl_val(&v));
                m[p].val = v;
            }
            10 => {
                let keep = s.below(3);
                log += &format!("retain {keep}\n");
                let f = |name: bool, ty: bool, null: bool| match keep {
                    0 => name,
                    1 => !ty,
                    _ => !null,
                };
                n.retain(|e| f(e.name().is_some(), e.ty().is_some(), e.value().is_null()));
                q.retain(|e| f(e.name().is_some(), e.ty().is_some(), e.value().is_null()));
                m.retain(|e| f(e.name.is_some(), e.ty.is_some(), matches!(e.val, Val::Null)));
            }
            11 => {
                log += "sort_by_key name length\n";
                n.sort_by_key(|e| e.name().map(|i| i.value().len() % 3));
                q.sort_by_key(|e| e.name().map(|i| i.value().len() % 3));
                m.sort_by_key(|e| e.name.as_ref().map(|i| i.len() % 3));
            }
            12 => {
                log += "sort_by reversed name\n";
                n.sort_by(|a, b| b.name().map(|i| i.value()).cmp(&a.name().map(|i| i.value())));
                q.sort_by(|a, b| b.name().map(|i| i.value()).cmp(&a.name().map(|i| i.value())));
                m.sort_by(|a, b| b.name.cmp(&a.name));
            }
            13 if s.chance(1, 6) => {
                log += "clear\n";
                n.clear();
                q.clear();
                m.clear();
            }
            14 => {
                // calls that have to be refused, and leave the node alone
                let before = n.clone();
                let (what, r) = match s.below(4) {
                    0 => {
                        let i = nargs + s.below(3) as usize;
                        let mut x = n.clone();
                        let r = no_panic(|| x.remove(i)).is_err();
                        ensure!(x == before, "refused-change", "{log}remove {i} changed the node");
                        ("remove index out of range", r)
                    }
                    1 => {
                        let i = nargs + 1 + s.below(3) as usize;
                        let mut x = n.clone();
                        let r = no_panic(|| x.insert(i, 1)).is_err();
                        ensure!(x == before, "refused-change", "{log}insert {i} changed the node");
                        ("insert index out of range", r)
                    }
                    2 => {
                        let mut x = n.clone();
                        let r = no_panic(|| x.insert(0, ("k", 1))).is_err();
                        ("insert named entry by index", r)
                    }
                    _ => {
                        let mut x = n.clone();
                        let k = key_of(s, &m);
                        let r = no_panic(|| x.insert(k.as_str(), (format!("{k}x"), 1))).is_err();
                        ("insert under another name", r)
                    }
                };
                ensure!(r, "not-refused", "{log}{what} was accepted");
            }
            _ => {
                let v = gen_tree::val(s);
                for ((e, t), x) in n.iter_mut().zip(m.iter_mut()).zip(q.iter_mut()) {
                    if e.ty().is_some() {
                        e.set_value(kdl_val(&v));
                        x.set_value(kdl_val(&v));
                        t.val = v.clone();
                    }
                }
                log += &format!("iter_mut: typed entries = {}\n", show_val(&v));
            }
        }
        let got = entries_model(&n);
        ensure!(got == m, "entries", "{log}holds {}\nexpected {}", show_entries(&got), show_entries(&m));
        for (e, x) in n.entries().iter().zip(&q) {
            // (NaN is not equal to itself)
            let text = (e.to_string(), x.to_string());
            ensure!(text.0 == text.1 && e.format() == x.format(), "entry-format", "{log}has the entry {:?} ({e:?}) in place of {:?} ({x:?})", text.0, text.1);
        }
        ensure!(n.len() == m.len() && n.is_empty() == m.is_empty(), "len", "{log}len {} is_empty {}", n.len(), n.is_empty());
        ensure!(n.iter().count() == m.len() && n.iter().zip(n.entries()).all(|(a, b)| std::ptr::eq(a, b)), "iter", "{log}iter() differs from entries()");
        // lookups
        let k = key_of(s, &m);
        let p = prop_pos(&m, &k);
        let key = node_key(s, &k);
        ensure!(same(&n.entry(key.clone()), &n, p), "entry", "{log}entry({k:?}) is {:?}", n.entry(key));
        ensure!(n.get(node_key(s, &k)).map(val_of) == p.map(|p| m[p].val.clone()), "get", "{log}get({k:?}) is {:?}", n.get(k.as_str()));
        let i = s.below(m.len() as u32 + 2) as usize;
        let p = arg_pos(&m, i);
        ensure!(same(&n.entry(i), &n, p), "entry", "{log}entry({i}) is {:?}", n.entry(i));
        ensure!(n.get(i).map(val_of) == p.map(|p| m[p].val.clone()), "get", "{log}get({i}) is {:?}", n.get(i));
        if let Some(p) = p {
            ensure!(val_of(&n[i]) == m[p].val, "index", "{log}[{i}] is {:?}", n[i]);
        }
    }
    ensure!(n.name() == head.name() && n.ty() == head.ty() && n.children().map(|c| c.to_string()) == head.children().map(|c| c.to_string()), "rest-of-node", "{log}name, type or children changed");
    ensure!(n.format() == head.format(), "node-format", "{log}{:?}\nhas become {:?}", head.format(), n.format());
    c.input(log, ops >= 3 && had);
    Ok(())
}

fn show_entries(m: &[TEntry]) -> String {
    let mut s = String::new();
    for e in m {
        tree::show_entry(e, &mut s);
        s.push(' ');
    }
    s
}

// ---- P12 ----

fn keyed_tree(s: &mut Src) -> Tree {
    let mut t = gen_tree::nodes(s, 2);
    // names that repeat, and `-` children
    for n in t.iter_mut() {
        if s.chance(1, 2) {
            n.name = s.pick(&["a", "b", "-", "node"]).to_string();
        }
        if let Some(ch) = &mut n.children {
            for k in ch.iter_mut() {
                if s.chance(2, 3) {
                    k.name = "-".into();
                }
            }
        }
    }
    t
}

fn p12(s: &mut Src, c: &mut Case) -> Res {
    let t = keyed_tree(s);
    let mut d = match s.below(3) {
        0 => tree::build_doc(&t),
        1 => {
            let st = Style::any(s);
            let mut r = gen_text::Ren::new(s, st);
            r.document(&t);
            let text = std::mem::take(&mut r.out);
            KdlDocument::parse_v2(&text).unwrap_or_else(|_| tree::build_doc(&t))
        }
        _ => some_doc(s),
    };
    let mut t = tree_of(&d);
    let mut log = format!("document {:?}\n", d.to_string());
    let names: Vec<String> = t.iter().map(|n| n.name.clone()).collect();
    for _ in 0..s.range(1, 5) {
        let name = if !names.is_empty() && s.chance(4, 5) { s.pick(&names).clone() } else { gen_tree::name(s) };
        let pos = t.iter().position(|n| n.name == name);
        log += &format!("query {name:?}\n");
        match (d.get(&name), pos) {
            (None, None) => {}
            (Some(n), Some(p)) if std::ptr::eq(n, &d.nodes()[p]) => {}
            (g, _) => return fail("get", format!("{log}get is {g:?}, expected node {pos:?}")),
        }
        let args: Vec<Val> = pos.map(|p| t[p].entries.iter().filter(|e| e.name.is_none()).map(|e| e.val.clone()).collect()).unwrap_or_default();
        let got: Vec<Val> = d.iter_args(&name).map(val_of).collect();
        ensure!(got == args, "iter_args", "{log}iter_args is {got:?}, expected {args:?}");
        ensure!(d.get_arg(&name).map(val_of) == args.first().cloned(), "get_arg", "{log}get_arg is {:?}, expected {:?}", d.get_arg(&name), args.first());
        let dash: Vec<Val> = pos
            .and_then(|p| t[p].children.as_ref())
            .map(|ch| {
                ch.iter()
                    .filter(|n| n.name == "-")
                    .filter_map(|n| n.entries.iter().find(|e| e.name.is_none()).map(|e| e.val.clone()))
                    .collect()
            })
            .unwrap_or_default();
        let got: Vec<Val> = d.iter_dash_args(&name).map(val_of).collect();
        ensure!(got == dash, "iter_dash_args", "{log}iter_dash_args is {got:?}, expected {dash:?}");
        c.label_if(dash.len() > 1, "several dash arguments");
        c.label_if(pos.is_some(), "name occurs");
        let v = gen_tree::val(s);
        match s.below(5) {
            0 => {
                let r = d.get_arg_mut(&name);
                ensure!(r.is_some() == !args.is_empty(), "get_arg_mut", "{log}get_arg_mut is {r:?}");
                if let Some(x) = r {
                    *x = kdl_val(&v);
                    log += &format!("get_arg_mut = {}\n", show_val(&v));
                    t[pos.unwrap()].entries.iter_mut().find(|e| e.name.is_none()).unwrap().val = v;
                }
            }
            1 => {
                let r = d.get_mut(&name);
                ensure!(r.is_some() == pos.is_some(), "get_mut", "{log}get_mut is {r:?}");
                if let Some(x) = r {
                    log += &format!("get_mut.push {}\n", show_val(&v));
                    x.push(kdl_val(&v));
                    t[pos.unwrap()].entries.push(TEntry { name: None, ty: None, val: v });
                }
            }
            2 => {
                for (n, m) in (&mut d).into_iter().zip(t.iter_mut()) {
                    if n.name().value() == name {
                        n.set_ty("T");
                        m.ty = Some("T".into());
                    }
                }
                log += "into_iter (&mut): set type\n";
            }
            3 => {
                if let Some(p) = pos {
                    for ch in d.nodes_mut()[p].iter_children_mut() {
                        ch.set_ty("C");
                    }
                    for ch in t[p].children.iter_mut().flatten() {
                        ch.ty = Some("C".into());
                    }
                    log += "iter_children_mut: set type\n";
                }
            }
            _ => {}
        }
        ensure!(tree_of(&d) == t, "content", "{log}holds {}\nexpected {}", show(&tree_of(&d)), show(&t));
    }
    let text = d.to_string();
    ensure!(d.len() == text.len() && d.is_empty() == text.is_empty(), "len", "{log}len {} for {text:?}", d.len());
    ensure!((&d).into_iter().zip(d.nodes()).all(|(a, b)| std::ptr::eq(a, b)) && (&d).into_iter().count() == t.len(), "into_iter", "{log}");
    for (n, m) in d.nodes().iter().zip(&t) {
        let kids: Vec<TNode> = n.iter_children().map(node_of).collect();
        ensure!(kids == m.children.clone().unwrap_or_default(), "iter_children", "{log}");
        for e in n.entries() {
            ensure!(e.len() == e.to_string().len() && e.is_empty() == e.to_string().is_empty(), "entry-len", "{log}");
            let v = e.value();
            let want = (v.as_string().map(|x| x.to_string()), v.as_integer(), v.as_float().map(|f| f.to_bits()), v.as_bool());
            let kinds = [v.is_string(), v.is_integer(), v.is_float(), v.is_bool(), v.is_null()];
            let exp = match val_of(v) {
                Val::Str(x) => ((Some(x), None, None, None), 0),
                Val::Int(i) => ((None, Some(i), None, None), 1),
                Val::Float(f) => ((None, None, Some(f.to_bits()), None), 2),
                Val::Bool(b) => ((None, None, None, Some(b)), 3),
                Val::Null => ((None, None, None, None), 4),
            };
            ensure!(want == exp.0 && kinds.iter().enumerate().all(|(i, k)| *k == (i == exp.1)), "value-kind", "{log}value {v:?}");
        }
    }
    let owned: Vec<TNode> = d.clone().into_iter().map(|n| node_of(&n)).collect();
    ensure!(owned == t, "into_iter", "{log}");
    c.input(log, !names.is_empty());
    Ok(())
}

// ---- P13 ----

/// Whether `new` is `old` with one occurrence of `a` replaced by `b`.
fn spliced(old: &str, new: &str, a: &str, b: &str) -> bool {
    if new.len() + a.len() != old.len() + b.len() {
        return false;
    }
    let mut p = 0;
    loop {
        // common prefix has to reach p
        if old.as_bytes()[..p] != new.as_bytes()[..p] {
            return false;
        }
        if old[p..].starts_with(a) && new[p..].starts_with(b) && old[p + a.len()..] == new[p + b.len()..] {
            return true;
        }
        match old[p..].chars().next() {
            Some(ch) => p += ch.len_utf8(),
            None => return false,
        }
        if !new.is_char_boundary(p) {
            return false;
        }
    }
}

/// Like `spliced`, but a space or newline may be added around `b`.
fn spliced_sep(old: &str, new: &str, a: &str, b: &str) -> bool {
    // (two newlines: one ends a line continuation that had been left to the end of the text)
    const SEPS: [&str; 4] = ["", " ", "\n", "\n\n"];
    for x in SEPS {
        for y in SEPS {
            if spliced(old, new, a, &format!("{x}{b}{y}")) {
                return true;
            }
        }
    }
    false
}

fn paths(t: &Tree, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, n) in t.iter().enumerate() {
        at.push(i);
        out.push(at.clone());
        if let Some(ch) = &n.children {
            paths(ch, at, out);
        }
        at.pop();
    }
}
fn node_at<'a>(d: &'a mut KdlDocument, p: &[usize]) -> &'a mut KdlNode {
    let n = &mut d.nodes_mut()[p[0]];
    if p.len() == 1 { n } else { node_at(n.children_mut().as_mut().unwrap(), &p[1..]) }
}
fn doc_at<'a>(d: &'a mut KdlDocument, p: &[usize]) -> &'a mut KdlDocument {
    if p.len() == 1 { d } else { node_at(d, &p[..p.len() - 1]).children_mut().as_mut().unwrap() }
}
fn tnode_at<'a>(d: &'a mut Tree, p: &[usize]) -> &'a mut TNode {
    let n = &mut d[p[0]];
    if p.len() == 1 { n } else { tnode_at(n.children.as_mut().unwrap(), &p[1..]) }
}
fn tdoc_at<'a>(d: &'a mut Tree, p: &[usize]) -> &'a mut Tree {
    if p.len() == 1 { d } else { tnode_at(d, &p[..p.len() - 1]).children.as_mut().unwrap() }
}

fn p13(s: &mut Src, c: &mut Case) -> Res {
    let text = if s.chance(3, 4) { gen_text::document(s).text } else { mutate::text(s) };
    let Ok(mut d) = KdlDocument::parse_v2(&text) else {
        c.skip();
        return Ok(());
    };
    // (a text on which the grammar's versions differ proves nothing)
    if d.nodes().is_empty() || d.to_string() != text || refkdl::parse(&text).gray.is_some() {
        c.skip();
        return Ok(());
    }
    let mut t = tree_of(&d);
    let mut all = vec![];
    paths(&t, &mut vec![], &mut all);
    let p = s.pick(&all).clone();
    let count = tree::count(&t);
    let mut log = format!("{text:?}\nat {p:?}: ");
    c.label_if(p.len() > 1, "nested");
    let nentries = node_at(&mut d, &p).entries().len();
    // (what is replaced, by what)
    let (old, new): (String, String);
    match s.below(14) {
        0 if nentries > 0 => {
            c.label("value_repr");
            let k = s.below(nentries as u32) as usize;
            let v = gen_tree::val(s);
            log += &format!("entry {k}: value and value_repr {}", show_val(&v));
            let e = &mut node_at(&mut d, &p).entries_mut()[k];
            old = e.to_string();
            e.set_value(kdl_val(&v));
            let repr = e.value().to_string();
            let f = e.format_mut().expect("a parsed entry has a format");
            let was = std::mem::replace(&mut f.value_repr, repr.clone());
            new = e.to_string();
            ensure!(spliced(&old, &new, &was, &repr), "entry-text", "{log}\nentry {old:?} became {new:?}");
            tnode_at(&mut t, &p).entries[k].val = v;
        }
        1 if nentries > 0 => {
            c.label("value and clear_format");
            let k = s.below(nentries as u32) as usize;
            let v = gen_tree::val(s);
            log += &format!("entry {k}: set_value {} and clear_format", show_val(&v));
            let e = &mut node_at(&mut d, &p).entries_mut()[k];
            old = e.to_string();
            e.set_value(kdl_val(&v));
            e.clear_format();
            new = e.to_string();
            tnode_at(&mut t, &p).entries[k].val = v;
        }
        2 => {
            c.label("set_name");
            let name = gen_tree::name(s);
            log += &format!("set_name {name:?}");
            let n = node_at(&mut d, &p);
            old = n.name().to_string();
            n.set_name(name.as_str());
            new = n.name().to_string();
            tnode_at(&mut t, &p).name = name;
        }
        3 => {
            c.label("set_ty");
            let name = gen_tree::name(s);
            log += &format!("set_ty {name:?}");
            let n = node_at(&mut d, &p);
            old = n.ty().map(|t| t.to_string()).unwrap_or_default();
            let had = n.ty().is_some();
            n.set_ty(name.as_str());
            new = if had { n.ty().unwrap().to_string() } else { format!("({})", n.ty().unwrap()) };
            tnode_at(&mut t, &p).ty = Some(name);
        }
        4 => {
            c.label("push");
            let e = gen_tree::entry(s);
            let k = tree::build_entry(&e);
            old = String::new();
            new = k.to_string();
            log += &format!("push {new:?}");
            node_at(&mut d, &p).push(k);
            tnode_at(&mut t, &p).entries.push(e);
        }
        5 => {
            c.label("insert entry");
            let e = gen_tree::entry(s);
            let at = s.below(nentries as u32 + 1) as usize;
            let k = tree::build_entry(&e);
            old = String::new();
            new = k.to_string();
            log += &format!("insert {new:?} at {at}");
            node_at(&mut d, &p).entries_mut().insert(at, k);
            tnode_at(&mut t, &p).entries.insert(at, e);
        }
        6 if nentries > 0 => {
            c.label("remove entry");
            let at = s.below(nentries as u32) as usize;
            log += &format!("remove entry {at}");
            let n = node_at(&mut d, &p);
            let m = tnode_at(&mut t, &p);
            let e = match (s.below(2), &m.entries[at].name) {
                (0, Some(k)) => {
                    // by name: the last of that name goes
                    let k = k.clone();
                    let at = m.entries.iter().rposition(|e| e.name.as_ref() == Some(&k)).unwrap();
                    m.entries.remove(at);
                    n.remove(k)
                }
                (0, None) => {
                    let i = m.entries[..at].iter().filter(|e| e.name.is_none()).count();
                    m.entries.remove(at);
                    n.remove(i)
                }
                _ => {
                    m.entries.remove(at);
                    Some(n.entries_mut().remove(at))
                }
            };
            let Some(e) = e else { return fail("remove", format!("{log}\nnothing was removed")) };
            old = e.to_string();
            new = String::new();
        }
        7 => {
            c.label("insert node");
            let tn = gen_tree::node(s, 0);
            let mut n = tree::build_node(&tn);
            if s.chance(1, 2) {
                n.clear_format();
            }
            let at = p[p.len() - 1] + s.below(2) as usize;
            old = String::new();
            let indented = n.format().is_none();
            new = n.to_string();
            log += &format!("insert node {new:?} at {at} (format: {})", !indented);
            doc_at(&mut d, &p).nodes_mut().insert(at, n);
            tdoc_at(&mut t, &p).insert(at, tn);
            if indented {
                // indentation depends on the depth it is printed at
                let after = d.to_string();
                let pad = |k: usize| new.lines().map(|l| format!("{:k$}{l}", "", k = k)).collect::<Vec<_>>().join("\n");
                let k = 4 * (p.len() - 1);
                ensure!(
                    spliced_sep(&text, &after, "", &pad(k)) || new.contains('{'),
                    "text",
                    "{log}\nprints {after:?}"
                );
                return meaning(&d, &t, &log, c, count);
            }
        }
        8 => {
            c.label("remove node");
            let at = p[p.len() - 1];
            log += "remove node";
            let n = doc_at(&mut d, &p).nodes_mut().remove(at);
            old = n.to_string();
            new = String::new();
            tdoc_at(&mut t, &p).remove(at);
        }
        9 => {
            c.label("clear_children");
            let n = node_at(&mut d, &p);
            // the space before the block goes with it
            let space = n.format().map(|f| f.before_children.clone()).unwrap_or_default();
            old = n.children().map(|c| format!("{space}{{{c}}}")).unwrap_or_default();
            new = String::new();
            log += "clear_children";
            n.clear_children();
            tnode_at(&mut t, &p).children = None;
        }
        10 => {
            c.label("ensure_children push");
            let tn = gen_tree::node(s, 0);
            let n = node_at(&mut d, &p);
            let x = tree::build_node(&tn);
            log += &format!("ensure_children().push {:?}", x.to_string());
            old = n.children().map(|c| c.to_string()).unwrap_or_default();
            let had = n.children().is_some();
            n.ensure_children().nodes_mut().push(x);
            let ch = n.children().unwrap();
            // a block without formatting of its own is indented where the node is not formatted
            let indent = if ch.format().is_none() { 4 * (p.len() - 1) } else { 0 };
            new = if had { ch.to_string() } else { format!("{{\n{}{ch}{:indent$}}}", "", "") };
            if had {
                // the old children are still there as they were
                ensure!(spliced_sep(&old, &new, "", &tree::build_node(&tn).to_string()), "children-text", "{log}\nchildren {old:?} became {new:?}");
            }
            tnode_at(&mut t, &p).children.get_or_insert_default().push(tn);
        }
        11 => {
            c.label("set_children");
            let tn = gen_tree::nodes(s, 0);
            let n = node_at(&mut d, &p);
            old = n.children().map(|c| c.to_string()).unwrap_or_default();
            let had = n.children().is_some();
            let mut ch = tree::build_doc(&tn);
            ch.set_format(Default::default());
            new = if had { ch.to_string() } else { format!("{{{ch}}}") };
            log += &format!("set_children {:?}", ch.to_string());
            n.set_children(ch);
            tnode_at(&mut t, &p).children = Some(tn);
        }
        12 => {
            c.label("swap nodes");
            let (doc, m) = (doc_at(&mut d, &p), tdoc_at(&mut t, &p));
            let k = m.len();
            if k < 2 {
                c.skip();
                return Ok(());
            }
            let i = p[p.len() - 1].min(k - 2);
            let (a, b) = (doc.nodes()[i].to_string(), doc.nodes()[i + 1].to_string());
            doc.nodes_mut().swap(i, i + 1);
            m.swap(i, i + 1);
            log += &format!("swap {i} with its successor");
            let after = d.to_string();
            let ok = ["", " ", "\n", "\n\n"].iter().any(|x| ["", " ", "\n", "\n\n"].iter().any(|y| spliced(&text, &after, &format!("{a}{b}"), &format!("{b}{x}{a}{y}"))));
            ensure!(ok, "text", "{log}\nprints {after:?}");
            return meaning(&d, &t, &log, c, count);
        }
        _ => {
            c.label("insert property");
            let k = key_of(s, &tnode_at(&mut t, &p).entries);
            let v = gen_tree::val(s);
            log += &format!("insert {k:?} = {}", show_val(&v));
            let m = tnode_at(&mut t, &p);
            let at = prop_pos(&m.entries, &k);
            let te = TEntry { name: Some(k.clone()), ty: None, val: v.clone() };
            let n = node_at(&mut d, &p);
            let was = n.insert(k.as_str(), KdlEntry::new(kdl_val(&v)));
            old = was.map(|e| e.to_string()).unwrap_or_default();
            new = n.entry(k.as_str()).map(|e| e.to_string()).unwrap_or_default();
            match at {
                Some(p) => m.entries[p] = te,
                None => m.entries.push(te),
            }
        }
    }
    let after = d.to_string();
    ensure!(spliced_sep(&text, &after, &old, &new), "text", "{log}\nprints {after:?}\nwhich is not the old text with {old:?} replaced by {new:?}");
    meaning(&d, &t, &log, c, count)
}

fn meaning(d: &KdlDocument, t: &Tree, log: &str, c: &mut Case, count: usize) -> Res {
    ensure!(tree_of(d) == *t, "content", "{log}\nholds {}\nexpected {}", show(&tree_of(d)), show(t));
    match KdlDocument::parse_v2(&d.to_string()) {
        Ok(r) => ensure!(tree_of(&r) == *t, "meaning", "{log}\nprints {:?}\nwhich means {}\nexpected {}", d.to_string(), show(&tree_of(&r)), show(t)),
        Err(e) => return fail("meaning", format!("{log}\nprints {:?}, which does not parse: {e:?}", d.to_string())),
    }
    c.input(log, count >= 2);
    Ok(())
}

// ---- P14 ----

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn set_spans(s: &mut Src, d: &mut KdlDocument) {
    d.set_span((s.below(99) as usize, s.below(99) as usize));
    for n in d.nodes_mut() {
        n.set_span((s.below(99) as usize, s.below(99) as usize));
        n.name_mut().set_span((s.below(99) as usize, s.below(99) as usize));
        if let Some(t) = n.ty_mut() {
            t.set_span((s.below(99) as usize, s.below(99) as usize));
        }
        for e in n.entries_mut() {
            e.set_span((s.below(99) as usize, s.below(99) as usize));
            if let Some(t) = e.ty_mut() {
                t.set_span((s.below(99) as usize, s.below(99) as usize));
            }
            if let Some(t) = e.name_mut() {
                t.set_span((s.below(99) as usize, s.below(99) as usize));
            }
        }
        if let Some(ch) = n.children_mut() {
            set_spans(s, ch);
        }
    }
}

fn p14_docs(s: &mut Src, c: &mut Case) -> Res {
    let a = if s.chance(1, 3) { mutate::text(s) } else { gen_text::document(s).text };
    let Ok(da) = KdlDocument::parse_v2(&a) else {
        c.skip();
        return Ok(());
    };
    c.input(format!("{a:?}"), !a.is_empty());
    // reflexive, and clones
    let cl = da.clone();
    ensure!(da == da && da == cl && cl == da, "clone", "{a:?}");
    ensure!(hash_of(&da) == hash_of(&cl), "clone-hash", "{a:?}");
    ensure!(cl.to_string() == da.to_string(), "clone-text", "{a:?}");
    // the same text again, elsewhere in memory and in a larger source
    if let Ok(d2) = KdlDocument::parse_v2(&a) {
        ensure!(d2 == da && hash_of(&d2) == hash_of(&da), "same-text", "two parses of {a:?} differ");
    }
    // spans do not matter
    let mut sp = da.clone();
    set_spans(s, &mut sp);
    ensure!(sp == da && hash_of(&sp) == hash_of(&da), "span", "{a:?}: spans make a difference");
    for n in da.nodes() {
        // a node on its own equals the node within the document
        let nt = n.to_string();
        if let Ok(k) = KdlNode::parse(&nt) {
            if k.to_string() == nt && k.format() == n.format() {
                ensure!(k == *n && hash_of(&k) == hash_of(n), "node-alone", "{a:?}: node {nt:?}");
                c.label("node parsed alone");
            }
        }
    }
    // a second text: equal documents print equally, and the other way round
    let b = if s.chance(2, 3) { mutate::mutate(s, a.clone()) } else { mutate::text(s) };
    if let Ok(db) = KdlDocument::parse_v2(&b) {
        let eq = da == db;
        ensure!((db == da) == eq, "symmetric", "{a:?} and {b:?}");
        let same_text = a.trim_start_matches('\u{feff}') == b.trim_start_matches('\u{feff}');
        if eq {
            ensure!(hash_of(&da) == hash_of(&db), "equal-hash", "{a:?} and {b:?}");
            ensure!(da.to_string() == db.to_string(), "equal-print", "{a:?} and {b:?} are equal but print differently");
        }
        if a == b {
            ensure!(eq, "same-text", "{a:?}");
        }
        c.label(if eq { "equal pair" } else { "unequal pair" });
        ensure!(!eq || same_text, "different-text-equal", "{a:?} and {b:?} are equal");
        // values of the two sides
        if tree_of(&da) != tree_of(&db) {
            ensure!(!eq, "different-content-equal", "{a:?} and {b:?}");
        }
    }
    // any one edit makes a difference
    let mut e = da.clone();
    let mut all = vec![];
    paths(&tree_of(&e), &mut vec![], &mut all);
    if !all.is_empty() {
        let p = s.pick(&all).clone();
        let n = node_at(&mut e, &p);
        let k = n.entries().len();
        let what = match s.below(9) {
            0 => {
                let v = format!("{}x", n.name().value());
                n.name_mut().set_value(v);
                "name"
            }
            1 => {
                let v = format!("{}x", n.ty().map(|t| t.value()).unwrap_or(""));
                n.set_ty(v);
                "type"
            }
            2 => {
                n.push(KdlValue::Null);
                "pushed entry"
            }
            3 if k > 0 => {
                n.entries_mut().pop();
                "removed entry"
            }
            4 if k > 0 => {
                let i = s.below(k as u32) as usize;
                let e = &mut n.entries_mut()[i];
                let v = match e.value() {
                    KdlValue::Bool(b) => KdlValue::Bool(!b),
                    KdlValue::Null => KdlValue::Bool(false),
                    KdlValue::String(x) => KdlValue::String(format!("{x}x")),
                    KdlValue::Integer(i) => KdlValue::Integer(i ^ 1),
                    KdlValue::Float(_) => KdlValue::Null,
                };
                e.set_value(v);
                "value"
            }
            5 if k > 0 => {
                let i = s.below(k as u32) as usize;
                let e = &mut n.entries_mut()[i];
                let name = e.name().map(|x| format!("{}x", x.value())).unwrap_or("p".into());
                e.set_name(Some(name));
                "entry name"
            }
            6 if k > 0 => {
                let i = s.below(k as u32) as usize;
                let e = &mut n.entries_mut()[i];
                let ty = e.ty().map(|x| format!("{}x", x.value())).unwrap_or("p".into());
                e.set_ty(ty);
                "entry type"
            }
            7 => {
                n.ensure_children().nodes_mut().push(KdlNode::new("x"));
                "child"
            }
            _ => {
                n.clear_format();
                "format"
            }
        };
        ensure!(e != da && da != e, "edit-equal", "{a:?}: an edit of the {what} at {p:?} makes no difference");
    }
    Ok(())
}

fn near(s: &mut Src, v: &KdlValue) -> KdlValue {
    match (v, s.below(4)) {
        (_, 0) => v.clone(),
        (KdlValue::Float(f), 1) => KdlValue::Float(-f),
        (KdlValue::Float(f), 2) => KdlValue::Float(f64::from_bits(f.to_bits().wrapping_add(1))),
        (KdlValue::Float(f), 3) => KdlValue::Integer(*f as i128),
        (KdlValue::Integer(i), 1) => KdlValue::Float(*i as f64),
        (KdlValue::Integer(i), 2) => KdlValue::Integer(i.wrapping_add(1)),
        (KdlValue::String(x), 1) => KdlValue::String(format!("{x}0")),
        (KdlValue::Null, 1) => KdlValue::Bool(false),
        (KdlValue::Bool(b), 1) => KdlValue::Integer(*b as i128),
        _ => kdl_val(&gen_tree::val(s)),
    }
}

fn doc_with(e: KdlEntry) -> KdlDocument {
    let mut d = KdlDocument::new();
    let mut n = KdlNode::new("n");
    n.push(e);
    d.nodes_mut().push(n);
    d
}

fn value_eq(x: &KdlValue, y: &KdlValue) -> bool {
    match (val_of(x), val_of(y)) {
        (Val::Float(p), Val::Float(q)) => {
            let nf = |f: f64| if f.is_nan() { 0.0 } else { f.clamp(-f64::MAX, f64::MAX) };
            nf(p) == nf(q)
        }
        (p, q) => p == q,
    }
}

fn ident_eq(x: Option<&KdlIdentifier>, y: Option<&KdlIdentifier>) -> bool {
    match (x, y) {
        (Some(x), Some(y)) => x.value() == y.value() && x.repr() == y.repr(),
        (x, y) => x.is_none() && y.is_none(),
    }
}

/// What equality has to be: that of all the parts that can be seen, but for
/// the spans.
fn entry_eq(x: &KdlEntry, y: &KdlEntry) -> bool {
    ident_eq(x.ty(), y.ty()) && ident_eq(x.name(), y.name()) && value_eq(x.value(), y.value()) && format!("{:?}", x.format()) == format!("{:?}", y.format())
}

fn node_eq(x: &KdlNode, y: &KdlNode) -> bool {
    ident_eq(x.ty(), y.ty())
        && ident_eq(Some(x.name()), Some(y.name()))
        && x.entries().len() == y.entries().len()
        && x.entries().iter().zip(y.entries()).all(|(x, y)| entry_eq(x, y))
        && format!("{:?}", x.format()) == format!("{:?}", y.format())
        && match (x.children(), y.children()) {
            (Some(x), Some(y)) => doc_eq(x, y),
            (x, y) => x.is_none() && y.is_none(),
        }
}

fn doc_eq(x: &KdlDocument, y: &KdlDocument) -> bool {
    x.nodes().len() == y.nodes().len() && x.nodes().iter().zip(y.nodes()).all(|(x, y)| node_eq(x, y)) && format!("{:?}", x.format()) == format!("{:?}", y.format())
}

/// A small change of the format of one thing, or of the spelling of a value.
fn touch(s: &mut Src, d: &mut KdlDocument) {
    let mut all = vec![];
    paths(&tree_of(d), &mut vec![], &mut all);
    if all.is_empty() || s.chance(1, 8) {
        match s.below(3) {
            0 => d.clear_format(),
            1 => d.set_format(kdl::KdlDocumentFormat { leading: " ".repeat(s.below(3) as usize), trailing: " ".repeat(s.below(3) as usize) }),
            _ => d.clear_format_recursive(),
        }
        return;
    }
    let p = s.pick(&all).clone();
    let n = node_at(d, &p);
    let k = n.entries().len() as u32;
    let blank = |s: &mut Src| ["", " ", "  ", "/**/"][s.below(4) as usize].to_string();
    match s.below(10) {
        0 => n.clear_format(),
        1 => n.name_mut().clear_format(),
        2 => {
            if let Some(t) = n.ty_mut() {
                t.clear_format()
            }
        }
        3 => {
            let text = blank(s);
            let at = s.below(8);
            if let Some(f) = n.format_mut() {
                *[&mut f.leading, &mut f.before_ty_name, &mut f.after_ty_name, &mut f.after_ty, &mut f.before_children, &mut f.before_terminator, &mut f.terminator, &mut f.trailing].into_iter().nth(at as usize).unwrap() = text;
            }
        }
        4 => {
            if let Some(ch) = n.children_mut() {
                ch.clear_format()
            }
        }
        5 if n.children().is_some_and(|x| x.nodes().is_empty()) => *n.children_mut() = None,
        _ if k == 0 => n.clear_format_recursive(),
        5 | 6 => n.entries_mut()[s.below(k) as usize].clear_format(),
        7 => {
            let (text, at) = (blank(s), s.below(8));
            let e = &mut n.entries_mut()[s.below(k) as usize];
            if let Some(f) = e.format_mut() {
                match at {
                    7 => f.autoformat_keep = !f.autoformat_keep,
                    at => *[&mut f.value_repr, &mut f.leading, &mut f.trailing, &mut f.after_ty, &mut f.before_ty_name, &mut f.after_ty_name, &mut f.after_key].into_iter().nth(at as usize).unwrap() = text,
                }
            } else {
                e.set_format(kdl::KdlEntryFormat { after_eq: text, ..Default::default() });
            }
        }
        8 => {
            let e = &mut n.entries_mut()[s.below(k) as usize];
            let v = near(s, e.value());
            e.set_value(v);
        }
        _ => {
            let e = &mut n.entries_mut()[s.below(k) as usize];
            if let Some(x) = e.name_mut() {
                x.clear_format();
            }
            if let Some(x) = e.ty_mut() {
                x.clear_format();
            }
        }
    }
}

fn p14_touched(s: &mut Src, c: &mut Case) -> Res {
    let a = if s.chance(1, 4) { mutate::text(s) } else { gen_text::document(s).text };
    let Ok(d0) = KdlDocument::parse_v2(&a) else {
        c.skip();
        return Ok(());
    };
    let mut docs = vec![d0];
    for _ in 0..3 {
        let mut d = s.pick(&docs).clone();
        touch(s, &mut d);
        if s.chance(1, 2) {
            set_spans(s, &mut d);
        }
        docs.push(d);
    }
    c.input(format!("{a:?} and {:?}", docs[1..].iter().map(|d| d.to_string()).collect::<Vec<_>>()), !docs[0].nodes().is_empty());
    let mut equal = 0;
    for x in &docs {
        for y in &docs {
            let want = doc_eq(x, y);
            ensure!((x == y) == want, "structure", "{x} and {y} are {}equal, but their parts are {}", if want { "un" } else { "" }, if want { "equal" } else { "not" });
            ensure!(!want || hash_of(x) == hash_of(y), "touched-hash", "{x} and {y} are equal, but their hashes differ");
            equal += want as usize;
            for (m, n) in x.nodes().iter().zip(y.nodes()) {
                ensure!((m == n) == node_eq(m, n), "node-structure", "{m} and {n}");
                ensure!(m != n || hash_of(m) == hash_of(n), "node-hash", "{m} and {n}");
                for (e, f) in m.entries().iter().zip(n.entries()) {
                    ensure!((e == f) == entry_eq(e, f), "entry-structure", "{e} and {f}");
                    ensure!(e != f || hash_of(e) == hash_of(f), "entry-hash", "{e} and {f}");
                }
            }
        }
    }
    c.label_if(equal > docs.len(), "some equal");
    Ok(())
}

fn p14_values(s: &mut Src, c: &mut Case) -> Res {
    use std::cmp::Ordering::*;
    let a = if s.chance(1, 2) { KdlValue::Float(gen_tree::float(s)) } else { kdl_val(&gen_tree::val(s)) };
    let b = near(s, &a);
    let d = near(s, &b);
    c.input(format!("{a:?} {b:?} {d:?}"), true);
    for x in [&a, &b, &d] {
        ensure!(x == x && x == &x.clone() && hash_of(x) == hash_of(&x.clone()), "reflexive", "{x:?}");
        ensure!(x.partial_cmp(x) == Some(Equal), "reflexive-order", "{x:?}");
    }
    for (x, y) in [(&a, &b), (&b, &d), (&a, &d)] {
        ensure!((x == y) == (y == x), "symmetric", "{x:?} {y:?}");
        if x == y {
            ensure!(hash_of(x) == hash_of(y), "equal-hash", "{x:?} == {y:?}, but their hashes differ");
            c.label("equal pair");
        }
        let o = x.partial_cmp(y);
        ensure!((o == Some(Equal)) == (x == y), "order-equality", "{x:?} {y:?}: equal is {}, order is {o:?}", x == y);
        ensure!(y.partial_cmp(x) == o.map(|o| o.reverse()), "order-duality", "{x:?} {y:?}: {o:?} one way, {:?} the other", y.partial_cmp(x));
        // equality follows the content, but for the documented collapses of special floats
        let (vx, vy) = (val_of(x), val_of(y));
        let want = value_eq(x, y);
        ensure!((x == y) == want, "value-equality", "{x:?} {y:?}: equal is {}", x == y);
        // the same values inside entries
        let (ex, ey) = (KdlEntry::new(x.clone()), KdlEntry::new(y.clone()));
        ensure!((ex == ey) == (x == y), "entry-equality", "{x:?} {y:?}");
        if x == y {
            ensure!(hash_of(&ex) == hash_of(&ey), "equal-entry-hash", "{x:?} == {y:?}, but the hashes of entries with them differ");
            let (dx, dy) = (doc_with(ex), doc_with(ey));
            ensure!(dx == dy && hash_of(&dx) == hash_of(&dy), "equal-document-hash", "{x:?} == {y:?}, but documents with them differ");
        }
        if let (Val::Int(p), Val::Int(q)) = (&vx, &vy) {
            ensure!(o == Some(p.cmp(q)), "integer-order", "{p} {q} {o:?}");
        }
        if let (Val::Str(p), Val::Str(q)) = (&vx, &vy) {
            ensure!(o == Some(p.cmp(q)), "string-order", "{p:?} {q:?} {o:?}");
        }
        if let (Val::Float(p), Val::Float(q)) = (&vx, &vy) {
            if p.is_finite() && q.is_finite() {
                ensure!(o == p.partial_cmp(q), "float-order", "{p:?} {q:?} {o:?}");
            }
        }
    }
    if a == b && b == d {
        ensure!(a == d, "transitive", "{a:?} {b:?} {d:?}");
    }
    use std::cmp::Ordering;
    let le = |o: Option<Ordering>| matches!(o, Some(Less | Equal));
    if le(a.partial_cmp(&b)) && le(b.partial_cmp(&d)) {
        ensure!(le(a.partial_cmp(&d)), "transitive-order", "{a:?} {b:?} {d:?}");
    }
    Ok(())
}
