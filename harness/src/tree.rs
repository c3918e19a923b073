//! The content of a KDL document: what is left when formatting is ignored.

use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum Val {
    Str(String),
    Int(i128),
    Float(f64),
    Bool(bool),
    Null,
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Int(a), Val::Int(b)) => a == b,
            // bit-for-bit, except that all NaNs are one value
            (Val::Float(a), Val::Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Null, Val::Null) => true,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TEntry {
    pub name: Option<String>,
    pub ty: Option<String>,
    pub val: Val,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TNode {
    pub ty: Option<String>,
    pub name: String,
    pub entries: Vec<TEntry>,
    pub children: Option<Vec<TNode>>,
}

pub type Tree = Vec<TNode>;

pub fn val_of(v: &kdl::KdlValue) -> Val {
    match v {
        kdl::KdlValue::String(s) => Val::Str(s.clone()),
        kdl::KdlValue::Integer(i) => Val::Int(*i),
        kdl::KdlValue::Float(f) => Val::Float(*f),
        kdl::KdlValue::Bool(b) => Val::Bool(*b),
        kdl::KdlValue::Null => Val::Null,
    }
}

pub fn kdl_val(v: &Val) -> kdl::KdlValue {
    match v {
        Val::Str(s) => kdl::KdlValue::String(s.clone()),
        Val::Int(i) => kdl::KdlValue::Integer(*i),
        Val::Float(f) => kdl::KdlValue::Float(*f),
        Val::Bool(b) => kdl::KdlValue::Bool(*b),
        Val::Null => kdl::KdlValue::Null,
    }
}

pub fn entry_of(e: &kdl::KdlEntry) -> TEntry {
    TEntry {
        name: e.name().map(|n| n.value().to_string()),
        ty: e.ty().map(|n| n.value().to_string()),
        val: val_of(e.value()),
    }
}

pub fn node_of(n: &kdl::KdlNode) -> TNode {
    TNode {
        ty: n.ty().map(|t| t.value().to_string()),
        name: n.name().value().to_string(),
        entries: n.entries().iter().map(entry_of).collect(),
        children: n.children().map(tree_of),
    }
}

pub fn tree_of(d: &kdl::KdlDocument) -> Tree {
    d.nodes().iter().map(node_of).collect()
}

/// Build a document with the crate's programmatic API; nothing is parsed.
pub fn build_entry(e: &TEntry) -> kdl::KdlEntry {
    let mut k = match &e.name {
        Some(n) => kdl::KdlEntry::new_prop(n.as_str(), kdl_val(&e.val)),
        None => kdl::KdlEntry::new(kdl_val(&e.val)),
    };
    if let Some(t) = &e.ty {
        k.set_ty(t.as_str());
    }
    k
}

pub fn build_node(n: &TNode) -> kdl::KdlNode {
    let mut k = kdl::KdlNode::new(n.name.as_str());
    if let Some(t) = &n.ty {
        k.set_ty(t.as_str());
    }
    for e in &n.entries {
        k.push(build_entry(e));
    }
    if let Some(c) = &n.children {
        k.set_children(build_doc(c));
    }
    k
}

pub fn build_doc(t: &Tree) -> kdl::KdlDocument {
    let mut d = kdl::KdlDocument::new();
    for n in t {
        d.nodes_mut().push(build_node(n));
    }
    d
}

pub fn count(t: &Tree) -> usize {
    t.iter()
        .map(|n| 1 + n.entries.len() + n.children.as_ref().map(|c| 1 + count(c)).unwrap_or(0))
        .sum()
}

pub fn walk<'a>(t: &'a Tree, f: &mut dyn FnMut(&'a TNode)) {
    for n in t {
        f(n);
        if let Some(c) = &n.children {
            walk(c, f);
        }
    }
}

/// A compact unambiguous rendering, for messages and digests.
pub fn show(t: &Tree) -> String {
    let mut s = String::new();
    show_into(t, &mut s);
    s
}

pub fn show_val(v: &Val) -> String {
    match v {
        Val::Str(s) => format!("{s:?}"),
        Val::Int(i) => format!("i{i}"),
        Val::Float(f) if f.is_nan() => "fNaN".into(),
        Val::Float(f) => format!("f{f:?}"),
        Val::Bool(b) => format!("{b}"),
        Val::Null => "null".into(),
    }
}

pub fn show_node(n: &TNode, s: &mut String) {
    if let Some(t) = &n.ty {
        write!(s, "({t:?})").unwrap();
    }
    write!(s, "{:?}", n.name).unwrap();
    for e in &n.entries {
        s.push(' ');
        show_entry(e, s);
    }
    if let Some(c) = &n.children {
        s.push('{');
        show_into(c, s);
        s.push('}');
    }
    s.push(';');
}

pub fn show_entry(e: &TEntry, s: &mut String) {
    if let Some(n) = &e.name {
        write!(s, "{n:?}=").unwrap();
    }
    if let Some(t) = &e.ty {
        write!(s, "({t:?})").unwrap();
    }
    s.push_str(&show_val(&e.val));
}

fn show_into(t: &Tree, s: &mut String) {
    for n in t {
        show_node(n, s);
    }
}

/// What a document means: properties by name (the last one wins), and no
/// difference between an empty children block and none.
pub fn dedup(t: &[TNode]) -> Tree {
    t.iter()
        .map(|n| {
            let mut props: std::collections::BTreeMap<String, TEntry> = Default::default();
            let mut entries: Vec<TEntry> = vec![];
            for e in &n.entries {
                match &e.name {
                    Some(k) => {
                        props.insert(k.clone(), e.clone());
                    }
                    None => entries.push(e.clone()),
                }
            }
            entries.extend(props.into_values());
            TNode {
                ty: n.ty.clone(),
                name: n.name.clone(),
                entries,
                children: n.children.as_ref().filter(|c| !c.is_empty()).map(|c| dedup(c)),
            }
        })
        .collect()
}
