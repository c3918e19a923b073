//! A reference KDL v2 recogniser, written from the KDL 2.0.0 grammar and prose
//! and independent of the crate under test: plain recursive descent over the
//! text, no error recovery, no shared tables.
//!
//! Where the specification leaves room, or its drafts disagree, the parse is
//! marked "gray" and no oracle uses its verdict.

use crate::tree::{TEntry, TNode, Tree, Val};

pub type Span = (usize, usize);

#[derive(Clone, Debug)]
pub struct RIdent {
    pub value: String,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct REntry {
    pub name: Option<RIdent>,
    pub ty: Option<RIdent>,
    pub val: Val,
    pub val_span: Span,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct RNode {
    pub ty: Option<RIdent>,
    pub name: RIdent,
    pub entries: Vec<REntry>,
    pub children: Option<Vec<RNode>>,
    /// span of the `{ ... }`
    pub children_span: Span,
    /// from the type annotation or name to the end of the last piece of content
    pub span: Span,
    /// end including slashdashed pieces that follow the content
    pub end_all: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CommentKind {
    Line,
    Block,
    Slashdash,
}

#[derive(Clone, Debug)]
pub struct Comment {
    pub kind: CommentKind,
    pub span: Span,
    /// Where it sits: between nodes (true) or inside a node
    pub between_nodes: bool,
    pub slashdashed: bool,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub nodes: Vec<RNode>,
    pub comments: Vec<Comment>,
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Ok(Parsed),
    Err(usize, &'static str),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub gray: Option<&'static str>,
}

impl Outcome {
    pub fn tree(&self) -> Option<Tree> {
        match &self.verdict {
            Verdict::Ok(p) => Some(to_tree(&p.nodes)),
            _ => None,
        }
    }
}

pub fn to_tree(ns: &[RNode]) -> Tree {
    ns.iter()
        .map(|n| TNode {
            ty: n.ty.as_ref().map(|t| t.value.clone()),
            name: n.name.value.clone(),
            entries: n
                .entries
                .iter()
                .map(|e| TEntry {
                    name: e.name.as_ref().map(|x| x.value.clone()),
                    ty: e.ty.as_ref().map(|x| x.value.clone()),
                    val: e.val.clone(),
                })
                .collect(),
            children: n.children.as_ref().map(|c| to_tree(c)),
        })
        .collect()
}

pub fn is_newline_char(c: char) -> bool {
    matches!(c, '\r' | '\n' | '\u{85}' | '\u{0B}' | '\u{0C}' | '\u{2028}' | '\u{2029}')
}

pub fn is_unicode_space(c: char) -> bool {
    matches!(
        c,
        '\t' | ' ' | '\u{A0}' | '\u{1680}' | '\u{2000}'
            ..='\u{200A}' | '\u{202F}' | '\u{205F}' | '\u{3000}'
    )
}

/// Code points that may not appear literally anywhere in a document.
pub fn is_disallowed(c: char) -> bool {
    let u = c as u32;
    u <= 0x08
        || (0x0E..=0x1F).contains(&u)
        || u == 0x7F
        || u == 0x200E
        || u == 0x200F
        || (0x202A..=0x202E).contains(&u)
        || (0x2066..=0x2069).contains(&u)
        || u == 0xFEFF
}

pub fn is_ident_char(c: char) -> bool {
    !is_unicode_space(c)
        && !is_newline_char(c)
        && !is_disallowed(c)
        && !matches!(c, '\\' | '/' | '(' | ')' | '{' | '}' | ';' | '[' | ']' | '"' | '#' | '=')
}

/// May `s` be written bare?
pub fn is_bare_ident(s: &str) -> bool {
    let cs: Vec<char> = s.chars().collect();
    if cs.is_empty() || !cs.iter().all(|c| is_ident_char(*c)) {
        return false;
    }
    if matches!(s, "true" | "false" | "null" | "inf" | "-inf" | "nan") {
        return false;
    }
    let d = |i: usize| cs.get(i).map(|c| c.is_ascii_digit()).unwrap_or(false);
    let sign = matches!(cs[0], '+' | '-');
    let after_sign = if sign { 1 } else { 0 };
    if d(after_sign) {
        return false;
    }
    if cs.get(after_sign) == Some(&'.') && d(after_sign + 1) {
        return false;
    }
    true
}

struct E(usize, &'static str);
type R<T> = Result<T, E>;

struct P<'a> {
    s: &'a str,
    pos: usize,
    gray: Option<&'static str>,
    comments: Vec<Comment>,
    /// inside a slashdashed piece
    discard: u32,
    between: bool,
    depth: u32,
}

pub fn parse(s: &str) -> Outcome {
    let mut p = P { s, pos: 0, gray: None, comments: vec![], discard: 0, between: true, depth: 0 };
    if s.starts_with('\u{FEFF}') {
        p.pos = 3;
    }
    let verdict = match p.nodes(false) {
        Ok(nodes) => {
            if p.pos < s.len() {
                Verdict::Err(p.pos, "trailing input")
            } else {
                Verdict::Ok(Parsed { nodes, comments: p.comments })
            }
        }
        Err(E(at, m)) => Verdict::Err(at, m),
    };
    Outcome { verdict, gray: p.gray }
}

/// Recognise exactly one string (identifier, quoted or raw).
pub fn parse_string_alone(s: &str) -> Option<String> {
    let mut p = P { s, pos: 0, gray: None, comments: vec![], discard: 0, between: true, depth: 0 };
    match p.string() {
        Ok(Some(v)) if p.pos == s.len() && p.gray.is_none() => Some(v),
        _ => None,
    }
}

/// Recognise exactly one value without a type annotation.
pub fn parse_value_alone(s: &str) -> Option<Val> {
    let mut p = P { s, pos: 0, gray: None, comments: vec![], discard: 0, between: true, depth: 0 };
    match p.bare_value() {
        Ok(v) if p.pos == s.len() && p.gray.is_none() => Some(v),
        _ => None,
    }
}

pub struct EntryAlone {
    pub entry: Option<REntry>,
    pub slashdash: bool,
    pub gray: bool,
}

/// Recognise one entry with nothing but space, newlines and comments (and
/// slashdashed entries before it) around it.
pub fn parse_entry_alone(s: &str) -> EntryAlone {
    let mut p = P { s, pos: 0, gray: None, comments: vec![], discard: 0, between: false, depth: 0 };
    let mut slashdash = false;
    let mut go = || -> R<REntry> {
        loop {
            p.space_or_lines()?;
            if !p.slashdash()? {
                break;
            }
            slashdash = true;
            p.entry()?;
        }
        let e = p.entry()?;
        p.space_or_lines()?;
        if p.eof() { Ok(e) } else { p.err("more than an entry") }
    };
    let entry = go().ok();
    EntryAlone { entry, slashdash, gray: p.gray.is_some() }
}

impl<'a> P<'a> {
    fn space_or_lines(&mut self) -> R<()> {
        loop {
            let at = self.pos;
            self.line_space()?;
            self.node_space()?;
            if self.pos == at {
                return Ok(());
            }
        }
    }
    fn rest(&self) -> &'a str {
        &self.s[self.pos..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn at(&self, t: &str) -> bool {
        self.rest().starts_with(t)
    }
    fn eof(&self) -> bool {
        self.pos >= self.s.len()
    }
    fn err<T>(&self, m: &'static str) -> R<T> {
        Err(E(self.pos, m))
    }
    fn gray(&mut self, m: &'static str) {
        self.gray.get_or_insert(m);
    }
    fn newline_len(&self) -> usize {
        if self.at("\r\n") {
            return 2;
        }
        match self.peek() {
            Some(c) if is_newline_char(c) => c.len_utf8(),
            _ => 0,
        }
    }

    fn block_comment(&mut self) -> R<bool> {
        if !self.at("/*") {
            return Ok(false);
        }
        let start = self.pos;
        self.pos += 2;
        let mut depth = 1;
        while depth > 0 {
            if self.eof() {
                self.pos = start;
                return self.err("unclosed block comment");
            }
            if self.at("/*") {
                depth += 1;
                self.pos += 2;
            } else if self.at("*/") {
                depth -= 1;
                self.pos += 2;
            } else {
                let c = self.peek().unwrap();
                if is_disallowed(c) {
                    self.gray("disallowed code point in a comment");
                }
                self.pos += c.len_utf8();
            }
        }
        self.comments.push(Comment {
            kind: CommentKind::Block,
            span: (start, self.pos),
            between_nodes: self.between,
            slashdashed: self.discard > 0,
        });
        Ok(true)
    }

    fn line_comment(&mut self) -> bool {
        if !self.at("//") {
            return false;
        }
        let start = self.pos;
        while !self.eof() && self.newline_len() == 0 {
            let c = self.peek().unwrap();
            if is_disallowed(c) {
                self.gray("disallowed code point in a comment");
            }
            self.pos += c.len_utf8();
        }
        self.comments.push(Comment {
            kind: CommentKind::Line,
            span: (start, self.pos),
            between_nodes: self.between,
            slashdashed: self.discard > 0,
        });
        self.pos += self.newline_len();
        true
    }

    fn ws(&mut self) -> R<bool> {
        match self.peek() {
            Some(c) if is_unicode_space(c) => {
                self.pos += c.len_utf8();
                Ok(true)
            }
            _ => self.block_comment(),
        }
    }

    fn wss(&mut self) -> R<bool> {
        let mut any = false;
        while self.ws()? {
            any = true;
        }
        Ok(any)
    }

    fn escline(&mut self) -> R<bool> {
        if !self.at("\\") {
            return Ok(false);
        }
        self.pos += 1;
        self.wss()?;
        if self.line_comment() || self.eof() {
            return Ok(true);
        }
        let n = self.newline_len();
        if n > 0 {
            self.pos += n;
            return Ok(true);
        }
        self.err("bad line continuation")
    }

    /// `node-space*`; whether there was any.
    fn node_space(&mut self) -> R<bool> {
        let mut any = false;
        loop {
            if self.ws()? || self.escline()? {
                any = true;
            } else {
                return Ok(any);
            }
        }
    }

    fn line_space(&mut self) -> R<()> {
        loop {
            if self.ws()? || self.escline()? || self.line_comment() {
                continue;
            }
            let n = self.newline_len();
            if n == 0 {
                return Ok(());
            }
            self.pos += n;
        }
    }

    /// `'/-' line-space*`
    fn slashdash(&mut self) -> R<bool> {
        if !self.at("/-") {
            return Ok(false);
        }
        self.pos += 2;
        self.discard += 1;
        let r = self.line_space();
        self.discard -= 1;
        r?;
        Ok(true)
    }

    fn nodes(&mut self, nested: bool) -> R<Vec<RNode>> {
        self.depth += 1;
        let mut out = vec![];
        loop {
            self.between = true;
            self.line_space()?;
            if self.eof() || self.at("}") {
                break;
            }
            let start = self.pos;
            let dead = self.slashdash()?;
            if dead {
                self.discard += 1;
            }
            self.between = false;
            let n = self.base_node();
            if dead {
                self.discard -= 1;
            }
            let n = n?;
            if dead {
                self.comments.push(Comment {
                    kind: CommentKind::Slashdash,
                    span: (start, n.end_all),
                    between_nodes: true,
                    slashdashed: self.discard > 0,
                });
            } else {
                out.push(n);
            }
            // terminator
            self.between = false;
            if self.at(";") {
                self.pos += 1;
            } else if self.line_comment() || self.eof() {
            } else if self.newline_len() > 0 {
                self.pos += self.newline_len();
            } else if self.at("}") {
                if !nested {
                    return self.err("unmatched }");
                }
            } else {
                return self.err("junk after node");
            }
        }
        self.depth -= 1;
        Ok(out)
    }

    fn ty(&mut self) -> R<Option<RIdent>> {
        if !self.at("(") {
            return Ok(None);
        }
        self.pos += 1;
        self.node_space()?;
        let start = self.pos;
        let Some(value) = self.string()? else {
            return self.err("bad type annotation");
        };
        let span = (start, self.pos);
        self.node_space()?;
        if !self.at(")") {
            return self.err("unclosed type annotation");
        }
        self.pos += 1;
        Ok(Some(RIdent { value, span }))
    }

    fn children(&mut self) -> R<Vec<RNode>> {
        let open = self.pos;
        self.pos += 1;
        let was = self.between;
        let ns = self.nodes(true)?;
        self.between = was;
        if !self.at("}") {
            self.pos = open;
            return self.err("unclosed children block");
        }
        self.pos += 1;
        Ok(ns)
    }

    fn base_node(&mut self) -> R<RNode> {
        let start = self.pos;
        let ty = self.ty()?;
        if ty.is_some() {
            self.node_space()?;
        }
        let nstart = self.pos;
        let Some(value) = self.string()? else {
            return self.err("expected a node name");
        };
        let name = RIdent { value, span: (nstart, self.pos) };
        let mut node = RNode {
            ty,
            name,
            entries: vec![],
            children: None,
            children_span: (0, 0),
            span: (start, self.pos),
            end_all: self.pos,
        };
        // 0: entries, 1: slashdashed children seen, 2: children seen
        let mut phase = 0;
        loop {
            let spaced = self.node_space()?;
            if self.eof() || self.at(";") || self.at("}") || self.at("//") || self.newline_len() > 0 {
                return Ok(node);
            }
            if self.at("/-") {
                let sd = self.pos;
                self.slashdash()?;
                if self.at("{") {
                    if !spaced {
                        self.gray("slashdashed children without space before");
                    }
                    self.discard += 1;
                    let r = self.children();
                    self.discard -= 1;
                    r?;
                    phase = phase.max(1);
                } else {
                    if phase > 0 {
                        return self.err("entry after children");
                    }
                    if !spaced {
                        // the repository's conformance suite rejects this
                        return self.err("no space before slashdashed entry");
                    }
                    self.discard += 1;
                    let r = self.entry();
                    self.discard -= 1;
                    r?;
                }
                self.comments.push(Comment {
                    kind: CommentKind::Slashdash,
                    span: (sd, self.pos),
                    between_nodes: false,
                    slashdashed: self.discard > 0,
                });
                node.end_all = self.pos;
                continue;
            }
            if self.at("{") {
                if phase == 2 {
                    return self.err("second children block");
                }
                let open = self.pos;
                node.children = Some(self.children()?);
                node.children_span = (open, self.pos);
                node.span.1 = self.pos;
                node.end_all = self.pos;
                phase = 2;
                continue;
            }
            if phase > 0 {
                return self.err("junk after children");
            }
            if !spaced {
                return self.err("no space before entry");
            }
            let e = self.entry()?;
            node.span.1 = self.pos;
            node.end_all = self.pos;
            node.entries.push(e);
        }
    }

    fn entry(&mut self) -> R<REntry> {
        let start = self.pos;
        if self.at("(") {
            return self.value(start, None);
        }
        if let Some(v) = self.string()? {
            let sspan = (start, self.pos);
            let save = self.pos;
            let save_comments = self.comments.len();
            let save_gray = self.gray;
            if self.node_space().is_ok() && self.at("=") {
                self.pos += 1;
                self.node_space()?;
                return self.value(start, Some(RIdent { value: v, span: sspan }));
            }
            self.pos = save;
            self.comments.truncate(save_comments);
            self.gray = save_gray;
            return Ok(REntry { name: None, ty: None, val: Val::Str(v), val_span: sspan, span: sspan });
        }
        self.value(start, None)
    }

    fn value(&mut self, start: usize, name: Option<RIdent>) -> R<REntry> {
        let ty = self.ty()?;
        if ty.is_some() {
            self.node_space()?;
        }
        let vs = self.pos;
        let val = self.bare_value()?;
        Ok(REntry { name, ty, val, val_span: (vs, self.pos), span: (start, self.pos) })
    }

    fn ident_run(&self) -> &'a str {
        let r = self.rest();
        let n = r.find(|c| !is_ident_char(c)).unwrap_or(r.len());
        &r[..n]
    }

    fn bare_value(&mut self) -> R<Val> {
        if let Some(s) = self.string()? {
            return Ok(Val::Str(s));
        }
        if self.at("#") {
            self.pos += 1;
            let w = self.ident_run();
            let v = match w {
                "true" => Val::Bool(true),
                "false" => Val::Bool(false),
                "null" => Val::Null,
                "inf" => Val::Float(f64::INFINITY),
                "-inf" => Val::Float(f64::NEG_INFINITY),
                "nan" => Val::Float(f64::NAN),
                _ => {
                    self.pos -= 1;
                    return self.err("bad keyword");
                }
            };
            self.pos += w.len();
            return Ok(v);
        }
        let w = self.ident_run();
        if w.is_empty() {
            return self.err("expected a value");
        }
        match self.number(w) {
            Some(v) => {
                self.pos += w.len();
                Ok(v)
            }
            None => self.err("bad number or keyword"),
        }
    }

    fn number(&mut self, w: &str) -> Option<Val> {
        let (neg, body) = match w.as_bytes()[0] {
            b'+' => (false, &w[1..]),
            b'-' => (true, &w[1..]),
            _ => (false, w),
        };
        for (pre, radix) in [("0x", 16), ("0o", 8), ("0b", 2)] {
            // The implementation deliberately takes upper-case radix letters too.
            if body.len() > 2 && body.is_char_boundary(2) && body[..2].to_ascii_lowercase() == pre && &body[..2] != pre {
                self.gray("upper-case radix prefix");
            }
            if let Some(d) = body.strip_prefix(pre) {
                if !d.chars().next()?.is_digit(radix) {
                    return None;
                }
                let mut mag: u128 = 0;
                let mut over = false;
                for c in d.chars() {
                    if c == '_' {
                        continue;
                    }
                    let x = c.to_digit(radix)? as u128;
                    match mag.checked_mul(radix as u128).and_then(|m| m.checked_add(x)) {
                        Some(m) => mag = m,
                        None => over = true,
                    }
                }
                return self.int(neg, mag, over);
            }
        }
        // decimal := integer ('.' integer)? exponent?
        let b = body.as_bytes();
        let mut i = 0;
        let integer = |i: &mut usize| -> bool {
            if !b.get(*i).map(|c| c.is_ascii_digit()).unwrap_or(false) {
                return false;
            }
            while b.get(*i).map(|c| c.is_ascii_digit() || *c == b'_').unwrap_or(false) {
                *i += 1;
            }
            true
        };
        if !integer(&mut i) {
            return None;
        }
        let mut float = false;
        if b.get(i) == Some(&b'.') {
            i += 1;
            float = true;
            if !integer(&mut i) {
                return None;
            }
        }
        if matches!(b.get(i), Some(b'e' | b'E')) {
            i += 1;
            float = true;
            if matches!(b.get(i), Some(b'+' | b'-')) {
                i += 1;
            }
            if !integer(&mut i) {
                return None;
            }
        }
        if i != b.len() {
            return None;
        }
        let digits: String = w.chars().filter(|c| *c != '_').collect();
        if float {
            let f: f64 = digits.parse().ok()?;
            if f.is_infinite() {
                self.gray("float out of range");
            }
            return Some(Val::Float(f));
        }
        let mut mag: u128 = 0;
        let mut over = false;
        for c in body.chars().filter(|c| *c != '_') {
            let x = c.to_digit(10)? as u128;
            match mag.checked_mul(10).and_then(|m| m.checked_add(x)) {
                Some(m) => mag = m,
                None => over = true,
            }
        }
        self.int(neg, mag, over)
    }

    fn int(&mut self, neg: bool, mag: u128, over: bool) -> Option<Val> {
        let lim = i128::MAX as u128 + if neg { 1 } else { 0 };
        if over || mag > lim {
            self.gray("integer out of range");
            return Some(Val::Int(0));
        }
        Some(Val::Int(if neg { (mag as i128).wrapping_neg() } else { mag as i128 }))
    }

    /// A string of any kind; `None` if what is here does not start one.
    fn string(&mut self) -> R<Option<String>> {
        if self.at("\"") {
            return self.quoted().map(Some);
        }
        if self.at("#") {
            let hashes = self.rest().len() - self.rest().trim_start_matches('#').len();
            if self.rest()[hashes..].starts_with('"') {
                return self.raw(hashes).map(Some);
            }
            return Ok(None);
        }
        let w = self.ident_run();
        if is_bare_ident(w) {
            self.pos += w.len();
            return Ok(Some(w.to_string()));
        }
        Ok(None)
    }

    fn quoted(&mut self) -> R<String> {
        let start = self.pos;
        #[derive(Clone, Copy, PartialEq)]
        enum It {
            Lit(char),
            Esc(char),
            Nl,
        }
        let multi = self.at("\"\"\"");
        self.pos += if multi { 3 } else { 1 };
        if multi {
            let n = self.newline_len();
            if n == 0 {
                return self.err("multi-line string must start with a newline");
            }
            self.pos += n;
        }
        let mut items = vec![];
        loop {
            let Some(c) = self.peek() else {
                self.pos = start;
                return self.err("unclosed string");
            };
            if multi && self.at("\"\"\"") {
                self.pos += 3;
                break;
            }
            if c == '"' && !multi {
                self.pos += 1;
                break;
            }
            if c == '\\' {
                self.pos += 1;
                let Some(e) = self.peek() else {
                    return self.err("unclosed string");
                };
                if is_unicode_space(e) || is_newline_char(e) {
                    while let Some(x) = self.peek() {
                        if is_unicode_space(x) || is_newline_char(x) {
                            self.pos += x.len_utf8();
                        } else {
                            break;
                        }
                    }
                    continue;
                }
                self.pos += e.len_utf8();
                let v = match e {
                    '\\' => '\\',
                    '"' => '"',
                    'b' => '\u{8}',
                    'f' => '\u{C}',
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    's' => ' ',
                    'u' => {
                        if !self.at("{") {
                            return self.err("bad unicode escape");
                        }
                        let r = &self.rest()[1..];
                        let n = r.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(r.len());
                        if n == 0 || n > 6 || !r[n..].starts_with('}') {
                            return self.err("bad unicode escape");
                        }
                        let Some(c) = u32::from_str_radix(&r[..n], 16).ok().and_then(char::from_u32) else {
                            return self.err("unicode escape is not a scalar value");
                        };
                        self.pos += n + 2;
                        c
                    }
                    _ => return self.err("unknown escape"),
                };
                items.push(It::Esc(v));
                continue;
            }
            let n = self.newline_len();
            if n > 0 {
                if !multi {
                    return self.err("newline in single-line string");
                }
                self.pos += n;
                items.push(It::Nl);
                continue;
            }
            if is_disallowed(c) {
                return self.err("disallowed code point in string");
            }
            self.pos += c.len_utf8();
            items.push(It::Lit(c));
        }
        if !multi {
            return Ok(items
                .iter()
                .map(|i| match i {
                    It::Lit(c) | It::Esc(c) => *c,
                    It::Nl => '\n',
                })
                .collect());
        }
        let lines: Vec<&[It]> = items.split(|i| *i == It::Nl).collect();
        let (last, body) = lines.split_last().unwrap();
        let blank = |l: &[It]| l.iter().all(|i| matches!(i, It::Lit(c) if is_unicode_space(*c)));
        if !blank(last) {
            return Err(E(start, "multi-line string: text before the closing quotes"));
        }
        let mut out = vec![];
        for l in body {
            if blank(l) {
                out.push(String::new());
            } else if l.len() >= last.len() && l[..last.len()] == **last {
                out.push(
                    l[last.len()..]
                        .iter()
                        .map(|i| match i {
                            It::Lit(c) | It::Esc(c) => *c,
                            It::Nl => unreachable!(),
                        })
                        .collect(),
                );
            } else {
                return Err(E(start, "multi-line string: bad indentation"));
            }
        }
        Ok(out.join("\n"))
    }

    fn raw(&mut self, hashes: usize) -> R<String> {
        let start = self.pos;
        self.pos += hashes;
        let tail = &self.s[start..start + hashes];
        if self.at("\"\"\"") {
            self.pos += 3;
            let n = self.newline_len();
            if n == 0 {
                // `#"""` without a newline is not a single-line raw string either
                self.pos = start;
                return self.err("raw string looks multi-line");
            }
            self.pos += n;
            let close = format!("\"\"\"{tail}");
            let mut lines: Vec<String> = vec![String::new()];
            loop {
                let Some(c) = self.peek() else {
                    self.pos = start;
                    return self.err("unclosed raw string");
                };
                if self.at(&close) {
                    if lines.last().unwrap().chars().all(is_unicode_space) {
                        self.pos += close.len();
                        break;
                    }
                    self.gray("raw multi-line closing delimiter in the middle of a line");
                }
                let n = self.newline_len();
                if n > 0 {
                    self.pos += n;
                    lines.push(String::new());
                    continue;
                }
                if is_disallowed(c) {
                    return self.err("disallowed code point in raw string");
                }
                self.pos += c.len_utf8();
                lines.last_mut().unwrap().push(c);
            }
            let prefix = lines.pop().unwrap();
            let mut out = vec![];
            for l in &lines {
                if l.chars().all(is_unicode_space) {
                    out.push("");
                } else if let Some(r) = l.strip_prefix(prefix.as_str()) {
                    out.push(r);
                } else {
                    return Err(E(start, "multi-line raw string: bad indentation"));
                }
            }
            return Ok(out.join("\n"));
        }
        self.pos += 1;
        let close = format!("\"{tail}");
        let body = self.pos;
        loop {
            let Some(c) = self.peek() else {
                self.pos = start;
                return self.err("unclosed raw string");
            };
            if self.at(&close) {
                let v = self.s[body..self.pos].to_string();
                self.pos += close.len();
                return Ok(v);
            }
            if is_newline_char(c) {
                return self.err("newline in single-line raw string");
            }
            if is_disallowed(c) {
                return self.err("disallowed code point in raw string");
            }
            self.pos += c.len_utf8();
        }
    }
}

// ---- trusted self-checks of the reference live in main.rs (`selfcheck`) ----
