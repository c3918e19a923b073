//! Renders generated content as KDL v1 text: the expected tree is known by
//! construction. Only spacing, newlines and comments that mean the same in
//! KDL v2 are used (no byte order mark inside a document, no vertical tab),
//! since converting a document copies them.

use crate::engine::Src;
use crate::gen_tree;
use crate::gen_text::Text;
use crate::tree::{TEntry, TNode, Tree, Val};

pub struct V1<'a> {
    pub s: &'a mut Src,
    pub wild: u32,
    pub comments: bool,
    pub slashdash: bool,
    pub exotic: bool,
    pub out: String,
    pub budget: i32,
    pub labels: Vec<&'static str>,
    /// text of the comments, in order (line comments without their newline)
    pub seen: Vec<String>,
    /// inside something slashdashed: the text has to be valid in v2 as well
    pub plain: bool,
    /// spellings of the numbers, in order, outside of slashdashed parts
    pub numbers: Vec<String>,
}

const SPACES: &[char] = &[' ', '\t', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2003}', '\u{200a}', '\u{202f}', '\u{205f}', '\u{3000}'];

/// Reduce content to what v1 can say: i64 integers, finite floats.
pub fn v1_tree(t: &Tree) -> Tree {
    t.iter()
        .map(|n| TNode {
            ty: n.ty.clone(),
            name: n.name.clone(),
            entries: n
                .entries
                .iter()
                .map(|e| TEntry {
                    val: match &e.val {
                        // the v1 parser reads the digits of i64::MIN as a positive number
                        Val::Int(i) if i.unsigned_abs() > i64::MAX as u128 => Val::Int(*i % 1_000_003),
                        Val::Float(f) if !f.is_finite() || !short_float(*f) => Val::Float(if *f < 0.0 { -2.5 } else { 0.25 }),
                        v => v.clone(),
                    },
                    ..e.clone()
                })
                .collect(),
            children: n.children.as_ref().map(v1_tree),
        })
        .collect()
}

/// The v1 parser reads each part of a float as an i64.
pub fn short_float(f: f64) -> bool {
    let e = format!("{:e}", f.abs());
    let (m, _) = e.split_once('e').unwrap();
    m.len() <= 18
}

pub fn bare_v1(v: &str) -> bool {
    let mut cs = v.chars();
    let Some(c) = cs.next() else { return false };
    (c.is_alphabetic() || matches!(c, '_' | '$' | '%' | '?' | '|' | ':' | '!' | '~' | '@' | '^' | '&' | '*' | '.' | '\'' | '`'))
        && cs.all(|c| c.is_alphanumeric() || matches!(c, '_' | '-' | '+' | '.' | ':' | '|' | '?' | '!' | '$' | '@'))
        && !matches!(v, "true" | "false" | "null")
        // these are not plain identifiers in v2, which slashdashed parts have to be as well
        && !matches!(v, "inf" | "nan")
        && !(v.starts_with('.') && v[1..].starts_with(|c: char| c.is_ascii_digit()))
        // kdl 4.7.1 takes numbers of other scripts (which count as letters) for digits
        && !c.is_numeric()
        && !v.starts_with('r')
}

impl<'a> V1<'a> {
    fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn wild(&mut self, num: u32, den: u32) -> bool {
        if self.wild == 0 || self.budget <= 0 {
            return false;
        }
        let b = self.s.chance(num * self.wild.min(3), den * 3);
        if b {
            self.budget -= 1;
        }
        b
    }
    fn newline(&mut self) {
        let nl = if self.exotic {
            *self.s.pick(&["\n", "\r\n", "\r", "\u{85}", "\u{c}", "\u{2028}", "\u{2029}"])
        } else {
            *self.s.pick(&["\n", "\n", "\r\n"])
        };
        if nl != "\n" {
            self.label("non-LF newline");
        }
        if nl == "\n" && self.out.ends_with('\r') {
            self.out.push('\r');
        }
        self.out.push_str(nl);
    }
    fn uspace(&mut self) {
        let c = if self.wild >= 2 { *self.s.pick(SPACES) } else { *self.s.pick(&[' ', '\t']) };
        self.out.push(c);
    }
    fn words(&mut self) -> String {
        let mut t = String::new();
        for _ in 0..self.s.below(4) {
            let w = *self.s.pick(&[
                " ", "c", "comment", "//", "/-", "\"", "{", "}", "\\", "é", "#\"", "node 1", ";", "  ", "=", "🦀", "true", "r#\"", "(t)",
            ]);
            t.push_str(w);
        }
        t
    }
    fn block_comment(&mut self) {
        self.label("block comment");
        let at = self.out.len();
        self.out.push_str("/*");
        let t = self.words().replace("*/", "").replace("/*", "");
        self.out.push(' ');
        self.out.push_str(&t);
        self.out.push(' ');
        if self.s.chance(1, 6) {
            self.newline();
        }
        if self.s.chance(1, 6) {
            self.out.push_str("/* n ***/ ");
        }
        self.out.push_str("*/");
        let c = self.out[at..].to_string();
        if !self.plain {
            self.seen.push(c);
        }
    }
    fn line_comment_text(&mut self) {
        self.label("line comment");
        let at = self.out.len();
        self.out.push_str("//");
        let t = self.words();
        self.out.push_str(&t);
        let c = self.out[at..].to_string();
        if !self.plain {
            self.seen.push(c);
        }
    }
    fn line_comment(&mut self) {
        self.line_comment_text();
        self.newline();
    }
    fn ws(&mut self) {
        if self.comments && self.wild(1, 4) {
            self.block_comment();
        } else {
            self.uspace();
        }
    }
    fn escline(&mut self) {
        self.label("line continuation");
        self.out.push('\\');
        if self.wild(1, 3) {
            self.ws();
        }
        if self.comments && self.wild(1, 4) {
            self.line_comment();
        } else {
            self.newline();
        }
    }
    fn space1(&mut self) {
        if !self.wild(1, 2) {
            self.out.push(' ');
            return;
        }
        loop {
            if self.wild(1, 5) {
                self.escline();
            } else {
                self.ws();
            }
            if !self.wild(1, 2) {
                break;
            }
        }
    }
    fn space0(&mut self) {
        if self.wild(1, 3) {
            self.space1();
        }
    }
    fn lines0(&mut self) {
        while self.wild(2, 5) {
            match self.s.below(4) {
                0 => self.newline(),
                1 if self.comments => self.line_comment(),
                2 => self.ws(),
                _ => self.newline(),
            }
        }
    }

    fn escape(&mut self, c: char) {
        let short = match c {
            '\\' => Some("\\\\"),
            '"' => Some("\\\""),
            '/' if !self.plain => Some("\\/"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            _ => None,
        };
        if let Some(x) = short {
            if !self.wild(1, 4) {
                self.out.push_str(x);
                return;
            }
        }
        let h = match self.s.below(3) {
            0 => format!("{:x}", c as u32),
            1 => format!("{:X}", c as u32),
            _ => format!("{:06x}", c as u32),
        };
        self.out.push_str(&format!("\\u{{{h}}}"));
    }

    fn quoted(&mut self, v: &str) {
        self.label("quoted string");
        self.out.push('"');
        for c in v.chars() {
            let v2_only = crate::refkdl::is_newline_char(c) || crate::refkdl::is_disallowed(c);
            if matches!(c, '\\' | '"') || (v2_only && self.plain) || (v2_only && !self.wild(1, 3)) || self.wild(1, 12) {
                self.escape(c);
            } else {
                if c == '\n' {
                    self.label("literal newline in string");
                }
                self.out.push(c);
            }
        }
        self.out.push('"');
    }

    fn raw(&mut self, v: &str) {
        self.label("raw string");
        let mut n = usize::from(!self.s.chance(1, 3));
        while v.contains(&format!("\"{}", "#".repeat(n))) {
            n += 1;
        }
        let h = "#".repeat(n);
        self.out.push_str(&format!("r{h}\"{v}\"{h}"));
    }

    fn ident(&mut self, v: &str) {
        if bare_v1(v) && !self.wild(1, 4) {
            self.out.push_str(v);
        } else {
            self.string(v);
        }
    }

    fn string(&mut self, v: &str) {
        if !self.plain && self.wild(1, 3) {
            self.raw(v);
        } else {
            self.quoted(v);
        }
    }

    fn digits(&mut self, d: &str) -> String {
        let mut o = String::new();
        for (i, c) in d.chars().enumerate() {
            if i > 0 && self.wild(1, 10) {
                o.push('_');
            }
            o.push(c);
        }
        o
    }

    fn int(&mut self, v: i128) {
        let mag = v.unsigned_abs();
        let sign = if v < 0 {
            "-"
        } else if self.wild(1, 6) {
            "+"
        } else {
            ""
        };
        let k = if self.wild == 0 { 0 } else { self.s.weighted(&[8, 2, 2, 2]) };
        let (pre, body) = match k {
            1 => ("0x", if self.s.chance(1, 2) { format!("{mag:x}") } else { format!("{mag:X}") }),
            2 => ("0o", format!("{mag:o}")),
            3 => ("0b", format!("{mag:b}")),
            _ => ("", format!("{mag}")),
        };
        let d = self.digits(&body);
        let t = format!("{sign}{pre}{d}");
        self.number(t);
    }

    fn number(&mut self, t: String) {
        self.out.push_str(&t);
        if !self.plain {
            self.numbers.push(t);
        }
    }

    fn float(&mut self, f: f64) {
        self.label("float");
        let e = format!("{:e}", f.abs());
        let (m, x) = e.split_once('e').unwrap();
        let exp: i32 = x.parse().unwrap();
        let sign = if f.is_sign_negative() {
            "-"
        } else if self.wild(1, 8) {
            "+"
        } else {
            ""
        };
        let dbg = format!("{:?}", f.abs());
        let t = if !dbg.contains('e') && dbg.len() < 18 && !self.wild(1, 3) {
            let (a, b) = dbg.split_once('.').unwrap();
            let (a, b) = (self.digits(a), self.digits(b));
            format!("{sign}{a}.{b}")
        } else {
            let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
            let fp = self.digits(fp);
            let dot = if fp.is_empty() { if self.wild(1, 2) { ".0" } else { "" } } else { "." };
            let ee = if self.s.chance(1, 2) { "e" } else { "E" };
            let es = if exp < 0 {
                "-"
            } else if self.wild(1, 3) {
                "+"
            } else {
                ""
            };
            format!("{sign}{ip}{dot}{fp}{ee}{es}{}", exp.abs())
        };
        self.number(t);
    }

    fn val(&mut self, v: &Val) {
        match v {
            Val::Str(t) => self.string(t),
            Val::Int(i) => self.int(*i),
            Val::Float(f) => self.float(*f),
            Val::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
            Val::Null => self.out.push_str("null"),
        }
    }

    fn ty(&mut self, t: &Option<String>) {
        if let Some(t) = t {
            self.label("type annotation");
            self.out.push('(');
            self.ident(t);
            self.out.push(')');
        }
    }

    pub fn entry(&mut self, e: &TEntry) {
        if let Some(n) = &e.name {
            self.label("property");
            self.ident(n);
            self.out.push('=');
        }
        self.ty(&e.ty);
        self.val(&e.val);
    }

    fn junk(&mut self, f: impl FnOnce(&mut Self)) {
        let was = std::mem::replace(&mut self.plain, true);
        f(self);
        self.plain = was;
    }

    /// A slashdashed entry whose text means the same in v1 and v2.
    fn junk_entry(&mut self) {
        self.label("slashdashed entry");
        let e = gen_tree::entry(self.s);
        let e = plain_entry(&e);
        self.out.push_str("/-");
        self.junk(|r| r.entry(&e));
    }

    pub fn children(&mut self, t: &Tree) {
        self.out.push('{');
        self.nodes(t, true);
        self.out.push('}');
    }

    pub fn node(&mut self, n: &TNode) {
        self.ty(&n.ty);
        self.ident(&n.name);
        for e in &n.entries {
            self.space1();
            while self.slashdash && self.wild(1, 8) {
                self.junk_entry();
                self.space1();
            }
            self.entry(e);
        }
        while self.slashdash && self.wild(1, 8) {
            self.space1();
            self.junk_entry();
        }
        if self.slashdash && self.wild(1, 10) {
            self.label("slashdashed children");
            self.space1();
            self.out.push_str("/-");
            let t = plain_tree(&gen_tree::nodes(self.s, 0));
            self.junk(|r| r.children(&t));
        }
        if let Some(c) = &n.children {
            if self.wild(1, 4) {
                self.space0();
            } else {
                self.out.push(' ');
            }
            self.label("children");
            self.children(c);
        }
        self.space0();
    }

    fn nodes(&mut self, t: &Tree, nested: bool) {
        self.lines0();
        let mut i = 0;
        loop {
            while self.slashdash && self.wild(1, 7) {
                self.label("slashdashed node");
                let n = gen_tree::node(self.s, 0);
                let n = plain_tree(&vec![n]).remove(0);
                self.out.push_str("/-");
                self.junk(|r| {
                    let was = r.budget;
                    r.budget = was.min(6);
                    r.node(&n);
                    r.budget = was - 8;
                });
                self.terminator(true);
                self.lines0();
            }
            if i >= t.len() {
                return;
            }
            self.node(&t[i]);
            i += 1;
            let last = i == t.len() && !nested;
            if last && self.s.chance(1, 4) {
                self.label("unterminated final node");
                return;
            }
            self.terminator(false);
            self.lines0();
        }
    }

    fn terminator(&mut self, junk: bool) {
        if self.wild(1, 4) {
            self.label("semicolon");
            self.out.push(';');
        } else if self.comments && !junk && self.wild(1, 4) {
            self.label("comment terminator");
            self.line_comment();
        } else {
            self.newline();
        }
    }

    pub fn document(&mut self, t: &Tree) {
        self.nodes(t, false);
        if self.comments && self.wild(1, 12) {
            self.label("comment at end of input");
            self.out.push(' ');
            self.line_comment_text();
        }
    }
}

fn plain_entry(e: &TEntry) -> TEntry {
    TEntry {
        val: match &e.val {
            Val::Str(t) => Val::Str(t.clone()),
            Val::Int(i) => Val::Int(*i % 1000),
            _ => Val::Str("x".into()),
        },
        ..e.clone()
    }
}

fn plain_tree(t: &Tree) -> Tree {
    t.iter()
        .map(|n| TNode {
            entries: n.entries.iter().map(plain_entry).collect(),
            children: n.children.as_ref().map(plain_tree),
            ..n.clone()
        })
        .collect()
}

pub struct V1Text {
    pub text: Text,
    pub comments: Vec<String>,
    pub numbers: Vec<String>,
}

pub fn ren(s: &mut Src) -> V1<'_> {
    let wild = s.below(4);
    let (comments, slashdash, exotic) = (s.chance(3, 4), s.chance(1, 2), s.chance(1, 3));
    V1 { s, wild, comments, slashdash, exotic, out: String::new(), budget: 160, labels: vec![], seen: vec![], plain: false, numbers: vec![] }
}

pub fn document(s: &mut Src) -> V1Text {
    let tree = if s.chance(1, 40) { vec![] } else { v1_tree(&gen_tree::tree(s)) };
    let mut r = ren(s);
    r.document(&tree);
    V1Text { text: Text { text: r.out, tree, labels: r.labels }, comments: r.seen, numbers: r.numbers }
}
