//! Renders generated content as KDL v2 text in every way the grammar allows:
//! the expected tree is known by construction, before any parser runs.

use crate::engine::Src;
use crate::gen_tree;
use crate::refkdl::{is_bare_ident, is_disallowed, is_newline_char, is_unicode_space};
use crate::tree::{TEntry, TNode, Tree, Val};

pub struct Style {
    /// 0 = plain, higher = wilder
    pub wild: u32,
    pub slashdash: bool,
    pub comments: bool,
    /// newlines other than LF / CRLF
    pub exotic: bool,
    /// only LF ends lines (useful where the crate documents LF only)
    pub lf_only: bool,
}

impl Style {
    pub fn any(s: &mut Src) -> Style {
        let wild = s.below(4);
        Style { wild, slashdash: s.chance(2, 3), comments: s.chance(3, 4), exotic: s.chance(1, 2), lf_only: s.chance(1, 2) }
    }
}

pub struct Ren<'a> {
    pub s: &'a mut Src,
    pub st: Style,
    pub out: String,
    pub budget: i32,
    pub labels: Vec<&'static str>,
    /// only what KDL v1 has got, too, in the parts that conversion copies
    pub v1: bool,
}

const SPACES: &[char] = &[
    ' ', '\t', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}',
    '\u{2009}', '\u{200a}', '\u{202f}', '\u{205f}', '\u{3000}',
];

impl<'a> Ren<'a> {
    pub fn new(s: &'a mut Src, st: Style) -> Self {
        Ren { s, st, out: String::new(), budget: 220, labels: vec![], v1: false }
    }
    fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn wild(&mut self, num: u32, den: u32) -> bool {
        if self.st.wild == 0 || self.budget <= 0 {
            return false;
        }
        let b = self.s.chance(num * self.st.wild.min(3), den * 3);
        if b {
            self.budget -= 1;
        }
        b
    }
    fn newline(&mut self) {
        let nl = if self.st.lf_only {
            &"\n"
        } else if self.st.exotic {
            self.s.pick(&["\n", "\r\n", "\r", "\u{85}", "\u{b}", "\u{c}", "\u{2028}", "\u{2029}"])
        } else {
            self.s.pick(&["\n", "\r\n"])
        };
        if *nl != "\n" {
            self.label("non-LF newline");
        }
        // a lone CR followed by LF would merge into one newline
        if *nl == "\n" && self.out.ends_with('\r') {
            self.out.push('\r');
        }
        self.out.push_str(nl);
    }
    fn uspace(&mut self) {
        let c = if self.st.wild >= 2 { *self.s.pick(SPACES) } else { *self.s.pick(&[' ', '\t']) };
        self.out.push(c);
    }
    fn comment_text(&mut self, block: bool) -> String {
        let n = self.s.below(4);
        let mut t = String::new();
        for _ in 0..n {
            let w = self.s.pick(&[
                " ", "c", "comment", "//", "/-", "\"", "{", "}", "\\", "é", "#\"", "node 1", ";", "  ", "=", "🦀", "*", "/ ", "\"\"\"",
            ]);
            t.push_str(w);
        }
        if self.wild(1, 30) {
            t = t.repeat(self.s.range(2, 40) as usize);
        }
        if block {
            // close no comment early and open none
            t = t.replace("*/", "* /").replace("/*", "/ *");
            if t.ends_with('*') || t.ends_with('/') {
                t.push(' ');
            }
            if t.starts_with('/') {
                t.insert(0, ' ');
            }
        }
        t
    }
    fn block_comment(&mut self) {
        self.label("block comment");
        self.out.push_str("/*");
        let t = self.comment_text(true);
        self.out.push_str(&t);
        if self.s.chance(1, 5) {
            self.newline();
            self.label("multi-line block comment");
        }
        if self.s.chance(1, 5) {
            self.block_comment();
            self.label("nested block comment");
            self.out.push(' ');
        }
        if self.wild(1, 60) {
            let k = self.s.range(2, 20) as usize;
            self.out.push_str(&"/*".repeat(k));
            self.out.push_str(&" */".repeat(k));
        }
        if self.s.chance(1, 8) {
            self.out.push_str("**");
        }
        self.out.push_str("*/");
    }
    /// A line comment and the newline that ends it.
    fn line_comment(&mut self) {
        self.label("line comment");
        self.out.push_str("//");
        let t = self.comment_text(false);
        self.out.push_str(&t);
        self.newline();
    }
    fn ws(&mut self) {
        if self.st.comments && self.wild(1, 4) {
            self.block_comment();
        } else {
            self.uspace();
        }
    }
    fn escline(&mut self) {
        self.label("escline");
        self.out.push('\\');
        if self.wild(1, 3) {
            self.ws();
        }
        if self.st.comments && self.wild(1, 4) {
            self.line_comment();
        } else {
            self.newline();
        }
    }
    pub fn node_space1(&mut self) {
        if !self.wild(1, 2) {
            self.out.push(' ');
            return;
        }
        loop {
            if self.wild(1, 5) {
                self.escline();
            } else {
                self.ws();
            }
            if !self.wild(1, 2) {
                break;
            }
        }
    }
    pub fn node_space0(&mut self) {
        if self.wild(1, 3) {
            self.node_space1();
        }
    }
    pub fn line_space0(&mut self) {
        while self.wild(2, 5) {
            match self.s.below(4) {
                0 => self.newline(),
                1 if self.st.comments => self.line_comment(),
                2 => {
                    if !self.v1 && self.s.chance(1, 4) {
                        self.escline()
                    } else {
                        self.ws()
                    }
                }
                _ => self.newline(),
            }
        }
    }

    // ---- strings ----

    fn esc_char(&mut self, c: char) {
        // a required or optional escape of `c`
        let short = match c {
            '\\' => Some("\\\\"),
            '"' => Some("\\\""),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            ' ' => Some("\\s"),
            _ => None,
        };
        if let Some(x) = short {
            if !self.wild(1, 3) {
                self.out.push_str(x);
                return;
            }
        }
        let h = match self.s.below(3) {
            0 => format!("{:x}", c as u32),
            1 => format!("{:X}", c as u32),
            _ => format!("{:06x}", c as u32),
        };
        self.out.push_str(&format!("\\u{{{h}}}"));
    }

    fn ws_escape(&mut self, allow_nl: bool) {
        self.label("whitespace escape");
        self.out.push('\\');
        if allow_nl && self.s.chance(2, 3) {
            self.newline();
        } else {
            self.uspace();
        }
        while self.s.chance(1, 3) {
            self.uspace();
        }
    }

    fn quoted(&mut self, v: &str) {
        self.label("quoted string");
        self.out.push('"');
        let cs: Vec<char> = v.chars().collect();
        for (i, c) in cs.iter().enumerate() {
            let literal_space = is_unicode_space(*c);
            // an escaped newline swallows the whitespace that follows it
            let next_ok = |c: char| !is_unicode_space(c) && !is_newline_char(c);
            if i > 0 && next_ok(*c) && self.wild(1, 14) {
                self.ws_escape(true);
            }
            let must = matches!(c, '\\' | '"') || is_newline_char(*c) || is_disallowed(*c);
            if must || (!literal_space && self.wild(1, 12)) || (*c == ' ' && self.wild(1, 12)) {
                self.esc_char(*c);
            } else {
                self.out.push(*c);
            }
        }
        if self.wild(1, 20) {
            self.ws_escape(true);
        }
        self.out.push('"');
    }

    fn can_raw(v: &str) -> bool {
        !v.chars().any(|c| is_newline_char(c) || is_disallowed(c)) && v != "\"" && !v.starts_with("\"\"")
    }

    fn hashes_for(v: &str, quote: &str) -> usize {
        // fewest hashes such that quote + hashes is not in v + closing
        let mut n = 1;
        while v.contains(&format!("{quote}{}", "#".repeat(n))) {
            n += 1;
        }
        n
    }

    fn raw(&mut self, v: &str) {
        self.label("raw string");
        let mut n = Self::hashes_for(v, "\"");
        if self.wild(1, 3) {
            n += self.s.below(3) as usize;
        }
        if self.wild(1, 40) {
            n += self.s.range(3, 20) as usize;
        }
        let h = "#".repeat(n);
        self.out.push_str(&format!("{h}\"{v}\"{h}"));
    }

    fn indent_str(&mut self) -> String {
        let mut p = String::new();
        while p.chars().count() < 12 && self.s.chance(1, 2) {
            let c = if self.st.wild >= 2 { *self.s.pick(SPACES) } else { *self.s.pick(&[' ', '\t']) };
            p.push(c);
        }
        p
    }

    fn blank_line(&mut self, indent: &str) {
        match self.s.below(3) {
            0 => {}
            1 => self.out.push_str(indent),
            _ => {
                let t = self.indent_str();
                self.out.push_str(&t);
            }
        }
    }

    fn multi(&mut self, v: &str) {
        self.label("multi-line string");
        self.out.push_str("\"\"\"");
        self.newline();
        let indent = self.indent_str();
        let lines: Vec<&str> = v.split('\n').collect();
        let skip = v.is_empty();
        for line in lines {
            if skip && self.s.chance(1, 2) {
                break;
            }
            if line.is_empty() {
                self.blank_line(&indent);
                self.newline();
                continue;
            }
            self.out.push_str(&indent);
            let all_space = line.chars().all(is_unicode_space);
            let cs: Vec<char> = line.chars().collect();
            let mut quotes = 0;
            for (i, c) in cs.iter().enumerate() {
                if !is_unicode_space(*c) && !is_newline_char(*c) && self.wild(1, 16) {
                    self.ws_escape(true);
                    quotes = 0;
                }
                let must = *c == '\\' || is_newline_char(*c) || is_disallowed(*c) || (*c == '"' && quotes == 2);
                if *c == '"' && !must && !self.wild(1, 4) {
                    quotes += 1;
                    self.out.push('"');
                    continue;
                }
                quotes = 0;
                // a whitespace-only line would come out empty: escape its first character
                let guard = all_space && i == 0;
                if must || guard || *c == '"' || (!is_unicode_space(*c) && self.wild(1, 16)) {
                    self.esc_char(*c);
                } else {
                    self.out.push(*c);
                }
            }
            self.newline();
        }
        self.out.push_str(&indent);
        self.out.push_str("\"\"\"");
    }

    fn can_raw_multi(v: &str) -> bool {
        v.split('\n').all(|l| {
            !l.chars().any(|c| is_newline_char(c) || is_disallowed(c)) && (l.is_empty() || !l.chars().all(is_unicode_space))
        })
    }

    fn raw_multi(&mut self, v: &str) {
        self.label("raw multi-line string");
        let mut n = Self::hashes_for(v, "\"\"\"");
        if self.wild(1, 3) {
            n += self.s.below(3) as usize;
        }
        if self.wild(1, 40) {
            n += self.s.range(3, 20) as usize;
        }
        let h = "#".repeat(n);
        self.out.push_str(&format!("{h}\"\"\""));
        self.newline();
        let indent = self.indent_str();
        for line in v.split('\n') {
            if v.is_empty() && self.s.chance(1, 2) {
                break;
            }
            if line.is_empty() {
                self.blank_line(&indent);
            } else {
                self.out.push_str(&indent);
                self.out.push_str(line);
            }
            self.newline();
        }
        self.out.push_str(&indent);
        self.out.push_str(&format!("\"\"\"{h}"));
    }

    pub fn string(&mut self, v: &str) {
        if is_bare_ident(v) && !self.wild(1, 4) {
            self.out.push_str(v);
            return;
        }
        let k = if self.st.wild == 0 { 0 } else { self.s.weighted(&[4, 3, 2, 2]) };
        match k {
            1 if Self::can_raw(v) => self.raw(v),
            2 => self.multi(v),
            3 if Self::can_raw_multi(v) => self.raw_multi(v),
            _ => self.quoted(v),
        }
    }

    // ---- numbers ----

    fn digits(&mut self, d: &str) -> String {
        let mut o = String::new();
        for (i, c) in d.chars().enumerate() {
            if i > 0 && self.wild(1, 10) {
                o.push('_');
            }
            o.push(c);
        }
        if self.wild(1, 16) {
            o.push('_');
        }
        o
    }

    fn int(&mut self, v: i128) {
        let mag = v.unsigned_abs();
        let sign = if v < 0 {
            "-"
        } else if self.wild(1, 6) {
            if v == 0 && self.s.chance(1, 2) { "-" } else { "+" }
        } else {
            ""
        };
        self.out.push_str(sign);
        let mut zeros = if !self.v1 && self.wild(1, 10) { "0".repeat(self.s.range(1, 3) as usize) } else { String::new() };
        if !zeros.is_empty() && self.wild(1, 10) {
            zeros = "0".repeat(self.s.range(3, 60) as usize);
        }
        let radix = if self.st.wild == 0 { 0 } else { self.s.weighted(&[8, 2, 2, 2]) };
        let (pre, body) = match radix {
            1 => ("0x", if self.s.chance(1, 2) { format!("{zeros}{mag:x}") } else { format!("{zeros}{mag:X}") }),
            2 => ("0o", format!("{zeros}{mag:o}")),
            3 => ("0b", format!("{zeros}{mag:b}")),
            _ => ("", format!("{zeros}{mag}")),
        };
        self.label(match radix {
            1 => "hex",
            2 => "octal",
            3 => "binary",
            _ => "decimal",
        });
        let d = self.digits(&body);
        self.out.push_str(pre);
        self.out.push_str(&d);
    }

    fn float(&mut self, f: f64) {
        self.label("float");
        if f.is_nan() {
            self.out.push_str("#nan");
            return;
        }
        if f.is_infinite() {
            self.out.push_str(if f > 0.0 { "#inf" } else { "#-inf" });
            return;
        }
        // exact value: shortest round-trip digits, rearranged
        let e = format!("{:e}", f.abs()); // d.ddde-N
        let (m, x) = e.split_once('e').unwrap();
        let exp: i32 = x.parse().unwrap();
        let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
        if f.is_sign_negative() {
            self.out.push('-');
        } else if self.wild(1, 8) {
            self.out.push('+');
        }
        let plain = exp.abs() < if self.v1 { 2 } else { 60 } && !self.wild(1, 3);
        if plain {
            let all = format!("{ip}{fp}");
            let point = ip.len() as i32 + exp;
            let (a, b) = if point <= 0 {
                ("0".to_string(), format!("{}{all}", "0".repeat((-point) as usize)))
            } else if (point as usize) < all.len() {
                (all[..point as usize].to_string(), all[point as usize..].to_string())
            } else {
                (format!("{all}{}", "0".repeat(point as usize - all.len())), "0".into())
            };
            let a = self.digits(&a);
            let b = self.digits(&b);
            self.out.push_str(&a);
            self.out.push('.');
            self.out.push_str(&b);
        } else {
            let shift = if self.st.wild == 0 { 0 } else { self.s.below(4) as i32 };
            let ip = format!("{ip}{}", "0".repeat(shift as usize));
            // keep it exact: only move the point when there is no fraction
            let (ip, exp) = if fp.is_empty() { (ip, exp - shift) } else { (m.split_once('.').unwrap().0.to_string(), exp) };
            let a = self.digits(&ip);
            self.out.push_str(&a);
            if !fp.is_empty() {
                let b = self.digits(fp);
                self.out.push('.');
                self.out.push_str(&b);
            } else if self.wild(1, 3) {
                self.out.push_str(".0");
            }
            self.out.push(if self.s.chance(1, 2) { 'E' } else { 'e' });
            if exp < 0 {
                self.out.push('-');
            } else if self.s.chance(1, 3) {
                self.out.push('+');
            }
            let x = self.digits(&exp.abs().to_string());
            self.out.push_str(&x);
        }
    }

    pub fn val(&mut self, v: &Val) {
        match v {
            Val::Str(s) => self.string(s),
            Val::Int(i) => self.int(*i),
            Val::Float(f) => self.float(*f),
            Val::Bool(b) => self.out.push_str(if *b { "#true" } else { "#false" }),
            Val::Null => self.out.push_str("#null"),
        }
    }

    fn ty(&mut self, t: &Option<String>) {
        if let Some(t) = t {
            self.label("type annotation");
            self.out.push('(');
            self.node_space0();
            self.string(t);
            self.node_space0();
            self.out.push(')');
            self.node_space0();
        }
    }

    pub fn entry(&mut self, e: &TEntry) {
        if let Some(n) = &e.name {
            self.label("property");
            self.string(n);
            self.node_space0();
            self.out.push('=');
            self.node_space0();
        }
        self.ty(&e.ty);
        self.val(&e.val);
    }

    fn slashdash(&mut self) {
        self.out.push_str("/-");
        self.line_space0();
    }

    fn junk_entry(&mut self) {
        self.label("slashdashed entry");
        let e = gen_tree::entry(self.s);
        self.slashdash();
        self.entry(&e);
    }

    fn children(&mut self, t: &Tree) {
        self.out.push('{');
        self.nodes(t, true);
        self.out.push('}');
    }

    /// Slashdashed children, always after space.
    fn junk_children(&mut self, depth: u32) {
        self.label("slashdashed children");
        self.node_space1();
        self.slashdash();
        let t = gen_tree::nodes(self.s, depth);
        let was = std::mem::replace(&mut self.budget, 3);
        self.children(&t);
        self.budget = was - 10;
    }

    pub fn node(&mut self, n: &TNode) {
        self.ty(&n.ty);
        self.string(&n.name);
        for e in &n.entries {
            self.node_space1();
            while self.st.slashdash && self.wild(1, 8) {
                self.junk_entry();
                self.node_space1();
            }
            self.entry(e);
        }
        while self.st.slashdash && self.wild(1, 8) {
            self.node_space1();
            self.junk_entry();
            self.label("trailing slashdashed entry");
        }
        while self.st.slashdash && self.wild(1, 8) {
            self.junk_children(1);
        }
        if let Some(c) = &n.children {
            if self.wild(1, 4) {
                self.node_space0();
            } else {
                self.out.push(' ');
            }
            self.label("children");
            self.children(c);
            while self.st.slashdash && self.wild(1, 8) {
                self.junk_children(0);
                self.label("slashdashed children after children");
            }
        }
        self.node_space0();
    }

    fn nodes(&mut self, t: &Tree, nested: bool) {
        self.line_space0();
        let mut i = 0;
        loop {
            // slashdashed nodes
            while self.st.slashdash && self.wild(1, 7) {
                self.label("slashdashed node");
                let j = gen_tree::node(self.s, 1);
                let was = self.budget;
                self.budget = was.min(8);
                self.slashdash();
                self.node(&j);
                self.budget = was - 8;
                let more = i < t.len();
                if self.terminator(nested, !more) {
                    return;
                }
                self.line_space0();
            }
            if i >= t.len() {
                return;
            }
            self.node(&t[i]);
            i += 1;
            let last = i == t.len();
            let bare = self.terminator(nested, last);
            if bare {
                return;
            }
            self.line_space0();
        }
    }

    /// Writes a node terminator; true if the node was left unterminated.
    fn terminator(&mut self, _nested: bool, last: bool) -> bool {
        if last && self.s.chance(1, 4) {
            self.label("unterminated final node");
            return true;
        }
        if self.wild(1, 4) {
            self.label("semicolon");
            self.out.push(';');
        } else if self.st.comments && self.wild(1, 4) {
            self.label("comment terminator");
            self.line_comment();
        } else {
            self.newline();
        }
        false
    }

    pub fn document(&mut self, t: &Tree) {
        if !self.v1 && self.wild(1, 12) {
            self.label("BOM");
            self.out.push('\u{feff}');
        }
        self.nodes(t, false);
        // a comment that ends at the end of input, without its newline
        if self.st.comments && self.wild(1, 12) {
            self.label("comment at end of input");
            if self.out.ends_with('/') {
                self.out.push(' ');
            }
            self.out.push_str("// end");
        }
        if !self.v1 && self.wild(1, 24) {
            self.label("escline at end of input");
            if !self.out.ends_with("// end") {
                self.out.push_str(" \\");
            }
        }
    }
}

pub struct Text {
    pub text: String,
    pub tree: Tree,
    pub labels: Vec<&'static str>,
}

pub fn document(s: &mut Src) -> Text {
    let st = Style::any(s);
    document_styled(s, st)
}

pub fn document_styled(s: &mut Src, st: Style) -> Text {
    let tree = if s.chance(1, 40) { vec![] } else { gen_tree::tree(s) };
    let mut r = Ren::new(s, st);
    r.document(&tree);
    let (text, labels) = (r.out, r.labels);
    Text { text, tree, labels }
}
