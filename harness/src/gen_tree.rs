//! Generators for document content (no formatting).

use crate::engine::Src;
use crate::tree::{TEntry, TNode, Tree, Val};

pub const WORDS: &[&str] = &[
    "a", "b", "node", "x", "foo", "-", "+", ".", "--", "-a", "+a", ".a", "-.", "+.a", "é", "日本", "🦀", "r", "a.b",
    "a-b", "a+1", "_1", "<x>", "x,y", "true1", "nullable", "infx", "$%^&*", "~!@", "'", "?", "|", ":", "`", "-infx", "+inf", "kdl-version",
];

pub const TRICKY: &[&str] = &[
    "", "true", "false", "null", "inf", "-inf", "nan", "1", "-1", "+1", ".5", "-.5", "+.5", "1a", "0x1f", "a b", "a\tb",
    "a=b", "a/b", "//", "/*", "*/", "/-", "{", "}", "(t)", ";", "#", "\"", "\"\"\"", "\\", "\\n", "a\nb", "\n", "\r\n", "\r",
    "a\n", "\na", " ", "  lead", "trail  ", "\u{85}", "\u{2028}", "\u{2029}", "\u{b}", "\u{c}", "\u{feff}", "\u{0}", "\u{7f}", "\u{1b}",
    "\u{200e}", "\u{202a}", "\u{2066}", "\u{a0}", "\u{3000}", "[a]", "#true", "r\"x\"", "r#\"x\"#", "\u{8}", "\u{10ffff}", "\u{80}", "\\u{41}", "'q'", "\"#", "=", "a\\/b",
    "\\\\", "\"\n\"", "\\\"", "x\ny\n  z", "  \n  ", "#inf", "*", "/", "-//", "+#", ".\"", "-0", "--1", "-.", "+-5", "+.x5", "-a1", "..5", "-e5", "\u{ad}", "a\u{301}",
];

const CHARS: &[char] = &[
    'a', 'b', 'c', 'z', 'A', '0', '1', '9', '-', '+', '.', '_', ' ', '\t', '\n', '\r', '"', '\\', '/', '*', '#', '(', ')', '{', '}', '[', ']', ';',
    '=', ',', '<', '>', ':', '\'', 'r', 'u', 'n', 'e', 'x', 'é', '日', '🦀', '\u{a0}', '\u{1680}', '\u{2003}', '\u{202f}', '\u{3000}', '\u{85}',
    '\u{b}', '\u{c}', '\u{2028}', '\u{2029}', '\u{8}', '\u{1b}', '\u{7f}', '\u{0}', '\u{200e}', '\u{200f}', '\u{202a}', '\u{202e}', '\u{2066}',
    '\u{2069}', '\u{feff}', '\u{e000}', '\u{10ffff}', '\u{200b}', '\u{1f}', '\u{e}',
];

pub fn chars_string(s: &mut Src, max: u32) -> String {
    let mut out = String::new();
    let mut n = 0;
    while n < max && s.chance(5, 7) {
        if s.chance(1, 24) {
            // any scalar value
            let c = char::from_u32(s.below(0x11_0000)).unwrap_or('\u{fffd}');
            out.push(c);
        } else {
            out.push(*s.pick(CHARS));
        }
        n += 1;
    }
    out
}

/// Any string.
pub fn string(s: &mut Src) -> String {
    match s.weighted(&[160, 160, 100, 20, 3]) {
        0 => s.pick(WORDS).to_string(),
        1 => s.pick(TRICKY).to_string(),
        2 => chars_string(s, 14),
        4 => {
            // long
            let mut o = chars_string(s, 4);
            let x = if s.chance(1, 2) { s.pick(TRICKY) } else { s.pick(WORDS) };
            for _ in 0..s.range(4, 90) {
                o.push_str(x);
            }
            o + &chars_string(s, 4)
        }
        _ => {
            let mut o = String::new();
            for _ in 0..s.range(2, 4) {
                if s.chance(1, 2) {
                    o.push_str(s.pick(TRICKY));
                } else {
                    o.push_str(s.pick(WORDS));
                }
            }
            o
        }
    }
}

pub fn name(s: &mut Src) -> String {
    if s.chance(3, 10) { string(s) } else { s.pick(WORDS).to_string() }
}

pub fn int(s: &mut Src) -> i128 {
    match s.weighted(&[6, 3, 3, 2, 3]) {
        0 => s.below(20) as i128,
        1 => -(s.below(300) as i128),
        2 => {
            *s.pick(&[
                i64::MAX as i128,
                i64::MIN as i128,
                i64::MAX as i128 + 1,
                i64::MIN as i128 - 1,
                u64::MAX as i128,
                u64::MAX as i128 + 1,
                i128::MAX,
                i128::MIN,
                i128::MIN + 1,
                i128::MAX - 1,
                1 << 53,
                (1 << 53) + 1,
                i32::MAX as i128,
                i32::MIN as i128,
                255,
                256,
                -128,
                -129,
                65535,
                65536,
            ])
        }
        3 => s.u64() as i64 as i128,
        _ => {
            let v = ((s.u64() as u128) << 64 | s.u64() as u128) as i128;
            v >> s.below(127)
        }
    }
}

pub fn float(s: &mut Src) -> f64 {
    match s.weighted(&[4, 4, 4, 3]) {
        0 => *s.pick(&[0.0, 1.0, 0.5, 1.5, -2.25, 100.0]),
        1 => {
            *s.pick(&[
                -0.0,
                f64::INFINITY,
                f64::NEG_INFINITY,
                f64::NAN,
                f64::MAX,
                f64::MIN,
                f64::MIN_POSITIVE,
                5e-324,
                1e16,
                1e15,
                1e-5,
                1e-4,
                1e21,
                1e22,
                1e100,
                1e300,
                -1e300,
                1e-300,
                123456789.123456789,
                9007199254740993.0,
                1e38,
                1e39,
                -1e40,
                f32::MAX as f64,
                f32::MIN_POSITIVE as f64,
                0.1,
                0.30000000000000004,
                1.7976931348623157e308,
                2.2250738585072014e-308,
            ])
        }
        2 => f64::from_bits(s.u64()),
        _ => {
            let m = s.below(2_000_000) as f64 - 1_000_000.0;
            m / 10f64.powi(s.below(12) as i32)
        }
    }
}

pub fn val(s: &mut Src) -> Val {
    match s.weighted(&[8, 6, 5, 3, 2]) {
        0 => Val::Str(string(s)),
        1 => Val::Int(int(s)),
        2 => Val::Float(float(s)),
        3 => Val::Bool(s.chance(1, 2)),
        _ => Val::Null,
    }
}

pub fn entry(s: &mut Src) -> TEntry {
    let val = val(s);
    TEntry {
        name: if s.chance(2, 5) { Some(name(s)) } else { None },
        ty: if s.chance(1, 6) { Some(name(s)) } else { None },
        val,
    }
}

pub fn node(s: &mut Src, depth: u32) -> TNode {
    let name_ = name(s);
    let mut entries = vec![];
    while entries.len() < 6 && s.chance(1, 2) {
        entries.push(entry(s));
    }
    if s.chance(1, 80) {
        many_entries(s, &mut entries);
    }
    let ty = if s.chance(1, 6) { Some(name(s)) } else { None };
    let children = if depth > 0 && s.chance(1, 3) { Some(nodes(s, depth - 1)) } else { None };
    TNode { ty, name: name_, entries, children }
}

/// More arguments and properties than usual, with repeated names.
fn many_entries(s: &mut Src, entries: &mut Vec<TEntry>) {
    for i in 0..s.range(6, 70) {
        let name = if s.chance(1, 3) { Some(s.pick(&["a", "b", "x", "é", "-"]).to_string()) } else { None };
        entries.push(TEntry { name, ty: None, val: Val::Int(i as i128) });
    }
}

pub fn nodes(s: &mut Src, depth: u32) -> Tree {
    let mut v = vec![];
    while v.len() < 6 && s.chance(5, 9) {
        v.push(node(s, depth));
    }
    if s.chance(1, 160) {
        // many
        for i in 0..s.range(6, 70) {
            let entries = if s.chance(1, 4) { vec![TEntry { name: None, ty: None, val: Val::Int(i as i128) }] } else { vec![] };
            v.push(TNode { ty: None, name: s.pick(WORDS).to_string(), entries, children: None });
        }
    }
    if depth > 0 && s.chance(1, 100) {
        // deep
        let mut n = node(s, 0);
        for _ in 0..s.range(4, 16) {
            let mut c = vec![n];
            if s.chance(1, 4) {
                c.push(TNode { ty: None, name: "x".into(), entries: vec![], children: None });
            }
            n = TNode { ty: None, name: s.pick(WORDS).to_string(), entries: vec![], children: Some(c) };
        }
        v.push(n);
    }
    v
}

pub fn tree(s: &mut Src) -> Tree {
    let d = s.range(0, 4);
    let mut t = nodes(s, d);
    if t.is_empty() {
        t.push(node(s, d));
    }
    t
}
