//! Text that is close to KDL: mutated valid documents and token soup.

use crate::engine::Src;
use crate::gen_text;

pub const TOKENS: &[&str] = &[
    "a", " ", "\n", ";", "{", "}", "(", ")", "=", "/-", "//", "/*", "*/", "\\", "\"", "\"\"\"", "#", "#\"", "\"#", "1", "-", "+", ".", "0x", "e", "_",
    "#true", "#null", "inf", "-inf", "nan", "true", "\\n", "\\u{", "\t", "\r", "\r\n", "b", "é", "🦀", "\u{feff}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}",
    "\u{a0}", "[", "]", "/", "*", "1.5", "0b1", "0o7", "-1", "\"x\"", "(t)", "a=1", "{}", "r\"", "r#\"", "\u{7f}", "\u{0}", "\u{200e}", ",", "<", "##", "\"\"", "#inf",
    "#-inf", "\\\n", "\\ ", "\\s", "\\/", "x y", "/-{}", "\u{2029}", "\u{3000}", "null", "false", "1e5", "1_000", "0xff", "\u{1f}",
];

pub fn soup(s: &mut Src, max: u32) -> String {
    let mut o = String::new();
    let mut n = 0;
    while n < max && s.chance(9, 10) {
        o.push_str(s.pick(TOKENS));
        n += 1;
    }
    o
}

fn boundary(s: &mut Src, t: &str) -> usize {
    let mut i = s.below(t.len() as u32 + 1) as usize;
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutate(s: &mut Src, mut t: String) -> String {
    let n = s.range(1, 3);
    for _ in 0..n {
        let i = boundary(s, &t);
        match s.below(10) {
            0 => {
                // delete one character
                if let Some(c) = t[i..].chars().next() {
                    t.replace_range(i..i + c.len_utf8(), "");
                }
            }
            1 => t.insert_str(i, s.pick(TOKENS)),
            2 => {
                if let Some(c) = t[i..].chars().next() {
                    t.replace_range(i..i + c.len_utf8(), s.pick(TOKENS));
                }
            }
            3 => t.truncate(i),
            4 => {
                // duplicate a slice
                let j = boundary(s, &t);
                let (a, b) = (i.min(j), i.max(j));
                if b - a < 40 {
                    let x = t[a..b].to_string();
                    t.insert_str(b, &x);
                }
            }
            5 => {
                // another character of the same kind
                if let Some(c) = t[i..].chars().next() {
                    let d = match c {
                        'a'..='z' => c.to_ascii_uppercase(),
                        'A'..='Z' => c.to_ascii_lowercase(),
                        '0'..='9' => *s.pick(&['0', '1', '7', '8', '9', '_', '٣', '５', '²', 'f', 'g', 'e', 'E', '.', '-', '+']),
                        '"' => *s.pick(&['\'', '“', '`', '#']),
                        '#' => *s.pick(&['＃', '"', 'r']),
                        '=' => *s.pick(&['＝', '﹦', '🟰', ':', '≠']),
                        '-' => *s.pick(&['+', '–', '−', '\u{ad}', '_']),
                        '(' => *s.pick(&['[', '{', '（']),
                        ')' => *s.pick(&[']', '}', '）']),
                        '{' => *s.pick(&['(', '[', '｛']),
                        '}' => *s.pick(&[')', ']', '｝']),
                        '/' => *s.pick(&['\\', '*', '-', '／']),
                        '\\' => *s.pick(&['/', '＼']),
                        ' ' | '\t' => *s.pick(&['\u{a0}', '\u{200b}', '\u{180e}', '\u{2060}', '\u{202f}', '\u{feff}', '\n', '\u{1c}', '\u{3000}']),
                        '\n' | '\r' => *s.pick(&['\r', '\n', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', ' ', '\u{1e}', '\u{2424}']),
                        ';' => *s.pick(&[':', ',', ';', '；']),
                        _ => char::from_u32(s.below(0x11_0000)).unwrap_or('\u{fffd}'),
                    };
                    t.replace_range(i..i + c.len_utf8(), d.encode_utf8(&mut [0; 4]));
                }
            }
            6 => {
                // any character at all
                let c = if s.chance(1, 2) { char::from_u32(s.below(0x300)) } else { char::from_u32(s.below(0x11_0000)) };
                t.insert(i, c.unwrap_or('\u{2026}'));
            }
            7 => {
                // a slice goes somewhere else
                let j = boundary(s, &t);
                let (a, b) = (i.min(j), i.max(j));
                if b - a < 30 {
                    let x = t[a..b].to_string();
                    t.replace_range(a..b, "");
                    let k = boundary(s, &t);
                    t.insert_str(k, &x);
                }
            }
            8 => {
                // one token over and over
                if s.chance(1, 4) {
                    let x = s.pick(TOKENS);
                    let k = s.range(2, 40) as usize;
                    t.insert_str(i, &x.repeat(k));
                }
            }
            _ => {
                // delete a slice
                let j = boundary(s, &t);
                let (a, b) = (i.min(j), i.max(j));
                if b - a < 30 {
                    t.replace_range(a..b, "");
                }
            }
        }
    }
    t
}

/// A document in which one piece comes many times in a row. Whether the result
/// is KDL is for the reference parser to say.
pub fn repeated(s: &mut Src) -> String {
    const RUNS: &[(&str, &str, &str)] = &[
        ("a", " 1", ""), ("a", " /-1", ""), ("a", " /-1", " 2\nb"), ("a", " /-k=1", " j=2"), ("a", " k=1", ""), ("a", " /-{}", ""), ("a", " /-{}", " {}"),
        ("a {}", " /-{}", ""), ("a {\n", "b\n", "}"), ("a {", "b;", "}"), ("", "a;", ""), ("", "a\n", ""), ("", "/-a\n", "b"), ("", "/-a;", "b"), ("", "/- a {}\n", ""),
        ("a\n", "\n", "b"), ("", "\n", "b"), ("", "\r\n", "b"), ("", "// c\n", "a"), ("a // x\n", "// c\n", "b"), ("a {\n", "// c\n", "}"), ("a ", "/* c */", " 1"), ("a ", "/**/ ", "1"),
        ("a /*", "*", "*/ 1"), ("a ", "/*", "*/"), ("a", " ", "1"), ("a", "\t", "1"), ("a", "\u{3000}", "1"), ("a 1", " ", "\nb"), ("a", " \\\n", " 1"), ("a 1", " \\\n", ""), ("a \\", " ", "\n1"),
        ("a (", " ", "t)1"), ("a (t", " ", ")1"), ("a (t)", " ", "1"), ("(t)", " ", "a"), ("a k", " ", "=1"), ("a k=", " ", "1"), ("a k=(t)", " ", "1"), ("a", " ", "{}"), ("a {}", " ", ";b"),
        ("a ", "b", ""), ("", "é", ""), ("a \"", "b", "\""), ("a \"", "\\n", "\""), ("a \"", "\\\\", "\""), ("a \"", "\\\"", "\""), ("a \"", "\\u{e9}", "\""), ("a \"", "é", "\""), ("a \"b\\", " ", "c\""),
        ("a \"b\\", "\n", "c\""), ("a \"", "\\ ", "\""), ("a \"", "b\\\n ", "\""), ("a \"", " ", "\""), ("a #\"", "\" ", "\"#"), ("a #\"", "b", "\"#"), ("a #\"", "\\", "\"#"), ("a ##\"", "\"# ", "\"##"),
        ("a \"\"\"\n", "b\n", "\"\"\""), ("a \"\"\"\n", "\n", "\"\"\""), ("a \"\"\"\n", "  b\n", "  \"\"\""), ("a \"\"\"\n", "  b\n\n", "  \"\"\""), ("a \"\"\"\n b", "\\\n ", "c\n \"\"\""), ("a \"\"\"\n", "\"\" ", "\n\"\"\""),
        ("a #\"\"\"\n", "b\n", "\"\"\"#"), ("a #\"\"\"\n", "\n", "\"\"\"#"), ("a #\"\"\"\n", "\t\"\"\n", "\t\"\"\"#"), ("a ##\"\"\"\n", " \"\"\"#\n", " \"\"\"##"),
        ("a 0.", "0", "1"), ("a 0.", "1", ""), ("a 1", "_", "0"), ("a ", "0", "1"), ("a 1", "_0", ".5"), ("a 1.0", "_", ""), ("a 1e", "0", "1"), ("a 1e-", "0", "2"), ("a 0x", "0", "f"), ("a 0b", "0", "1"), ("a 0o", "0", "7"),
        ("a 0x0", "_", "f"), ("a 0b", "1_", "1"), ("a 0.1", "_", "e5"), ("a 0.", "3_", "1e1"), ("", "-", ""), ("a ", "+", ""), ("a ", ".", ""), ("\u{feff}", "\u{feff}", "a"), ("a", ";", ""), ("a {}", "}", ""),
        ("a {", "", "}"), ("\u{feff}", "\n", "a"), ("a ", "1", ""), ("a", "=", "1"), ("a (t)", "(t)", "1"), ("a #", "#", ""), ("a k=1", "\u{a0}", "\n"), ("/-", " ", "a"), ("/-", "\n", "a\nb"), ("a /-", "\n", "1 2"), ("a /-", " ", "{}"), ("/-", "/-", "a"),
    ];
    let n = match s.below(6) {
        0 => s.range(2, 8),
        1..=3 => s.range(9, 40),
        4 => s.range(41, 140),
        _ => s.range(250, 290),
    } as usize;
    match s.below(8) {
        // nothing is known about the piece
        0 | 1 => {
            let t = if s.chance(1, 2) { targeted(s) } else { gen_text::document(s).text };
            let i = boundary(s, &t);
            let mut j = i + s.range(1, 8) as usize;
            j = j.min(t.len());
            while !t.is_char_boundary(j) {
                j += 1;
            }
            format!("{}{}{}", &t[..i], t[i..j].repeat(n), &t[j..])
        }
        // both sides of something at once
        2 => {
            let n = n.min(40);
            let (pre, open, mid, close, suf) = *s.pick(&[
                ("", "a {", "", "}", ""), ("", "a {\n", "b\n", "}\n", ""), ("a ", "/*", " x ", "*/", " 1"), ("a ", "#", "\"x\"", "#", ""), ("", "#", "\"x\"", "#", " 1"), ("a ", "#", "\"\"\"\n x\n \"\"\"", "#", ""), ("", "/-a {", "", "}", "\nb"),
                ("a \"\"\"\n", " ", "x\n", " ", "\"\"\""), ("a \"\"\"\n", "\t", "x\n\n", "\t", "\"\"\""), ("a #\"\"\"\n", " ", "x\n", " ", "\"\"\"#"), ("a (", " ", "t", " ", ")1"), ("a k", " ", "=", " ", "1"), ("a ", "#", "\"x", "\" ", "\"#"),
            ]);
            let m = if s.chance(1, 6) { n + 1 - s.below(3) as usize } else { n };
            format!("{pre}{}{mid}{}{suf}", open.repeat(n), close.repeat(m))
        }
        k => {
            let (pre, unit, suf) = *s.pick(RUNS);
            let t = format!("{pre}{}{suf}", unit.repeat(n));
            if k == 3 { mutate(s, t) } else { t }
        }
    }
}

pub fn text(s: &mut Src) -> String {
    match s.weighted(&[3, 5, 2, 1, 3]) {
        0 => soup(s, 14),
        1 => {
            let t = gen_text::document(s).text;
            mutate(s, t)
        }
        2 => {
            let t = s.pick(crate::corpus::v2()).text.clone();
            mutate(s, t)
        }
        3 => crate::gen_tree::chars_string(s, 30),
        _ => targeted(s),
    }
}

/// The tokens that bounded-exhaustive enumeration combines.
pub const ENUM: &[&str] = &[
    "a", " ", "\n", "1", "\"", "{", "}", "/-", "=", "(", ")", "\\", ";", "#", "//", "/*", "*/", "-", ".", "#true", "\"\"\"", "0x",
];

pub fn enum_count(max_len: u32) -> u64 {
    (0..=max_len).map(|k| (ENUM.len() as u64).pow(k)).sum()
}

/// The `i`-th token sequence, shortest first.
pub fn enumerated(mut i: u64) -> String {
    let n = ENUM.len() as u64;
    let mut len = 0;
    while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
    }
    let mut o = String::new();
    for _ in 0..len {
        o.push_str(ENUM[(i % n) as usize]);
        i /= n;
    }
    o
}

// ---- texts built around one doubtful token ----

fn of_chars(s: &mut Src, alphabet: &[char], min: u32, max: u32) -> String {
    let n = s.range(min, max);
    (0..n).map(|_| *s.pick(alphabet)).collect()
}

/// Any character, with the ones the grammar singles out drawn often.
pub fn any_char(s: &mut Src) -> char {
    match s.below(6) {
        0 | 1 => char::from_u32(s.range(0x20, 0x7e)),
        2 => char::from_u32(s.below(0x300)),
        3 => Some(*s.pick(&[
            '\u{0}', '\u{8}', '\u{e}', '\u{1f}', '\u{7f}', '\u{200e}', '\u{200f}', '\u{202a}', '\u{202e}', '\u{2066}', '\u{2069}', '\u{feff}', '\u{200d}',
            '\u{2010}', '\u{2027}', '\u{202f}', '\u{205f}', '\u{2060}', '\u{2065}', '\u{206a}', '\u{180e}', '\u{1680}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{fffe}',
            '\u{ffff}', '\u{10ffff}', '\u{a0}', '\u{85}', '\u{2028}', '\u{2029}', '\u{b}', '\u{c}',
        ])),
        4 => char::from_u32(s.range(0x2000, 0x206f)),
        _ => char::from_u32(s.below(0x11_0000)),
    }
    .unwrap_or('\u{fffd}')
}

fn unicode_escape(s: &mut Src) -> String {
    let v = match s.below(7) {
        0 => s.range(0xd800, 0xdfff),
        1 => *s.pick(&[0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000]),
        2 => *s.pick(&[0x10_ffff, 0x11_0000, 0x11_0001, 0xff_ffff, 0x1f_ffff]),
        3 => s.range(0x11_0000, 0xff_ffff),
        4 => s.below(0x80),
        _ => s.below(0x11_0000),
    };
    let mut h = match s.below(5) {
        0 => format!("{v:X}"),
        1 => format!("{v:06x}"),
        2 => format!("{v:07x}"),
        _ => format!("{v:x}"),
    };
    if s.chance(1, 8) {
        h = of_chars(s, &['0', '1', 'a', 'F', 'g', '_', ' ', '-', '+', '８', '٣'], 0, 8);
    }
    match s.below(14) {
        0 => format!("\\u{{{h}"),
        1 => format!("\\u{h}"),
        2 => format!("\\u({h})"),
        3 => format!("\\U{{{h}}}"),
        4 => format!("\\u{h}}}"),
        5 => format!("\\u {{{h}}}"),
        _ => format!("\\u{{{h}}}"),
    }
}

fn escape(s: &mut Src) -> String {
    match s.below(3) {
        0 => unicode_escape(s),
        1 => format!("\\{}", any_char(s)),
        _ => s.pick(&["\\n", "\\s", "\\ ", "\\\n", "\\\\", "\\\"", "\\/", "\\b", "\\f", "\\r", "\\t", "\\x41", "\\0", "\\'", "\\a", "\\v", "\\e", "\\S", "\\N", "\\ \n ", "\\\r\n\t"]).to_string(),
    }
}

fn string_body(s: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..s.below(5) {
        match s.below(5) {
            0 => o.push_str(&escape(s)),
            1 => o.push(any_char(s)),
            2 => o.push_str(s.pick(&[" ", "a", "é", "{", "#", "\"", "\"\"", "//", "/*", "=", "\n"])),
            _ => o.push(*s.pick(&['a', 'b', 'x', ' '])),
        }
    }
    o
}

fn quoted_like(s: &mut Src) -> String {
    let b = string_body(s);
    match s.below(12) {
        0 => format!("\"{b}"),
        1 => format!("{b}\""),
        2 => format!("\"{b}\"#"),
        3 => format!("'{b}'"),
        _ => format!("\"{b}\""),
    }
}

fn raw_like(s: &mut Src) -> String {
    let a = s.range(0, 4) as usize;
    let z = if s.chance(2, 3) { a } else { s.range(0, 4) as usize };
    let q = if s.chance(1, 3) { "\"\"\"" } else { "\"" };
    let b = if q.len() == 3 { lines_body(s) } else { string_body(s) };
    let r = if s.chance(1, 20) { "r" } else { "" };
    format!("{r}{}{q}{b}{q}{}", "#".repeat(a), "#".repeat(z))
}

/// What may stand between triple quotes: lines with prefixes that nearly agree.
fn lines_body(s: &mut Src) -> String {
    let p = of_chars(s, &[' ', '\t', '\u{a0}', '\u{3000}'], 0, 3);
    let nl = |s: &mut Src| s.pick(&["\n", "\n", "\n", "\r\n", "\r", "\u{85}", "\u{b}", "\u{c}", "\u{2028}", "\u{2029}"]).to_string();
    let mut o = String::new();
    match s.below(14) {
        0 => o.push_str(s.pick(&["a", " ", "\\\n", "\\ \n", "\"", "\\n"])),
        _ => o.push_str(&nl(s)),
    }
    for _ in 0..s.below(4) {
        match s.below(9) {
            0 => {
                let q = of_chars(s, &[' ', '\t', '\u{a0}'], 0, 3);
                o.push_str(&q);
            }
            1 => o.push_str("\\ "),
            2 => {
                o.push_str("\\\n");
            }
            _ => o.push_str(&p),
        }
        match s.below(8) {
            0 => o.push_str(&escape(s)),
            1 => {}
            2 => o.push_str("\"\""),
            3 => o.push(any_char(s)),
            4 => o.push_str(" "),
            _ => o.push_str("a b"),
        }
        o.push_str(&nl(s));
    }
    match s.below(12) {
        0 => {
            let q = of_chars(s, &[' ', '\t'], 0, 3);
            o.push_str(&q);
        }
        1 => {
            o.push_str(&p);
            o.push_str(s.pick(&["a", "\\ ", "\\s", "\"", "\\\n", "\\t"]));
        }
        _ => o.push_str(&p),
    }
    o
}

fn multi_like(s: &mut Src) -> String {
    let b = lines_body(s);
    let a = *s.pick(&["\"\"\"", "\"\"\"", "\"\"\"", "\"\"\"", "\"\"", "\"\"\"\""]);
    let z = *s.pick(&["\"\"\"", "\"\"\"", "\"\"\"", "\"\"\"", "\"\"", "\"\"\"\"", ""]);
    format!("{a}{b}{z}")
}

fn number_like(s: &mut Src) -> String {
    let sign = *s.pick(&["", "", "", "-", "+", "--", "+-", "−"]);
    match s.below(5) {
        0 => {
            let body = of_chars(s, &['0', '1', '9', '_', '.', 'e', 'E', '+', '-', 'a', 'x', 'b', 'o', 'f', '7', '٣', '５'], 0, 7);
            format!("{sign}{}{body}", s.pick(&["1", "0", ".", "", ".0"]))
        }
        1 => {
            let body = of_chars(s, &['0', '1', '_', '7', '8', 'a', 'F', 'g', '.', '-', '+', '2', 'e'], 0, 6);
            format!("{sign}{}{body}", s.pick(&["0x", "0b", "0o", "0x", "00x", "x", "0_x", "1x", "0d"]))
        }
        2 => {
            let a = of_chars(s, &['0', '1', '9', '_'], 0, 4);
            let b = of_chars(s, &['0', '1', '9', '_'], 0, 4);
            let c = of_chars(s, &['0', '1', '_'], 0, 3);
            format!("{sign}{a}{}{b}{}{c}", s.pick(&[".", "", "..", "._"]), s.pick(&["", "e", "E", "e+", "e-", "E_", "e+-", "e.", "f"]))
        }
        3 => format!("{sign}{}", of_chars(s, &['0', '1', '2', '3', '9', '_'], 1, 12)),
        _ => format!("{sign}{}{}", s.pick(&["1", "0", "1.5", "0x1", "inf", "1e3", "0b1"]), s.pick(&["a", "px", "\"x\"", "#true", "(a)", "/**/", "\\", "_", ".", "#", "e", "-", "=1", "{", "}", ";", "", " "])),
    }
}

fn word_like(s: &mut Src) -> String {
    match s.below(5) {
        0 => {
            let n = s.range(1, 4);
            (0..n).map(|_| if s.chance(1, 2) { any_char(s) } else { 'a' }).collect()
        }
        1 => {
            let k = s.pick(&["true", "false", "null", "inf", "-inf", "nan", "TRUE", "Null", "-nan", "+inf", "infinity", "NaN", "tru", "true_", "nul", "1"]).to_string();
            format!("{}{k}{}", s.pick(&["#", "#", "", "##"]), s.pick(&["", "", "", "e", "1", "#", "\"", "=1", "-"]))
        }
        2 => of_chars(s, &['-', '+', '.', '0', '1', 'a', '_', 'e'], 1, 4),
        3 => {
            let x = of_chars(s, &['a', '-', 'é', '_', '1'], 1, 3);
            format!("{x}{}", s.pick(&["\"", "#", "\"x\"", "\\", "/", "/*x*/", "//x", ",", "'", "=", "[", "]", "<", ">", "|", "&", "%", "@", "!", "?", "~", "`", "$", "^", "*", ":", "/-"]))
        }
        _ => {
            let k = s.pick(&["true", "false", "null", "inf", "-inf", "nan"]);
            format!("{k}{}", s.pick(&["", "a", "-", "1", "."]))
        }
    }
}

pub fn space_like(s: &mut Src) -> String {
    match s.below(8) {
        0 => format!("/*{}*/", s.pick(&["", "*", "/", "/*", "/**/", "/* */ */", "\n", "a", "*/", "//"])),
        1 => format!("\\{}{}{}", s.pick(&["", " ", "/**/", "\t \u{a0}"]), s.pick(&["", "", "// x", "/*\n*/", "a", "\\"]), s.pick(&["\n", "\n", "\r\n", "\u{2028}", "", " "])),
        2 => format!("//{}{}", s.pick(&["", "x", "/*", "\\", "\"", "/-"]), s.pick(&["\n", "\r", "\u{c}", ""])),
        3 => any_char(s).to_string(),
        4 => format!("/-{}", s.pick(&["", " ", "\n", "\\\n", "/**/", "//x\n", "/-", ";", "}", "{}", "(t)", "=1"])),
        _ => s.pick(&[" ", "\t", "\u{a0}", "\n", ";", "; ;", "\r\n"]).to_string(),
    }
}

fn type_like(s: &mut Src) -> String {
    let w = token_like(s, false);
    let (a, b) = (space0(s), space0(s));
    match s.below(10) {
        0 => format!("({a}{w}{b}"),
        1 => "()".into(),
        2 => format!("({w} {w})"),
        3 => format!("(({w}))"),
        4 => format!("({w})({w})"),
        _ => format!("({a}{w}{b})"),
    }
}

fn space0(s: &mut Src) -> String {
    if s.chance(1, 4) { space_like(s) } else { String::new() }
}

pub fn token_like(s: &mut Src, types: bool) -> String {
    match s.below(if types { 13 } else { 11 }) {
        0 | 1 => quoted_like(s),
        2 | 3 => multi_like(s),
        4 => raw_like(s),
        5 | 6 => number_like(s),
        7 | 8 => word_like(s),
        9 => s.pick(&["a", "\"a\"", "1", "#true"]).to_string(),
        10 => "a".into(),
        _ => {
            let t = type_like(s);
            let sp = space0(s);
            let w = token_like(s, false);
            format!("{t}{sp}{w}")
        }
    }
}

/// A small document in which mostly one token is out of the ordinary.
pub fn targeted(s: &mut Src) -> String {
    let before = *s.pick(&["", "", "", "a 1\n", "p {\n", "a b {}; ", "/-c\n", "\u{feff}", "p { q "]);
    let after = *s.pick(&["", "", "", "\nb 2\n", "\n}", "; b", " 1", " k=1", " {}", "}", "\n", " {\n c\n}\n"]);
    let tok = match s.below(10) {
        0 | 1 => token_like(s, true),
        2 | 3 | 4 => {
            let w = token_like(s, true);
            format!("n {w}")
        }
        5 => {
            let (k, w) = (token_like(s, false), token_like(s, true));
            if s.chance(1, 2) { format!("n k={w}") } else { format!("n {k}=1") }
        }
        6 => {
            let (a, b, c) = (space_like(s), space0(s), space0(s));
            s.pick(&["n{a}1", "n {a}1", "n{a}{}", "n k{a}={b}1", "{a}n", "n 1{a}", "n({t}){a}1", "({t}){a}n", "({a}t{b})n", "n ({a}t{b}){c}1", "n {}{a}", "n /-1{a}2", "n /-{a}1", "n{a}/-1{b}{}"])
                .replace("{a}", &a)
                .replace("{b}", &b)
                .replace("{c}", &c)
                .replace("{t}", "t")
        }
        7 => {
            let (a, b, c) = (token_like(s, true), space0(s), token_like(s, true));
            format!("n {a}{b}{c}")
        }
        8 => {
            let w = token_like(s, true);
            format!("n /-{w}")
        }
        _ => {
            let mut o = String::from("n");
            for _ in 0..s.range(1, 6) {
                o.push_str(s.pick(&[" ", " /-", " 1", " k=1", " {}", " {\n}", "/-", "{", "}", " /-{}", "/-{ a; }", " (t)", "(t)", "=", " = ", "\\\n", "\n", ";", " /*x*/", " a", "\"a\"", " /-k=1"]));
            }
            o
        }
    };
    format!("{before}{tok}{after}")
}
