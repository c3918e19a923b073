//! serde: round trips (P19), deserialization (P20), serialization (P21) and
//! errors (P22), over types made at run time.

use super::Prop;
use crate::dynser::{self, Dyn, EnumSch, FIELD_NAMES, INTS, Sch, Ser, StructSch, V, VARIANTS, Var, names, some_names, with_root};
use crate::engine::{Case, Part, Res, Src, fail};
use crate::ensure;
use crate::gen_text::{Ren, Style};
use crate::gen_tree;
use crate::mutate;
use crate::tree::{self, TEntry, TNode, Tree, Val};
use kdl::KdlDocument;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P19",
            rule: "Random types (structs with plain and renamed fields, maps, sequences, tuples, options, newtypes, enums of every kind of variant, all scalars, nested up to three levels) and random values of them are serialized and read back. Non-trivial: at least three scalars.",
            assumptions: &[
                "Types are made at run time; their serde calls are those of the derives, which a part of the check compares with derived types.",
                "What the data model cannot tell apart is not generated: optional sequences and maps that are empty, flags that are false at the top level, top-level scalars and unit variants, sequences of structs inside a node (an error), renamed fields in nested struct variants.",
            ],
            parts: || vec![Part::random("dynamic-types", 700_000, 14_000_000, p19), Part::random("derived-types", 60_000, 1_000_000, p19_derived), Part::all("fixed", |_| 5, p19_fixed)],
        },
        Prop {
            id: "P20",
            rule: "A random type and value are written as KDL content in every documented way (flags, arguments, properties, child nodes, repeated nodes, `#` renames, type annotations, unknown and overridden properties), rendered in a random style, and deserialized; or one place of it is made wrong. Non-trivial: at least three scalars.",
            assumptions: &["Types are made at run time; their serde calls are those of the derives."],
            parts: || {
                vec![
                    Part::random("by-construction", 300_000, 4_000_000, p20),
                    Part::random("self-describing", 150_000, 2_000_000, p20_any),
                    Part::random("wrong", 200_000, 3_000_000, p20_wrong),
                    Part::all("fixed", |_| 2, p20_fixed),
                ]
            },
        },
        Prop {
            id: "P21",
            rule: "Random types and values; the parsed output of to_string is compared with the shape that the documentation gives, computed by an independent model; types with parts that have no KDL form have to be refused. Non-trivial: at least three scalars.",
            assumptions: &["The position of properties among arguments and an empty child block are not judged."],
            parts: || vec![Part::random("shape", 900_000, 30_000_000, p21), Part::random("unsupported", 300_000, 8_000_000, p21_unsupported), Part::random("map-keys", 150_000, 3_000_000, p21_keys)],
        },
        Prop {
            id: "P22",
            rule: "Documents written for a random type with one unmistakably wrong scalar or variant somewhere, in a random style; and texts that are not KDL. Non-trivial: a wrong place was made, or the text was rejected.",
            assumptions: &["The wording of messages is not judged. Errors about what is missing carry no position."],
            parts: || vec![Part::random("wrong-value", 250_000, 4_000_000, p22), Part::random("not-kdl", 100_000, 1_500_000, p22_parse)],
        },
    ]
}

// ---- types ----

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// has to survive serialization, too
    Se,
    De,
}

fn unit_enum(s: &mut Src) -> Sch {
    let n = s.range(1, 3) as usize;
    let names = names(&some_names(s, VARIANTS, n));
    Sch::Enum(EnumSch { names, vars: vec![Var::Unit; n] })
}

/// Something a single KDL value can hold.
fn scalar(s: &mut Src) -> Sch {
    match s.weighted(&[5, 6, 4, 3, 1, 2, 2, 2]) {
        0 => Sch::Str,
        1 => Sch::Int(*s.pick(&INTS)),
        2 => Sch::Bool,
        3 => Sch::F64,
        4 => Sch::F32,
        5 => Sch::Char,
        6 => unit_enum(s),
        _ => Sch::New(Box::new(scalar(s))),
    }
}

/// A scalar that may be null.
fn arg(s: &mut Src) -> Sch {
    if s.chance(1, 4) { Sch::Opt(Box::new(scalar(s))) } else { scalar(s) }
}

fn args(s: &mut Src, lo: u32, hi: u32) -> Vec<Sch> {
    (0..s.range(lo, hi)).map(|_| arg(s)).collect()
}

fn field(s: &mut Src, d: u32, m: Mode) -> Sch {
    let deep = if d > 0 { 3 } else { 0 };
    match s.weighted(&[8, 4, 2, deep, deep + 1, deep, 3, 1, if m == Mode::De { deep } else { 0 }]) {
        0 => arg(s),
        1 => Sch::Seq(Box::new(arg(s)), 0),
        2 => Sch::Tup(args(s, 1, 3)),
        3 => Sch::Map(Box::new(field(s, d - 1, m))),
        4 => Sch::Struct(strukt(s, d.saturating_sub(1), m, true, 0)),
        5 => Sch::Enum(enumeration(s, d - 1, m, false)),
        6 => Sch::Opt(Box::new(opt_inner(s, d, m))),
        7 => Sch::New(Box::new(field(s, d, m))),
        _ => {
            if s.chance(1, 3) {
                Sch::Tup((0..s.range(1, 3)).map(|_| field(s, d - 1, m)).collect())
            } else {
                Sch::Seq(Box::new(field(s, d - 1, m)), 0)
            }
        }
    }
}

/// What an option can hold without looking like nothing.
fn opt_inner(s: &mut Src, d: u32, m: Mode) -> Sch {
    match s.below(if d > 0 { 5 } else { 2 }) {
        0 => scalar(s),
        1 => Sch::Seq(Box::new(scalar(s)), 1),
        2 => Sch::Tup((0..s.range(1, 3)).map(|_| scalar(s)).collect()),
        3 => Sch::Struct(strukt(s, d - 1, m, true, 1)),
        _ => Sch::Enum(enumeration(s, d - 1, m, false)),
    }
}

/// `special`: with renames like `#0`; `least`: number of plain fields.
fn strukt(s: &mut Src, d: u32, m: Mode, special: bool, least: usize) -> StructSch {
    let mut fs: Vec<(String, Sch)> = vec![];
    let n = if special { s.below(4) } else { s.range(1, 4) }.max(least as u32);
    for name in some_names(s, FIELD_NAMES, n as usize) {
        fs.push((name.to_string(), field(s, d, m)));
    }
    if special {
        let mut arg_count = 0;
        match s.below(4) {
            0 => {}
            1 => {
                let typed = m == Mode::De && s.chance(1, 8);
                let t = if s.chance(1, 6) { Sch::Tup(args(s, 1, 3)) } else { Sch::Seq(Box::new(arg(s)), typed as usize) };
                let t = match s.below(12) {
                    0 => Sch::New(Box::new(t)),
                    // nothing where there are no arguments
                    1 if !typed => Sch::Opt(Box::new(Sch::Seq(Box::new(arg(s)), 1))),
                    _ => t,
                };
                // (there is a first argument)
                if typed {
                    fs.push(("#0#type".into(), type_name(s)));
                }
                fs.push(("#args".into(), t));
            }
            k => {
                let k = if k == 2 { s.range(1, 3) } else { s.range(1, 4) };
                let rest = s.chance(1, 2);
                // now and then with indices of two digits
                let far = rest && s.chance(1, 16);
                let gaps = if far { s.range(9, 12) } else if rest && s.chance(1, 3) { s.range(1, 2) } else { 0 };
                let mut ix: Vec<u32> = (0..k + gaps).collect();
                while ix.len() > k as usize {
                    let i = s.below(ix.len() as u32) as usize;
                    ix.remove(i);
                }
                arg_count = k;
                let min = (*ix.iter().max().unwrap() + 1 - k) as usize;
                for i in 0..*ix.iter().max().unwrap() + 1 {
                    let named = ix.contains(&i);
                    if named {
                        fs.push((format!("#{i}"), arg(s)));
                    }
                    // (those in between are part of the rest, but have types, too)
                    if m == Mode::De && s.chance(1, if named { 6 } else { 9 }) {
                        fs.push((format!("#{i}#type"), type_name(s)));
                    }
                }
                if rest {
                    let t = Box::new(arg(s));
                    let optional = min == 0 && s.chance(1, 8);
                    fs.push(("#rest".into(), if optional { Sch::Opt(Box::new(Sch::Seq(t, 1))) } else { Sch::Seq(t, min) }));
                }
            }
        }
        let _ = arg_count;
        if s.chance(1, 2) {
            let n = s.range(1, 3) as usize;
            for p in some_names(s, FIELD_NAMES, n) {
                fs.push((format!("#@{p}"), arg(s)));
                if m == Mode::De && s.chance(1, 6) {
                    fs.push((format!("#@{p}#type"), type_name(s)));
                }
            }
        }
        if m == Mode::De && s.chance(1, 8) {
            fs.push(("#type".into(), type_name(s)));
        }
    }
    // any order
    for i in (1..fs.len()).rev() {
        let j = i - s.below(i as u32 + 1) as usize;
        fs.swap(i, j);
    }
    let fields = names(&fs.iter().map(|f| f.0.as_str()).collect::<Vec<_>>());
    StructSch { fields, types: fs.into_iter().map(|f| f.1).collect(), deny: s.chance(1, 3) }
}

fn type_name(s: &mut Src) -> Sch {
    let t = if s.chance(1, 3) { unit_enum(s) } else { Sch::Str };
    if s.chance(1, 3) { Sch::Opt(Box::new(t)) } else { t }
}

fn enumeration(s: &mut Src, d: u32, m: Mode, root: bool) -> EnumSch {
    let n = s.range(1, 4) as usize;
    let names = names(&some_names(s, VARIANTS, n));
    let vars = (0..n)
        .map(|_| match s.weighted(&[if root && m == Mode::Se { 0 } else { 3 }, 3, 2, 3]) {
            0 => Var::Unit,
            1 if m == Mode::De && d > 0 && s.chance(1, 2) => Var::New(field(s, d - 1, m)),
            1 => Var::New(arg(s)),
            2 if m == Mode::De && d > 0 && s.chance(1, 3) => Var::Tup((0..s.range(2, 3)).map(|_| field(s, d - 1, m)).collect()),
            2 => Var::Tup(args(s, 2, 3)),
            _ => Var::Struct(strukt(s, d, m, root || m == Mode::De, 0)),
        })
        .collect();
    EnumSch { names, vars }
}

fn root(s: &mut Src, m: Mode) -> Sch {
    let d = s.range(0, 3);
    match s.weighted(&[8, 3, 3, 1, 3, 1, 2]) {
        0 => Sch::Struct(strukt(s, d, m, false, 1)),
        1 => Sch::Map(Box::new(field(s, d, m))),
        2 => Sch::Seq(Box::new(field(s, d, m)), 0),
        3 => Sch::Tup((0..s.range(1, 3)).map(|_| field(s, d, m)).collect()),
        4 => Sch::Enum(enumeration(s, d, m, true)),
        5 => Sch::New(Box::new(Sch::Struct(strukt(s, d, m, false, 1)))),
        _ => Sch::Opt(Box::new(match s.below(3) {
            0 => Sch::Struct(strukt(s, d, m, false, 1)),
            1 => Sch::Map(Box::new(field(s, d, m))),
            _ => Sch::Enum(enumeration(s, d, m, true)),
        })),
    }
}

/// A top-level struct leaves out flags that are false and newtypes around
/// nothing, and cannot tell them when they are missing.
fn fix_root(sch: &Sch, v: &mut V) {
    fn present(sch: &Sch, v: &mut V, inside_new: bool) {
        match (sch, v) {
            (Sch::Bool, V::Bool(b)) => *b = true,
            (Sch::New(t), V::New(v)) => present(t, v, true),
            (Sch::Opt(t), v @ V::None) if inside_new => {
                // any value will do
                *v = V::Some(Box::new(dynser::value(&mut Src::replay(vec![]), t)));
            }
            _ => {}
        }
    }
    match (sch, v) {
        (Sch::New(t), V::New(v)) | (Sch::Opt(t), V::Some(v)) => fix_root(t, v),
        (Sch::Struct(st), V::Struct(vs)) => {
            for (t, v) in st.types.iter().zip(vs) {
                present(t, v, false);
            }
        }
        _ => {}
    }
}

/// How many scalars a value holds.
fn weight(v: &V) -> usize {
    match v {
        V::Some(v) | V::New(v) => weight(v),
        V::Seq(v) | V::Struct(v) => v.iter().map(weight).sum(),
        V::Enum(_, v) => 1 + v.iter().map(weight).sum::<usize>(),
        V::Map(m) => m.values().map(|v| 1 + weight(v)).sum(),
        _ => 1,
    }
}

fn labels(c: &mut Case, sch: &Sch) {
    match sch {
        Sch::Bool | Sch::Int(_) | Sch::F32 | Sch::F64 | Sch::Char | Sch::Str | Sch::Any => {}
        Sch::Opt(t) => {
            c.label("option");
            labels(c, t)
        }
        Sch::New(t) => {
            c.label("newtype");
            labels(c, t)
        }
        Sch::Seq(t, _) => {
            c.label("sequence");
            labels(c, t)
        }
        Sch::Tup(ts) => {
            c.label("tuple");
            ts.iter().for_each(|t| labels(c, t))
        }
        Sch::Map(t) => {
            c.label("map");
            labels(c, t)
        }
        Sch::Struct(st) => {
            c.label("struct");
            for (f, t) in st.fields.iter().zip(&st.types) {
                if *f == "#args" {
                    c.label("#args");
                } else if *f == "#rest" {
                    c.label("#rest");
                } else if f.ends_with("#type") {
                    c.label("#type");
                } else if f.starts_with("#@") {
                    c.label("#@name");
                } else if f.starts_with('#') {
                    c.label("#n");
                }
                labels(c, t)
            }
        }
        Sch::Enum(e) => {
            for v in &e.vars {
                match v {
                    Var::Unit => c.label("unit variant"),
                    Var::New(t) => {
                        c.label("newtype variant");
                        labels(c, t)
                    }
                    Var::Tup(ts) => {
                        c.label("tuple variant");
                        ts.iter().for_each(|t| labels(c, t))
                    }
                    Var::Struct(st) => {
                        c.label("struct variant");
                        labels(c, &Sch::Struct(st.clone()))
                    }
                }
            }
        }
    }
}

fn from_str(sch: &Sch, text: &str) -> Result<V, kdl::de::Error> {
    with_root(sch, || kdl::de::from_str::<Dyn>(text)).map(|d| d.0)
}

// ---- P19 ----

fn p19(s: &mut Src, c: &mut Case) -> Res {
    let sch = root(s, Mode::Se);
    let mut v = dynser::value(s, &sch);
    fix_root(&sch, &mut v);
    if shape(&sch, &v).is_empty() {
        nothing(&sch, &mut v);
    }
    c.input(format!("{v:?} of {sch:?}"), weight(&v) >= 3);
    labels(c, &sch);
    let text = match kdl::se::to_string(&Ser(&sch, &v)) {
        Ok(t) => t,
        Err(e) => return fail("serialize", format!("{v:?}\nof {sch:?}\ncannot be serialized: {e}")),
    };
    match from_str(&sch, &text) {
        Ok(w) => ensure!(v == w, "changed", "{v:?}\nof {sch:?}\nis serialized as {text:?}\nand read back as {w:?}"),
        Err(e) => return fail("deserialize", format!("{v:?}\nof {sch:?}\nis serialized as {text:?}\nwhich cannot be read back: {e}")),
    }
    Ok(())
}

mod derived {
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;

    #[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord)]
    #[serde(rename_all = "kebab-case")]
    pub enum Color {
        DarkRed,
        Green,
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    pub struct Port(pub u16);
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    pub struct Server {
        #[serde(rename = "#0")]
        pub host: String,
        #[serde(rename = "#@port")]
        pub port: Port,
        #[serde(rename = "#rest")]
        pub aliases: Vec<String>,
        #[serde(rename = "#@color")]
        pub color: Color,
        pub on: bool,
        pub limit: Option<i32>,
        pub tags: Vec<bool>,
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    pub enum Step {
        Stop,
        Wait(f64),
        Move(i64, i64),
        Say { text: String, loud: bool, times: Option<u8> },
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    pub struct Config {
        pub name: String,
        pub server: Server,
        pub backup: Option<Server>,
        pub step: Step,
        pub env: BTreeMap<String, String>,
        pub flags: BTreeMap<String, bool>,
        pub steps: BTreeMap<String, Step>,
        pub size: (u8, char),
        pub numbers: Vec<Option<i8>>,
        pub colors: BTreeMap<Color, u128>,
        pub letters: BTreeMap<char, i128>,
    }
}

fn p19_derived(s: &mut Src, c: &mut Case) -> Res {
    use derived::*;
    fn server(s: &mut Src) -> Server {
        Server {
            host: gen_tree::string(s),
            port: Port(s.below(65536) as u16),
            aliases: (0..s.below(3)).map(|_| gen_tree::string(s)).collect(),
            color: if s.chance(1, 2) { Color::DarkRed } else { Color::Green },
            on: s.chance(1, 2),
            limit: if s.chance(1, 2) { Some(s.below(1000) as i32 - 500) } else { None },
            tags: (0..s.below(4)).map(|_| s.chance(1, 2)).collect(),
        }
    }
    fn step(s: &mut Src) -> Step {
        match s.below(4) {
            0 => Step::Stop,
            1 => Step::Wait(s.below(1000) as f64 / 8.0),
            2 => Step::Move(s.u64() as i64, -(s.below(50) as i64)),
            _ => Step::Say { text: gen_tree::string(s), loud: s.chance(1, 2), times: if s.chance(1, 2) { Some(s.below(256) as u8) } else { None } },
        }
    }
    let config = Config {
        name: gen_tree::string(s),
        server: server(s),
        backup: if s.chance(1, 2) { Some(server(s)) } else { None },
        step: step(s),
        env: (0..s.below(3)).map(|_| (gen_tree::string(s), gen_tree::string(s))).collect(),
        flags: (0..s.below(3)).map(|_| (gen_tree::string(s), s.chance(1, 2))).collect(),
        steps: (0..s.below(3)).map(|_| (gen_tree::string(s), step(s))).collect(),
        size: (s.below(256) as u8, gen_tree::chars_string(s, 3).chars().next().unwrap_or('c')),
        numbers: (0..s.below(4)).map(|_| if s.chance(1, 2) { Some(s.below(256) as u8 as i8) } else { None }).collect(),
        colors: (0..s.below(3)).map(|i| (if i == 0 { Color::DarkRed } else { Color::Green }, (s.u64() as u128) << s.below(63))).collect(),
        letters: (0..s.below(3)).map(|_| (gen_tree::chars_string(s, 3).chars().next().unwrap_or('c'), -((s.u64() as i128) << s.below(63)))).collect(),
    };
    c.input(format!("{config:?}"), true);
    let text = match kdl::se::to_string(&config) {
        Ok(t) => t,
        Err(e) => return fail("serialize", format!("{config:?}: {e}")),
    };
    match kdl::de::from_str::<Config>(&text) {
        Ok(w) => ensure!(config == w, "changed", "{config:?}\nis serialized as {text:?}\nand read back as {w:?}"),
        Err(e) => return fail("deserialize", format!("{config:?}\nis serialized as {text:?}\nwhich cannot be read back: {e}")),
    }
    // the run-time type makes the same calls
    let (sch, v) = mirror(&config);
    let dynamic = kdl::se::to_string(&Ser(&sch, &v)).map_err(|e| crate::engine::Fail { sig: "harness".into(), msg: e.to_string() })?;
    ensure!(dynamic == text, "harness", "derived {text:?}, dynamic {dynamic:?}");
    let back = from_str(&sch, &text);
    ensure!(back.as_ref().ok() == Some(&v), "harness", "derived reads back, dynamic gives {:?}", back.map_err(|e| e.to_string()));
    Ok(())
}

/// The run-time type and value for a derived one.
fn mirror(cfg: &derived::Config) -> (Sch, V) {
    use derived::*;
    use dynser::IntKind::*;
    let st = |f: &[&str], types: Vec<Sch>| StructSch { fields: names(f), types, deny: false };
    let opt = |t: Sch| Sch::Opt(Box::new(t));
    let seq = |t: Sch| Sch::Seq(Box::new(t), 0);
    let color = Sch::Enum(EnumSch { names: names(&["dark-red", "green"]), vars: vec![Var::Unit, Var::Unit] });
    let server = Sch::Struct(st(
        &["#0", "#@port", "#rest", "#@color", "on", "limit", "tags"],
        vec![Sch::Str, Sch::New(Box::new(Sch::Int(U16))), seq(Sch::Str), color, Sch::Bool, opt(Sch::Int(I32)), seq(Sch::Bool)],
    ));
    let step = Sch::Enum(EnumSch {
        names: names(&["Stop", "Wait", "Move", "Say"]),
        vars: vec![
            Var::Unit,
            Var::New(Sch::F64),
            Var::Tup(vec![Sch::Int(I64), Sch::Int(I64)]),
            Var::Struct(st(&["text", "loud", "times"], vec![Sch::Str, Sch::Bool, opt(Sch::Int(U8))])),
        ],
    });
    let sch = Sch::Struct(st(
        &["name", "server", "backup", "step", "env", "flags", "steps", "size", "numbers", "colors", "letters"],
        vec![
            Sch::Str,
            server.clone(),
            opt(server),
            step.clone(),
            Sch::Map(Box::new(Sch::Str)),
            Sch::Map(Box::new(Sch::Bool)),
            Sch::Map(Box::new(step)),
            Sch::Tup(vec![Sch::Int(U8), Sch::Char]),
            seq(opt(Sch::Int(I8))),
            Sch::Map(Box::new(Sch::Int(U128))),
            Sch::Map(Box::new(Sch::Int(I128))),
        ],
    ));
    fn o<T>(x: &Option<T>, f: impl Fn(&T) -> V) -> V {
        x.as_ref().map_or(V::None, |x| V::Some(Box::new(f(x))))
    }
    let server = |x: &Server| {
        V::Struct(vec![
            V::Str(x.host.clone()),
            V::New(Box::new(V::Int(x.port.0 as i128))),
            V::Seq(x.aliases.iter().map(|a| V::Str(a.clone())).collect()),
            V::Enum(if x.color == Color::DarkRed { 0 } else { 1 }, vec![]),
            V::Bool(x.on),
            o(&x.limit, |l| V::Int(*l as i128)),
            V::Seq(x.tags.iter().map(|t| V::Bool(*t)).collect()),
        ])
    };
    let step = |x: &Step| match x {
        Step::Stop => V::Enum(0, vec![]),
        Step::Wait(f) => V::Enum(1, vec![V::F64(*f)]),
        Step::Move(a, b) => V::Enum(2, vec![V::Int(*a as i128), V::Int(*b as i128)]),
        Step::Say { text, loud, times } => V::Enum(3, vec![V::Str(text.clone()), V::Bool(*loud), o(times, |t| V::Int(*t as i128))]),
    };
    let v = V::Struct(vec![
        V::Str(cfg.name.clone()),
        server(&cfg.server),
        o(&cfg.backup, server),
        step(&cfg.step),
        V::Map(cfg.env.iter().map(|(k, v)| (k.clone(), V::Str(v.clone()))).collect()),
        V::Map(cfg.flags.iter().map(|(k, v)| (k.clone(), V::Bool(*v))).collect()),
        V::Map(cfg.steps.iter().map(|(k, v)| (k.clone(), step(v))).collect()),
        V::Seq(vec![V::Int(cfg.size.0 as i128), V::Char(cfg.size.1)]),
        V::Seq(cfg.numbers.iter().map(|n| o(n, |n| V::Int(*n as i128))).collect()),
        V::Map(cfg.colors.iter().map(|(k, v)| (if *k == Color::DarkRed { "dark-red" } else { "green" }.to_string(), V::Int(*v as i128))).collect()),
        V::Map(cfg.letters.iter().map(|(k, v)| (k.to_string(), V::Int(*v))).collect()),
    ]);
    (sch, v)
}

/// Values that are known not to survive (see the known findings).
fn p19_fixed(s: &mut Src, c: &mut Case) -> Res {
    use serde::{Deserialize, Serialize};
    fn trip<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, v: T) -> Res {
        c.input(format!("{what}: {v:?}"), true);
        let text = match kdl::se::to_string(&v) {
            Ok(t) => t,
            Err(e) => return fail(format!("fixed: {what}"), format!("{v:?}: {e}")),
        };
        match kdl::de::from_str::<T>(&text) {
            Ok(w) if v == w => Ok(()),
            Ok(w) => fail(format!("fixed: {what}"), format!("{v:?} is serialized as {text:?} and read back as {w:?}")),
            Err(e) => fail(format!("fixed: {what}"), format!("{v:?} is serialized as {text:?}, which is not read back: {e}")),
        }
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct Top {
        on: bool,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct One<T> {
        a: T,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    enum Up {
        Up {
            #[serde(rename = "#0")]
            towards: String,
        },
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct Typed {
        #[serde(rename = "#type")]
        ty: String,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    enum Unit {
        Red,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct Maybe(Option<u8>);
    match crate::engine::enum_index(s) {
        0 => trip(c, "false at the top level", Top { on: false }),
        1 => trip(c, "argument rename in a nested struct variant", One { a: Up::Up { towards: "sky".into() } }),
        2 => trip(c, "type rename", One { a: Typed { ty: "big".into() } }),
        3 => trip(c, "unit variant at the top level", Unit::Red),
        _ => trip(c, "newtype around None at the top level", One { a: Maybe(None) }),
    }
}

// ---- P20 ----

/// What to make wrong.
struct Fault {
    /// the n-th possible place
    countdown: Option<u32>,
    /// only wrong values that can be found again
    marked: bool,
    /// what to put in the place of the marked value
    instead: Option<Val>,
    done: Option<&'static str>,
}
const MARK: &str = "wrong☠";
const MARK_INT: i128 = 8_314_159_265_358_979;

impl Fault {
    fn none() -> Fault {
        Fault { countdown: None, marked: false, instead: None, done: None }
    }
    fn here(&mut self, what: &'static str) -> bool {
        match &mut self.countdown {
            Some(0) => {
                self.countdown = None;
                self.done = Some(what);
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    }
}

struct Writer<'a> {
    s: &'a mut Src,
    fault: Fault,
    /// inside an option that a node fills, where null means nothing
    optional: bool,
    /// Some(n): one place, n more to go, gets something that a value of its
    /// type does not have. That may be an error, but not another value.
    noise: Option<u32>,
    noisy: bool,
}

fn entry(name: Option<&str>, val: Val) -> TEntry {
    TEntry { name: name.map(|n| n.to_string()), ty: None, val }
}
fn bare(name: &str) -> TNode {
    TNode { ty: None, name: name.to_string(), entries: vec![], children: None }
}

/// Can a single KDL value tell it?
fn arglike(sch: &Sch, v: &V) -> bool {
    match (sch, v) {
        (Sch::Opt(_), V::None) => true,
        (Sch::Opt(t), V::Some(v)) | (Sch::New(t), V::New(v)) => arglike(t, v),
        (Sch::Enum(e), V::Enum(i, _)) => matches!(e.vars[*i], Var::Unit),
        (Sch::Bool | Sch::Int(_) | Sch::F32 | Sch::F64 | Sch::Char | Sch::Str, _) => true,
        _ => false,
    }
}

/// Is it what a nested struct takes a missing field for?
fn omittable(sch: &Sch, v: &V, nested: bool) -> bool {
    match (sch, v) {
        (Sch::Bool, V::Bool(false)) => nested,
        (Sch::Opt(_), V::None) => true,
        (Sch::New(t), V::New(v)) => nested && omittable(t, v, nested),
        _ => false,
    }
}

/// Is a missing field always an error?
fn required(sch: &Sch) -> bool {
    match sch {
        Sch::Bool | Sch::Opt(_) => false,
        Sch::New(t) => required(t),
        _ => true,
    }
}

impl Writer<'_> {
    /// The KDL value of a scalar.
    fn value(&mut self, sch: &Sch, v: &V) -> Val {
        self.value_in(sch, v, self.optional)
    }

    fn value_in(&mut self, sch: &Sch, v: &V, nullable: bool) -> Val {
        match (sch, v) {
            (Sch::Opt(_), V::None) => return Val::Null,
            (Sch::Opt(t), V::Some(v)) => return self.value_in(t, v, true),
            (Sch::New(t), V::New(v)) => return self.value_in(t, v, nullable),
            _ => {}
        }
        let null = || if nullable { Val::Str(MARK.to_string()) } else { Val::Null };
        if self.fault.here("scalar") {
            let marked = self.fault.marked;
            let mark = Val::Str(MARK.to_string());
            let s = &mut *self.s;
            let wrong = match sch {
                Sch::Str => match s.below(4) {
                    0 => Val::Int(MARK_INT),
                    1 => Val::Bool(s.chance(1, 2)),
                    2 if !nullable => Val::Null,
                    _ => Val::Float(1.5),
                },
                _ if s.chance(1, 3) => mark.clone(),
                Sch::Bool => s.pick(&[Val::Str("true".into()), Val::Int(1), null(), Val::Float(0.0)]).clone(),
                Sch::Int(k) => {
                    let (lo, hi) = k.range();
                    match s.below(5) {
                        0 => Val::Str("1".into()),
                        1 => Val::Float(1.0),
                        2 if hi < i128::MAX => Val::Int(hi + 1),
                        3 if lo > i128::MIN => Val::Int(lo - 1),
                        _ => s.pick(&[Val::Bool(true), null()]).clone(),
                    }
                }
                Sch::F32 | Sch::F64 => s.pick(&[Val::Str("1.5".into()), Val::Bool(true), null()]).clone(),
                Sch::Char => s.pick(&[Val::Str("ab".into()), Val::Str(String::new()), Val::Int(97), null()]).clone(),
                _ => mark.clone(),
            };
            if marked {
                self.fault.instead = Some(wrong);
                return mark;
            }
            return wrong;
        }
        match (sch, v) {
            (Sch::Bool, V::Bool(b)) => Val::Bool(*b),
            (Sch::Int(_), V::Int(i)) => Val::Int(*i),
            (Sch::F32, V::F32(f)) => Val::Float(*f as f64),
            (Sch::F64, V::F64(f)) => {
                let exact = f.fract() == 0.0 && f.abs() < 9e15 && f.to_bits() != (-0.0f64).to_bits();
                if exact && self.s.chance(1, 3) { Val::Int(*f as i128) } else { Val::Float(*f) }
            }
            (Sch::Char, V::Char(c)) => Val::Str(c.to_string()),
            (Sch::Str, V::Str(s)) => Val::Str(s.clone()),
            (Sch::Enum(e), V::Enum(i, _)) => Val::Str(e.names[*i].to_string()),
            _ => panic!("{v:?} is no {sch:?}"),
        }
    }

    /// Writes a value as what a node holds.
    fn fill(&mut self, n: &mut TNode, sch: &Sch, v: &V, flag: bool) {
        match (sch, v) {
            (Sch::Bool, V::Bool(true)) if flag && self.s.chance(1, 2) => {}
            (Sch::Opt(_), V::None) => {
                if self.s.chance(1, 2) {
                    n.entries.push(entry(None, Val::Null));
                }
            }
            (Sch::Opt(t), V::Some(v)) => {
                let outer = std::mem::replace(&mut self.optional, true);
                self.fill(n, t, v, false);
                self.optional = outer;
                // not nothing
                let null = n.entries.len() == 1 && n.entries[0].name.is_none() && n.entries[0].val == Val::Null;
                if n.children.is_none() && (n.entries.is_empty() || null) && !arglike(t, v) {
                    n.children = Some(vec![]);
                }
            }
            (Sch::New(t), V::New(v)) => self.fill(n, t, v, flag),
            (Sch::Seq(t, _), V::Seq(vs)) => {
                let ts: Vec<&Sch> = vs.iter().map(|_| &**t).collect();
                self.elements(n, &ts, vs)
            }
            (Sch::Tup(ts), V::Seq(vs)) => self.tuple(n, ts, vs),
            (Sch::Map(t), V::Map(m)) => {
                for (k, v) in m {
                    self.place(n, k, t, v);
                }
                if m.is_empty() && self.s.chance(1, 2) {
                    n.children = Some(vec![]);
                }
            }
            (Sch::Struct(st), V::Struct(vs)) => self.strukt(n, st, vs),
            (Sch::Enum(e), V::Enum(i, vs)) => self.variant(n, e, *i, vs),
            _ => {
                let v = self.value(sch, v);
                let mut e = entry(None, v);
                self.decorate(&mut e.ty);
                n.entries.push(e);
                self.superfluous(n);
            }
        }
    }

    fn superfluous(&mut self, n: &mut TNode) {
        match &mut self.noise {
            Some(0) => {}
            Some(k) => {
                *k -= 1;
                return;
            }
            None => return,
        }
        self.noise = None;
        self.noisy = true;
        let e = entry(Some("superfluous"), gen_tree::val(self.s));
        let at = self.s.below(n.entries.len() as u32 + 1) as usize;
        n.entries.insert(at, e);
    }

    fn decorate(&mut self, ty: &mut Option<String>) {
        if self.s.chance(1, 10) {
            *ty = Some(gen_tree::name(self.s));
        }
    }

    fn tuple(&mut self, n: &mut TNode, ts: &[Sch], vs: &[V]) {
        let ts: Vec<&Sch> = ts.iter().collect();
        let short = !self.fault.marked && self.fault.here("tuple too short");
        let k = if short { vs.len() - 1 } else { vs.len() };
        self.elements(n, &ts[..k], &vs[..k]);
    }

    fn elements(&mut self, n: &mut TNode, ts: &[&Sch], vs: &[V]) {
        if ts.iter().zip(vs).all(|(t, v)| arglike(t, v)) && self.s.chance(2, 3) {
            for (t, v) in ts.iter().zip(vs) {
                let v = self.value(t, v);
                let mut e = entry(None, v);
                self.decorate(&mut e.ty);
                n.entries.push(e);
            }
            self.superfluous(n);
        } else if !vs.is_empty() || self.s.chance(1, 2) {
            let mut children = vec![];
            for (t, v) in ts.iter().zip(vs) {
                let mut k = bare(if self.s.chance(4, 5) { "-" } else { "item" });
                self.decorate(&mut k.ty);
                self.fill_typed(&mut k, t, v);
                children.push(k);
            }
            n.children = Some(children);
        }
    }

    /// Fills a node whose type annotation may mean something.
    fn fill_typed(&mut self, n: &mut TNode, t: &Sch, v: &V) {
        self.fill(n, t, v, true);
    }

    fn field_node(&mut self, name: &str, t: &Sch, v: &V) -> TNode {
        let mut k = bare(name);
        if !has_type(t) {
            self.decorate(&mut k.ty);
        }
        self.fill(&mut k, t, v, true);
        k
    }

    fn prop(&mut self, n: &mut TNode, name: &str, t: &Sch, v: &V) {
        if self.s.chance(1, 10) {
            // overridden by the one to its right
            let v = gen_tree::val(self.s);
            n.entries.push(entry(Some(name), v));
        }
        let v = self.value(t, v);
        let mut e = entry(Some(name), v);
        self.decorate(&mut e.ty);
        n.entries.push(e);
    }

    /// Puts a field or map entry into a node, as a property or as children.
    fn place(&mut self, n: &mut TNode, name: &str, t: &Sch, v: &V) {
        if arglike(t, v) && self.s.chance(1, 2) {
            self.prop(n, name, t, v);
            return;
        }
        let ks = self.child_nodes(name, t, v);
        self.children(n, ks);
    }

    /// Adds children; others may come to stand between them.
    fn children(&mut self, n: &mut TNode, ks: Vec<TNode>) {
        let children = n.children.get_or_insert_with(Vec::new);
        let mut at = children.len();
        if self.s.chance(1, 3) {
            at -= self.s.below(at as u32 + 1) as usize;
        }
        for k in ks {
            children.insert(at, k);
            at += 1;
            if self.s.chance(1, 3) {
                at += self.s.below((children.len() - at) as u32 + 1) as usize;
            }
        }
    }

    fn child_nodes(&mut self, name: &str, t: &Sch, v: &V) -> Vec<TNode> {
        // repeated nodes are a sequence, through options and newtypes
        let (mut it, mut iv) = (t, v);
        loop {
            match (it, iv) {
                (Sch::Opt(t), V::Some(v)) | (Sch::New(t), V::New(v)) => (it, iv) = (t, v),
                _ => break,
            }
        }
        if let V::Seq(vs) = iv
            && vs.len() >= 2
            && self.s.chance(1, 2)
        {
            let ts: Vec<&Sch> = match it {
                Sch::Seq(t, _) => vs.iter().map(|_| &**t).collect(),
                Sch::Tup(ts) => ts.iter().collect(),
                _ => unreachable!(),
            };
            return ts.iter().zip(vs).map(|(t, v)| self.field_node(name, t, v)).collect();
        }
        vec![self.field_node(name, t, v)]
    }

    fn strukt(&mut self, n: &mut TNode, st: &StructSch, vs: &[V]) {
        let get = |f: &str| st.fields.iter().position(|g| *g == f);
        // arguments
        let mut arguments: Vec<TEntry> = vec![];
        if let Some(i) = get("#args") {
            let (mut t, mut v) = (&st.types[i], &vs[i]);
            while let (Sch::New(u), V::New(w)) | (Sch::Opt(u), V::Some(w)) = (t, v) {
                (t, v) = (u, w);
            }
            let none = vec![];
            let vs = match v {
                V::Seq(vs) => vs,
                V::None => &none,
                _ => unreachable!(),
            };
            for (k, v) in vs.iter().enumerate() {
                let t = match t {
                    Sch::Seq(t, _) => t,
                    Sch::Tup(ts) => &ts[k],
                    _ => unreachable!(),
                };
                let v = self.value(t, v);
                arguments.push(entry(None, v));
            }
        } else {
            let mut rest: Vec<Val> = vec![];
            if let Some(i) = get("#rest") {
                let (mut t, mut v) = (&st.types[i], &vs[i]);
                if let (Sch::Opt(u), V::Some(w)) = (t, v) {
                    (t, v) = (u, w);
                }
                match (t, v) {
                    (Sch::Seq(t, _), V::Seq(vs)) => vs.iter().for_each(|v| rest.push(self.value(t, v))),
                    (_, V::None) => {}
                    _ => unreachable!(),
                }
            }
            let mut rest = rest.into_iter();
            for k in 0.. {
                if let Some(i) = get(&format!("#{k}")) {
                    let v = self.value(&st.types[i], &vs[i]);
                    arguments.push(entry(None, v));
                } else if let Some(v) = rest.next() {
                    arguments.push(entry(None, v));
                } else {
                    break;
                }
            }
            assert!(rest.next().is_none());
        }
        for (k, a) in arguments.iter_mut().enumerate() {
            match get(&format!("#{k}#type")) {
                Some(i) => a.ty = self.type_of(&st.types[i], &vs[i]),
                None => self.decorate(&mut a.ty),
            }
        }
        // properties
        let mut properties: Vec<Vec<TEntry>> = vec![];
        for (i, f) in st.fields.iter().enumerate() {
            let Some(p) = f.strip_prefix("#@") else { continue };
            if p.ends_with("#type") {
                continue;
            }
            let ty = get(&format!("#@{p}#type"));
            if ty.is_none() && omittable(&st.types[i], &vs[i], false) && self.s.chance(1, 2) {
                continue;
            }
            let mut t = bare("");
            self.prop(&mut t, p, &st.types[i], &vs[i]);
            if let Some(i) = ty {
                t.entries.last_mut().unwrap().ty = self.type_of(&st.types[i], &vs[i]);
            }
            properties.push(t.entries);
        }
        if let Some(i) = get("#type") {
            n.ty = self.type_of(&st.types[i], &vs[i]);
        }
        // the rest, in any order
        let mut plain: Vec<usize> = (0..st.fields.len()).filter(|i| !st.fields[*i].starts_with('#')).collect();
        for i in (1..plain.len()).rev() {
            let j = i - self.s.below(i as u32 + 1) as usize;
            plain.swap(i, j);
        }
        for i in plain {
            let (t, v) = (&st.types[i], &vs[i]);
            if omittable(t, v, true) && self.s.chance(1, 2) {
                continue;
            }
            if required(t) && !self.fault.marked && self.fault.here("missing field") {
                continue;
            }
            let name = st.fields[i];
            let taken = get(&format!("#@{name}")).is_some();
            if arglike(t, v) && !taken && self.s.chance(1, 2) {
                let mut k = bare("");
                self.prop(&mut k, name, t, v);
                properties.push(k.entries);
            } else {
                let ks = self.child_nodes(name, t, v);
                self.children(n, ks);
            }
        }
        // what the struct does not know
        let fault = st.deny && !self.fault.marked && self.fault.here("unknown field");
        if fault || (!st.deny && self.s.chance(1, 8)) {
            if self.s.chance(1, 2) {
                let v = gen_tree::val(self.s);
                properties.push(vec![entry(Some("unknown"), v)]);
            } else {
                let mut k = gen_tree::node(self.s, 1);
                k.name = "unknown".into();
                n.children.get_or_insert_with(Vec::new).insert(0, k);
            }
        }
        // properties and arguments mix freely
        let mut arguments = arguments.into_iter().peekable();
        for p in properties {
            while arguments.peek().is_some() && self.s.chance(1, 2) {
                n.entries.extend(arguments.next());
            }
            n.entries.extend(p);
        }
        n.entries.extend(arguments);
        if n.children.is_none() && self.s.chance(1, 10) {
            n.children = Some(vec![]);
        }
    }

    fn type_of(&mut self, t: &Sch, v: &V) -> Option<String> {
        match (t, v) {
            (Sch::Opt(_), V::None) => None,
            (Sch::Opt(t), V::Some(v)) => self.type_of(t, v),
            (Sch::Str, V::Str(s)) => Some(s.clone()),
            (Sch::Enum(_), _) if self.fault.here("variant name as a type annotation") => Some(MARK.to_string()),
            (Sch::Enum(e), V::Enum(i, _)) => Some(e.names[*i].to_string()),
            _ => unreachable!(),
        }
    }

    /// The node that is a variant, with its content.
    fn variant_node(&mut self, e: &EnumSch, i: usize, vs: &[V]) -> TNode {
        let name = if self.fault.here("variant name") { MARK } else { e.names[i] };
        let mut k = bare(name);
        match &e.vars[i] {
            Var::Unit => {}
            Var::New(t) => {
                if !has_type(t) {
                    self.decorate(&mut k.ty);
                }
                self.fill(&mut k, t, &vs[0], true)
            }
            Var::Tup(ts) => {
                self.decorate(&mut k.ty);
                self.tuple(&mut k, ts, vs)
            }
            Var::Struct(st) => self.strukt(&mut k, st, vs),
        }
        k
    }

    /// An enum inside a node.
    fn variant(&mut self, n: &mut TNode, e: &EnumSch, i: usize, vs: &[V]) {
        match &e.vars[i] {
            _ if !self.fault.marked && !e.names.contains(&n.name.as_str()) && self.fault.here("more than a variant") => {
                match self.s.below(if self.optional { 3 } else { 4 }) {
                    0 => {
                        let k = self.variant_node(e, i, vs);
                        let l = bare(e.names[self.s.below(e.names.len() as u32) as usize]);
                        let mut both = vec![k, l];
                        if self.s.chance(1, 2) {
                            both.swap(0, 1);
                        }
                        n.children = Some(both);
                    }
                    1 => {
                        for name in [e.names[i], "superfluous"] {
                            let v = gen_tree::val(self.s);
                            n.entries.push(entry(Some(name), v));
                        }
                    }
                    2 => {
                        let v = gen_tree::val(self.s);
                        n.entries.push(entry(Some(e.names[i]), v));
                        n.entries.push(entry(None, Val::Int(1)));
                    }
                    // nothing at all
                    _ => {}
                }
            }
            Var::Unit if self.s.chance(3, 4) => {
                let v = self.value(&Sch::Enum(e.clone()), &V::Enum(i, vec![]));
                n.entries.push(entry(None, v));
            }
            Var::New(t) if arglike(t, &vs[0]) && self.s.chance(1, 3) => {
                let v = self.value(t, &vs[0]);
                let name = if self.fault.here("variant name of a property") { MARK } else { e.names[i] };
                n.entries.push(entry(Some(name), v));
            }
            _ => {
                let k = self.variant_node(e, i, vs);
                n.children = Some(vec![k]);
            }
        }
    }

    fn root(&mut self, sch: &Sch, v: &V) -> Tree {
        match (sch, v) {
            (Sch::New(t), V::New(v)) => self.root(t, v),
            (Sch::Opt(_), V::None) => vec![],
            (Sch::Opt(t), V::Some(v)) => {
                let mut out = self.root(t, v);
                // nothing at all would be None
                if out.is_empty() && self.fault.done.is_some() {
                    out.push(bare("unknown"));
                }
                out
            }
            (Sch::Struct(st), V::Struct(vs)) => {
                let mut out = vec![];
                for ((f, t), v) in st.fields.iter().zip(&st.types).zip(vs) {
                    if omittable(t, v, false) && self.s.chance(1, 2) {
                        continue;
                    }
                    if required(t) && !self.fault.marked && self.fault.here("missing field") {
                        continue;
                    }
                    let ks = self.child_nodes(f, t, v);
                    let at = out.len() - self.s.below(out.len() as u32 + 1) as usize;
                    // repeated nodes may have others between them
                    for (j, k) in ks.into_iter().enumerate() {
                        out.insert(at + j, k);
                    }
                }
                let fault = st.deny && !self.fault.marked && self.fault.here("unknown field");
                if fault || (!st.deny && self.s.chance(1, 8)) {
                    let mut k = gen_tree::node(self.s, 1);
                    k.name = "unknown".into();
                    let at = out.len() - self.s.below(out.len() as u32 + 1) as usize;
                    out.insert(at, k);
                }
                out
            }
            (Sch::Map(t), V::Map(m)) => m.iter().flat_map(|(k, v)| self.child_nodes(k, t, v)).collect(),
            (Sch::Seq(t, _), V::Seq(vs)) => vs
                .iter()
                .map(|v| {
                    let name = if self.s.chance(3, 4) { "-".to_string() } else { gen_tree::name(self.s) };
                    self.field_node(&name, t, v)
                })
                .collect(),
            (Sch::Tup(ts), V::Seq(vs)) => {
                let short = !self.fault.marked && self.fault.here("tuple too short");
                let k = if short { vs.len() - 1 } else { vs.len() };
                ts.iter().zip(&vs[..k]).map(|(t, v)| self.field_node("-", t, v)).collect()
            }
            (Sch::Enum(e), V::Enum(i, vs)) => {
                if !self.fault.marked && self.fault.here("more than a variant") {
                    if self.s.chance(1, 3) {
                        return vec![];
                    }
                    return vec![self.variant_node(e, *i, vs), bare(e.names[0])];
                }
                vec![self.variant_node(e, *i, vs)]
            }
            _ => panic!("{v:?} is no {sch:?}"),
        }
    }
}

/// Does reading the type look at the node's type annotation?
fn has_type(t: &Sch) -> bool {
    match t {
        Sch::New(t) | Sch::Opt(t) => has_type(t),
        Sch::Struct(st) => st.fields.contains(&"#type"),
        _ => false,
    }
}

fn render(s: &mut Src, t: &Tree) -> String {
    let st = Style::any(s);
    let mut r = Ren::new(s, st);
    r.document(t);
    r.out
}

/// A type, a value of it, and a document that says so (or not, with a fault).
fn written(s: &mut Src, fault: Fault, noise: Option<u32>) -> (Sch, V, String, Option<&'static str>, Option<usize>) {
    let sch = root(s, Mode::De);
    let mut v = dynser::value(s, &sch);
    let mut w = Writer { s, fault, optional: false, noise, noisy: false };
    let mut t = w.root(&sch, &v);
    let done = if w.noisy { Some("noise") } else { w.fault.done };
    let instead = w.fault.instead.take();
    if t.is_empty() {
        nothing(&sch, &mut v);
    }
    let mut place = None;
    if let Some(val) = instead {
        replace_mark(&mut t, &val, &mut 0, &mut place);
    }
    let text = render(s, &t);
    (sch, v, text, done, place)
}

/// What an empty document is.
fn nothing(sch: &Sch, v: &mut V) {
    match (sch, v) {
        (Sch::New(t), V::New(v)) => nothing(t, v),
        (Sch::Opt(_), v) => *v = V::None,
        _ => {}
    }
}

/// Puts the value in the place of the mark, and tells which entry of the
/// document that is.
fn replace_mark(t: &mut Tree, val: &Val, n: &mut usize, place: &mut Option<usize>) {
    for k in t {
        for e in &mut k.entries {
            if e.val == Val::Str(MARK.to_string()) {
                e.val = val.clone();
                *place = Some(*n);
            }
            *n += 1;
        }
        if let Some(c) = &mut k.children {
            replace_mark(c, val, n, place);
        }
    }
}

fn p20(s: &mut Src, c: &mut Case) -> Res {
    let noise = if s.chance(1, 6) { Some(s.below(6)) } else { None };
    let (sch, v, text, noise, _) = written(s, Fault::none(), noise);
    if noise.is_some() {
        c.label("with something superfluous");
    }
    c.input(format!("{text:?} as {sch:?}"), weight(&v) >= 3);
    labels(c, &sch);
    match from_str(&sch, &text) {
        Ok(w) => ensure!(v == w, "changed", "{text:?}\nas {sch:?}\ngives {w:?}\ninstead of {v:?}"),
        Err(_) if noise.is_some() => {}
        Err(e) => return fail("rejected", format!("{text:?}\nas {sch:?}\nis an error: {e}\ninstead of {v:?}")),
    }
    Ok(())
}

fn p20_wrong(s: &mut Src, c: &mut Case) -> Res {
    let f = Fault { countdown: Some(s.below(8)), marked: false, instead: None, done: None };
    let (sch, v, text, done, _) = written(s, f, None);
    let Some(done) = done else {
        c.label("nothing made wrong");
        c.input(format!("{text:?} as {sch:?}"), false);
        return Ok(());
    };
    c.label(done);
    c.input(format!("{done} in {text:?} as {sch:?}"), true);
    if let Ok(w) = from_str(&sch, &text) {
        return fail(done, format!("{text:?}\nas {sch:?}\nhas a wrong place ({done}, should be {v:?})\nand gives {w:?}"));
    }
    Ok(())
}

/// The documented mapping of a document to a self-describing type.
fn p20_any(s: &mut Src, c: &mut Case) -> Res {
    fn val(v: &Val) -> V {
        match v {
            Val::Str(s) => V::Str(s.clone()),
            Val::Int(i) => V::Int(*i),
            Val::Float(f) => V::F64(*f),
            Val::Bool(b) => V::Bool(*b),
            Val::Null => V::Unit,
        }
    }
    /// None: not documented
    fn group(ns: &[TNode]) -> Option<BTreeMap<String, V>> {
        let mut m: BTreeMap<String, Vec<V>> = BTreeMap::new();
        for n in ns {
            m.entry(n.name.clone()).or_default().push(node(n)?);
        }
        Some(m.into_iter().map(|(k, mut v)| (k, if v.len() == 1 { v.remove(0) } else { V::Seq(v) })).collect())
    }
    fn node(n: &TNode) -> Option<V> {
        let args: Vec<V> = n.entries.iter().filter(|e| e.name.is_none()).map(|e| val(&e.val)).collect();
        let props: Vec<(&String, V)> = n.entries.iter().filter_map(|e| Some((e.name.as_ref()?, val(&e.val)))).collect();
        if props.is_empty() && n.children.is_none() {
            return Some(match args.len() {
                0 => V::Bool(true),
                1 => args.into_iter().next().unwrap(),
                _ => V::Seq(args),
            });
        }
        let mut m: BTreeMap<String, V> = props.into_iter().map(|(k, v)| (k.clone(), v)).collect();
        if let Some(c) = &n.children {
            for (k, v) in group(c)? {
                if m.insert(k, v).is_some() {
                    return None;
                }
            }
        }
        if !args.is_empty() {
            m.insert(OPEN.into(), V::Unit);
        }
        Some(V::Map(m))
    }
    const OPEN: &str = "\0arguments as well";
    /// What becomes of arguments in a map is not documented.
    fn same(got: &V, want: &V) -> bool {
        match (got, want) {
            (V::Map(g), V::Map(w)) => {
                (w.contains_key(OPEN) || g.len() == w.len()) && w.iter().filter(|(k, _)| *k != OPEN).all(|(k, w)| g.get(k).is_some_and(|g| same(g, w)))
            }
            (V::Seq(g), V::Seq(w)) => g.len() == w.len() && g.iter().zip(w).all(|(g, w)| same(g, w)),
            _ => got == want,
        }
    }
    /// Drops what makes a node undocumented.
    fn clean(n: &mut TNode) {
        if let Some(c) = &mut n.children {
            let props: Vec<String> = n.entries.iter().filter_map(|e| e.name.clone()).collect();
            c.retain(|k| !props.contains(&k.name));
            c.iter_mut().for_each(clean);
        }
    }
    let mut t = gen_tree::tree(s);
    t.iter_mut().for_each(clean);
    let text = render(s, &t);
    c.input(&text, tree::count(&t) >= 3);
    let Some(want) = group(&t) else {
        c.label("undocumented mix");
        c.nontrivial = false;
        return Ok(());
    };
    let want = V::Map(want);
    match from_str(&Sch::Any, &text) {
        Ok(got) => ensure!(same(&got, &want), "changed", "{text:?} gives {got:?}\ninstead of {want:?}"),
        Err(e) => return fail("rejected", format!("{text:?} is an error: {e}\ninstead of {want:?}")),
    }
    // as a map of anything it is the same
    match from_str(&Sch::Map(Box::new(Sch::Any)), &text) {
        Ok(got) => ensure!(same(&got, &want), "changed-map", "{text:?} gives {got:?}\ninstead of {want:?}"),
        Err(e) => return fail("rejected-map", format!("{text:?} is an error: {e}\ninstead of {want:?}")),
    }
    Ok(())
}

/// What is known not to work (see the known findings).
fn p20_fixed(s: &mut Src, c: &mut Case) -> Res {
    use serde::Deserialize;
    #[derive(Deserialize, PartialEq, Debug)]
    struct Inner {
        host: String,
        #[serde(default)]
        port: u16,
    }
    #[derive(Deserialize, PartialEq, Debug)]
    struct Outer {
        server: Inner,
    }
    if crate::engine::enum_index(s) == 0 {
        c.input("serde(default) at the top level", true);
        let got = kdl::de::from_str::<Inner>("host x");
        ensure!(got.as_ref().ok() == Some(&Inner { host: "x".into(), port: 0 }), "fixed: default", "{got:?}");
    } else {
        c.input("serde(default) in a nested struct", true);
        let got = kdl::de::from_str::<Outer>("server host=x");
        ensure!(got.as_ref().ok() == Some(&Outer { server: Inner { host: "x".into(), port: 0 } }), "fixed: nested default", "`server host=x` with a default for `port`: {got:?}");
    }
    Ok(())
}

// ---- P21 ----

/// Does a struct leave the field out?
fn left_out(v: &V) -> bool {
    match v {
        V::Bool(b) => !b,
        V::None => true,
        V::New(v) => left_out(v),
        _ => false,
    }
}

fn plain_value(sch: &Sch, v: &V) -> Val {
    match (sch, v) {
        (_, V::None) => Val::Null,
        (Sch::Opt(t), V::Some(v)) | (Sch::New(t), V::New(v)) => plain_value(t, v),
        (_, V::Bool(b)) => Val::Bool(*b),
        (_, V::Int(i)) => Val::Int(*i),
        (_, V::F32(f)) => Val::Float(*f as f64),
        (_, V::F64(f)) => Val::Float(*f),
        (_, V::Char(c)) => Val::Str(c.to_string()),
        (_, V::Str(s)) => Val::Str(s.clone()),
        (Sch::Enum(e), V::Enum(i, _)) => Val::Str(e.names[*i].to_string()),
        _ => panic!("{v:?} is no {sch:?}"),
    }
}

fn shape_struct(n: &mut TNode, st: &StructSch, vs: &[V]) {
    let mut indexed = BTreeMap::new();
    let mut others = vec![];
    let mut children = vec![];
    for ((f, t), v) in st.fields.iter().zip(&st.types).zip(vs) {
        if let Some(p) = f.strip_prefix("#@") {
            n.entries.push(entry(Some(p), plain_value(t, v)));
        } else if *f == "#args" || *f == "#rest" {
            let mut k = bare("");
            if *v != V::None {
                shape_fill(&mut k, t, v);
            }
            others.extend(k.entries);
        } else if let Some(i) = f.strip_prefix('#') {
            indexed.insert(i.parse::<usize>().unwrap(), entry(None, plain_value(t, v)));
        } else if !left_out(v) {
            children.push(shape_node(f, t, v));
        }
    }
    let mut others = others.into_iter();
    for i in 0.. {
        match indexed.remove(&i).or_else(|| others.next()) {
            Some(e) => n.entries.push(e),
            None => break,
        }
    }
    assert!(indexed.is_empty());
    if !children.is_empty() {
        n.children = Some(children);
    }
}

fn shape_variant(e: &EnumSch, i: usize, vs: &[V]) -> TNode {
    let mut n = bare(e.names[i]);
    match &e.vars[i] {
        Var::Unit => {}
        Var::New(t) => n.entries.push(entry(None, plain_value(t, &vs[0]))),
        Var::Tup(ts) => n.entries.extend(ts.iter().zip(vs).map(|(t, v)| entry(None, plain_value(t, v)))),
        Var::Struct(st) => shape_struct(&mut n, st, vs),
    }
    n
}

fn shape_fill(n: &mut TNode, sch: &Sch, v: &V) {
    match (sch, v) {
        (Sch::Opt(t), V::Some(v)) | (Sch::New(t), V::New(v)) => shape_fill(n, t, v),
        (Sch::Seq(t, _), V::Seq(vs)) => n.entries.extend(vs.iter().map(|v| entry(None, plain_value(t, v)))),
        (Sch::Tup(ts), V::Seq(vs)) => n.entries.extend(ts.iter().zip(vs).map(|(t, v)| entry(None, plain_value(t, v)))),
        (Sch::Map(t), V::Map(m)) => n.children = Some(m.iter().map(|(k, v)| shape_node(k, t, v)).collect()),
        (Sch::Struct(st), V::Struct(vs)) => shape_struct(n, st, vs),
        (Sch::Enum(e), V::Enum(i, vs)) if !matches!(e.vars[*i], Var::Unit) => n.children = Some(vec![shape_variant(e, *i, vs)]),
        _ => n.entries.push(entry(None, plain_value(sch, v))),
    }
}

fn shape_node(name: &str, sch: &Sch, v: &V) -> TNode {
    let mut n = bare(name);
    shape_fill(&mut n, sch, v);
    n
}

fn shape(sch: &Sch, v: &V) -> Tree {
    match (sch, v) {
        (Sch::New(t), V::New(v)) | (Sch::Opt(t), V::Some(v)) => shape(t, v),
        (Sch::Opt(_), V::None) => vec![],
        (Sch::Struct(st), V::Struct(vs)) => {
            st.fields.iter().zip(&st.types).zip(vs).filter(|(_, v)| !left_out(v)).map(|((f, t), v)| shape_node(f, t, v)).collect()
        }
        (Sch::Map(t), V::Map(m)) => m.iter().map(|(k, v)| shape_node(k, t, v)).collect(),
        (Sch::Seq(t, _), V::Seq(vs)) => vs.iter().map(|v| shape_node("-", t, v)).collect(),
        (Sch::Tup(ts), V::Seq(vs)) => ts.iter().zip(vs).map(|(t, v)| shape_node("-", t, v)).collect(),
        (Sch::Enum(e), V::Enum(i, vs)) if !matches!(e.vars[*i], Var::Unit) => vec![shape_variant(e, *i, vs)],
        _ if arglike(sch, v) => vec![shape_node("-", sch, v)],
        _ => panic!("{v:?} is no {sch:?}"),
    }
}

/// Arguments first, and no empty child blocks.
fn normal(t: &mut Tree) {
    for n in t {
        n.entries.sort_by_key(|e| e.name.is_some());
        match &mut n.children {
            Some(c) if c.is_empty() => n.children = None,
            Some(c) => normal(c),
            None => {}
        }
    }
}

fn p21(s: &mut Src, c: &mut Case) -> Res {
    let sch = if s.chance(1, 10) {
        c.label("a value as a document");
        // (what an option or newtype holds is written as it is)
        match s.below(3) {
            0 => Sch::Opt(Box::new(scalar(s))),
            _ => scalar(s),
        }
    } else {
        root(s, Mode::Se)
    };
    let v = dynser::value(s, &sch);
    c.input(format!("{v:?} of {sch:?}"), weight(&v) >= 3);
    labels(c, &sch);
    let doc = match kdl::se::to_document(&Ser(&sch, &v)) {
        Ok(d) => d,
        Err(e) => return fail("serialize", format!("{v:?}\nof {sch:?}\ncannot be serialized: {e}")),
    };
    let text = kdl::se::to_string(&Ser(&sch, &v)).unwrap_or_default();
    ensure!(doc.to_string() == text, "to_string", "{v:?}: to_string gives {text:?}, to_document {doc:?}");
    let mut want = shape(&sch, &v);
    normal(&mut want);
    let mut got = tree::tree_of(&doc);
    normal(&mut got);
    ensure!(got == want, "shape", "{v:?}\nof {sch:?}\nis serialized as {text:?}\ninstead of {}", tree::show(&want));
    let o = crate::refkdl::parse(&text);
    match o.tree() {
        Some(mut t) => {
            normal(&mut t);
            ensure!(t == want, "text", "{v:?}\nof {sch:?}\nis serialized as {text:?}, which reads {}\ninstead of {}", tree::show(&t), tree::show(&want));
        }
        None => return fail("invalid", format!("{v:?}\nof {sch:?}\nis serialized as {text:?}, which is not KDL")),
    }
    Ok(())
}

/// One part of the type has no KDL form.
fn p21_unsupported(s: &mut Src, c: &mut Case) -> Res {
    // something that holds more than a value
    let complex = match s.below(5) {
        0 => Sch::Struct(strukt(s, 0, Mode::Se, false, 1)),
        1 => Sch::Map(Box::new(arg(s))),
        2 => Sch::Seq(Box::new(arg(s)), 0),
        3 => Sch::Tup(args(s, 1, 3)),
        _ => {
            let names = names(&["Only"]);
            let v = if s.chance(1, 2) { Var::New(arg(s)) } else { Var::Tup(args(s, 2, 3)) };
            Sch::Enum(EnumSch { names, vars: vec![v] })
        }
    };
    let complex = if s.chance(1, 6) { Sch::New(Box::new(complex)) } else { complex };
    let st = |f: &str, t: Sch| Sch::Struct(StructSch { fields: names(&[f]), types: vec![t], deny: false });
    let inner = match s.below(6) {
        0 => Sch::Seq(Box::new(complex), 1),
        1 => Sch::Tup(vec![complex]),
        2 => st("#0", complex),
        3 => st("#@a", complex),
        4 => st(if s.chance(1, 2) { "#args" } else { "#rest" }, Sch::Seq(Box::new(complex), 1)),
        _ => {
            let v = if s.chance(1, 2) { Var::New(complex) } else { Var::Tup(vec![Sch::Bool, complex]) };
            Sch::Enum(EnumSch { names: names(&["Only"]), vars: vec![v] })
        }
    };
    // a node holds it, anywhere
    let mut sch = inner;
    for _ in 0..s.below(3) {
        sch = if s.chance(1, 2) { st("a", sch) } else { Sch::New(Box::new(sch)) };
    }
    let sch = match s.below(3) {
        0 => st("a", sch),
        1 => Sch::Tup(vec![sch]),
        _ => Sch::Seq(Box::new(sch), 1),
    };
    let v = dynser::value(s, &sch);
    c.input(format!("{v:?} of {sch:?}"), true);
    if let Ok(t) = kdl::se::to_string(&Ser(&sch, &v)) {
        return fail("accepted", format!("{v:?}\nof {sch:?}\nhas no KDL form and is serialized as {t:?}"));
    }
    Ok(())
}

/// Map keys of every kind that serde has.
fn p21_keys(s: &mut Src, c: &mut Case) -> Res {
    use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeTupleVariant, Serializer};
    #[derive(Debug)]
    enum Key {
        Plain(Sch, V),
        Some(Box<Key>),
        None,
        Unit,
        Seq(usize),
        Map,
        Bytes,
        NewVariant,
        TupVariant,
        Big,
    }
    impl Serialize for Key {
        fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
            match self {
                Key::Plain(t, v) => Ser(t, v).serialize(z),
                Key::Some(k) => z.serialize_some(&**k),
                Key::None => z.serialize_none(),
                Key::Unit => z.serialize_unit(),
                Key::Seq(n) => {
                    let mut q = z.serialize_seq(Some(*n))?;
                    for i in 0..*n {
                        q.serialize_element(&i)?;
                    }
                    q.end()
                }
                Key::Map => z.serialize_map(Some(0))?.end(),
                Key::Bytes => z.serialize_bytes(b"k"),
                Key::NewVariant => z.serialize_newtype_variant("E", 0, "Only", &1),
                Key::TupVariant => {
                    let mut q = z.serialize_tuple_variant("E", 0, "Only", 1)?;
                    q.serialize_field(&1)?;
                    q.end()
                }
                Key::Big => z.serialize_u128(u128::MAX),
            }
        }
    }
    struct Entries(Vec<(Key, u8)>);
    impl Serialize for Entries {
        fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
            let mut q = z.serialize_map(Some(self.0.len()))?;
            for (k, v) in &self.0 {
                q.serialize_entry(k, v)?;
            }
            q.end()
        }
    }
    #[derive(serde::Serialize)]
    struct In {
        a: Entries,
    }
    fn key(s: &mut Src) -> Key {
        match s.weighted(&[12, 2, 1]) {
            0 => {
                let t = scalar(s);
                let v = dynser::value(s, &t);
                Key::Plain(t, v)
            }
            1 => Key::Some(Box::new(key(s))),
            _ => match s.below(9) {
                0 => Key::None,
                1 => Key::Unit,
                2 => Key::Seq(s.below(3) as usize),
                3 => Key::Map,
                4 => Key::Bytes,
                5 => Key::NewVariant,
                6 => Key::TupVariant,
                7 => Key::Big,
                _ => Key::None,
            },
        }
    }
    /// None: not a name
    fn name(k: &Key) -> Option<String> {
        Some(match k {
            Key::Some(k) => return name(k),
            Key::Plain(t, v) => match plain_value(t, v) {
                Val::Str(s) => s,
                Val::Int(i) => i.to_string(),
                Val::Bool(b) => b.to_string(),
                Val::Float(f) => {
                    let mut v = v;
                    while let V::New(w) = v {
                        v = w;
                    }
                    if let V::F32(f) = v { f.to_string() } else { f.to_string() }
                }
                Val::Null => return None,
            },
            Key::Big => u128::MAX.to_string(),
            _ => return None,
        })
    }
    let m = Entries((0..s.range(1, 4)).map(|_| (key(s), s.below(100) as u8)).collect());
    let nested = s.chance(1, 2);
    let want: Option<Tree> = m
        .0
        .iter()
        .map(|(k, v)| {
            let mut n = bare(&name(k)?);
            n.entries.push(entry(None, Val::Int(*v as i128)));
            Some(n)
        })
        .collect();
    c.input(format!("{:?} (nested: {nested})", m.0), m.0.iter().any(|(k, _)| !matches!(k, Key::Plain(Sch::Str, _))));
    let want = want.map(|t| {
        if nested {
            let mut n = bare("a");
            n.children = Some(t);
            vec![n]
        } else {
            t
        }
    });
    let what = format!("{:?} (nested: {nested})", m.0);
    let got = if nested { kdl::se::to_document(&In { a: m }) } else { kdl::se::to_document(&m) };
    match (got, want) {
        (Ok(d), Some(want)) => {
            let got = tree::tree_of(&d);
            ensure!(got == want, "key", "a map with the keys and values {what}\nis serialized as {}\ninstead of {}", tree::show(&got), tree::show(&want));
        }
        (Err(e), Some(_)) => return fail("key-refused", format!("a map with the keys and values {what}: {e}")),
        (Ok(d), None) => return fail("key-accepted", format!("a map with the keys and values {what}\nis serialized as {d}")),
        (Err(_), None) => c.label("refused"),
    }
    Ok(())
}

// ---- P22 ----

fn sound(text: &str, e: &kdl::de::Error) -> Res {
    use miette::Diagnostic;
    let msg = e.to_string();
    ensure!(!msg.is_empty(), "message", "{text:?}: no message");
    let Some(src) = e.source_code() else { return fail("source", format!("{text:?}: {e} carries no source")) };
    let all = miette::SourceSpan::from((0, text.len()));
    let data = src.read_span(&all, 0, 0).map(|c| c.data().to_vec());
    ensure!(data.as_deref().ok() == Some(text.as_bytes()), "source", "{text:?}: {e} carries another source");
    ensure!(e.severity() == Some(miette::Severity::Error), "severity", "{text:?}");
    if let Some(s) = e.span() {
        let r = s.offset()..s.offset() + s.len();
        ensure!(text.get(r.clone()).is_some(), "span", "{text:?}: {e} points at {r:?}");
        let Some(d) = e.diagnostic() else { return fail("diagnostic", format!("{text:?}: {e} has a span and no diagnostic")) };
        ensure!(d.input.as_str() == text && d.span == s, "diagnostic", "{text:?}: {d:?}");
        let l: Vec<_> = e.labels().into_iter().flatten().collect();
        ensure!(l.len() == 1 && l[0].offset() == s.offset() && l[0].len() == s.len(), "labels", "{text:?}: {l:?}");
    }
    Ok(())
}

fn p22(s: &mut Src, c: &mut Case) -> Res {
    let f = Fault { countdown: Some(s.below(8)), marked: true, instead: None, done: None };
    let (sch, _, text, done, place) = written(s, f, None);
    let Some(done) = done else {
        c.label("nothing made wrong");
        c.input(format!("{text:?} as {sch:?}"), false);
        return Ok(());
    };
    c.label(done);
    c.input(format!("{done} in {text:?} as {sch:?}"), true);
    let e = match from_str(&sch, &text) {
        Ok(w) => return fail("accepted", format!("{text:?}\nas {sch:?}\nhas a wrong place ({done})\nand gives {w:?}")),
        Err(e) => e,
    };
    sound(&text, &e)?;
    // find the wrong place
    let doc = match KdlDocument::parse_v2(&text) {
        Ok(d) => d,
        Err(e) => return fail("generator", format!("{text:?}: {e:?}")),
    };
    let mut at = vec![];
    fn find(d: &KdlDocument, k: &mut usize, place: Option<usize>, at: &mut Vec<miette::SourceSpan>) {
        for n in d.nodes() {
            if n.name().value() == MARK {
                at.push(n.span());
            }
            at.extend(n.ty().filter(|t| t.value() == MARK).map(|t| t.span()));
            for e in n.entries() {
                at.extend(e.ty().filter(|t| t.value() == MARK).map(|t| t.span()));
                let here = match place {
                    Some(p) => p == *k,
                    None => e.value().as_string() == Some(MARK) || e.value().as_integer() == Some(MARK_INT),
                };
                *k += 1;
                if here || e.name().is_some_and(|n| n.value() == MARK) {
                    at.push(e.span());
                }
            }
            if let Some(c) = n.children() {
                find(c, k, place, at);
            }
        }
    }
    find(&doc, &mut 0, place, &mut at);
    ensure!(at.len() == 1, "generator", "{text:?}: {} wrong places", at.len());
    ensure!(e.span() == Some(at[0]), "place", "{text:?}\nas {sch:?}\nhas a wrong place at {:?} ({done})\nand the error ({e}) points at {:?}", at[0], e.span());
    Ok(())
}

fn p22_parse(s: &mut Src, c: &mut Case) -> Res {
    let text = mutate::text(s);
    let sch = root(s, Mode::De);
    let Err(p) = KdlDocument::parse(&text) else {
        c.input(&text, false);
        c.label("KDL after all");
        if let Err(e) = from_str(&sch, &text) {
            sound(&text, &e)?;
        }
        return Ok(());
    };
    c.input(&text, true);
    let e = match from_str(&sch, &text) {
        Ok(v) => return fail("accepted", format!("{text:?} is no KDL and gives {v:?}")),
        Err(e) => e,
    };
    sound(&text, &e)?;
    ensure!(e.diagnostic().as_ref() == p.diagnostics.first(), "first", "{text:?}: {:?} instead of {:?}", e.diagnostic(), p.diagnostics.first());
    let related: Vec<String> = miette::Diagnostic::related(&e).into_iter().flatten().map(|d| d.to_string()).collect();
    let want: Vec<String> = p.diagnostics.iter().map(|d| d.to_string()).collect();
    ensure!(related == want, "related", "{text:?}: {related:?} instead of {want:?}");
    if let Some(d) = p.diagnostics.first() {
        let label = miette::Diagnostic::labels(&e).into_iter().flatten().next();
        let (have, at) = (label.as_ref().and_then(|l| l.label()), label.as_ref().map(|l| *l.inner()));
        ensure!(at == Some(d.span) && e.span() == at, "place", "{text:?}: the error points at {at:?} and {:?} instead of {:?}", e.span(), d.span);
        ensure!(have == d.label.as_deref(), "label", "{text:?}: the label is {have:?} instead of {:?}", d.label);
    }
    Ok(())
}
