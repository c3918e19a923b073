//! Parsing and printing text: P01 (lossless round trip), P02 (valid documents
//! are accepted with the right content), P03 (invalid ones are rejected).

use super::Prop;
use crate::engine::{Case, Part, Res, Src, enum_index, fail};
use crate::{corpus, ensure, gen_text, mutate, refkdl, tree};
use kdl::KdlDocument;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            rule: "Texts are valid documents rendered from a generated content tree with every optional syntax choice drawn at random, mutations of such documents and of the conformance suite, token soup, small documents around one doubtful token, documents with one piece repeated up to 290 times, and every token sequence up to length 4 (5 in the thorough tier). Non-trivial: the text was accepted by the parser (so the printed form was compared with it) and has more than three characters.",
            assumptions: &["The tier's generators stand in for all texts; nesting stays below about ten levels."],
            parts: || {
                vec![
                    Part::random("doc-generated", 400_000, 6_000_000, p01_doc),
                    Part::random("doc-mutated", 500_000, 8_000_000, p01_mut),
                    Part::random("long-runs", 40_000, 800_000, p01_runs),
                    Part::random("doc-reprinted-pieces", 150_000, 2_000_000, p01_pieces),
                    Part::all("token-sequences", enum4, p01_enum),
                    Part::all("conformance-suite", n_corpus, p01_corpus),
                ]
            },
        },
        Prop {
            id: "P02",
            rule: "Documents are rendered by construction from a content tree (the tree is the oracle), plus mutated texts, small documents around one doubtful token, documents with one piece repeated up to 290 times, every token sequence up to length 4 (5 thorough) and the conformance suite, for which an independent reference parser written from the KDL 2.0 grammar is the oracle. Non-trivial: the text is valid and has more than three characters.",
            assumptions: &[
                "The reference parser reads the KDL 2.0 grammar correctly; it is cross-checked on every generated document against the tree it was rendered from.",
                "Inputs on which the grammar and the documented leniencies of the crate disagree are not judged (upper-case radix prefixes, numbers out of range, disallowed code points inside comments, slashdashed children without preceding space, raw multi-line closing quotes that follow text).",
            ],
            parts: || {
                vec![
                    Part::random("by-construction", 500_000, 8_000_000, p02),
                    Part::random("mutated", 500_000, 8_000_000, p02_mut),
                    Part::random("one-token", 400_000, 8_000_000, p02_targeted),
                    Part::random("long-runs", 60_000, 1_000_000, p02_runs),
                    Part::all("token-sequences", enum4, p02_enum),
                    Part::all("conformance-suite", n_corpus, p02_corpus),
                ]
            },
        },
        Prop {
            id: "P03",
            rule: "Texts are mutations of valid documents and of the conformance suite, token soup, small documents around one doubtful token, documents with one piece repeated up to 290 times (escapes, numbers, keywords, strings, spaces, types), and every token sequence up to length 4 (5 in the thorough tier); an independent reference parser decides which are invalid. Non-trivial: the reference rejects the text (so the parser has to as well).",
            assumptions: &[
                "The reference parser reads the KDL 2.0 grammar correctly.",
                "Inputs on which the grammar and the documented leniencies of the crate disagree are not judged (upper-case radix prefixes, numbers out of range, disallowed code points inside comments, slashdashed children without preceding space, raw multi-line closing quotes that follow text).",
            ],
            parts: || {
                vec![
                    Part::random("mutated", 1_000_000, 12_000_000, p03),
                    Part::random("one-token", 1_000_000, 20_000_000, p03_targeted),
                    Part::random("long-runs", 60_000, 1_000_000, p03_runs),
                    Part::all("token-sequences", enum4, p03_enum),
                    Part::all("conformance-suite", n_corpus, p03_corpus),
                ]
            },
        },
    ]
}

fn enum4(thorough: bool) -> u64 {
    mutate::enum_count(if thorough { 5 } else { 4 })
}
fn n_corpus(_: bool) -> u64 {
    corpus::v2().len() as u64
}

// ---- P01 ----

fn p01_doc(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_text::document(s);
    for l in &t.labels {
        c.label(l);
    }
    roundtrip(&t.text, c)
}

fn p01_mut(s: &mut Src, c: &mut Case) -> Res {
    let t = mutate::text(s);
    roundtrip(&t, c)
}

fn p01_enum(s: &mut Src, c: &mut Case) -> Res {
    roundtrip(&mutate::enumerated(enum_index(s)), c)
}

fn p01_corpus(s: &mut Src, c: &mut Case) -> Res {
    roundtrip(&corpus::v2()[enum_index(s) as usize].text, c)
}

fn roundtrip(text: &str, c: &mut Case) -> Res {
    c.input(text, false);
    let Ok(doc) = KdlDocument::parse_v2(text) else {
        c.label("rejected");
        return Ok(());
    };
    c.label("accepted");
    c.nontrivial = text.chars().count() > 3;
    let out = doc.to_string();
    ensure!(out == text, "doc-roundtrip", "printed {out:?}");
    // Parsing what was printed gives an equal document, and so does a clone.
    ensure!(doc.clone().to_string() == text, "clone-roundtrip", "clone printed {:?}", doc.clone().to_string());
    let again = KdlDocument::parse_v2(&out);
    ensure!(again.as_ref() == Ok(&doc), "reparse-equal", "printing and parsing again gives a different document");
    Ok(())
}

/// Each part of a parsed document prints exactly its own source text.
fn p01_pieces(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_text::document(s).text;
    c.input(&t, false);
    let Ok(doc) = KdlDocument::parse_v2(&t) else {
        c.label("rejected");
        return Ok(());
    };
    c.nontrivial = t.chars().count() > 3 && !doc.is_empty();
    let joined = |d: &KdlDocument| -> String {
        let mut o = String::new();
        if let Some(f) = d.format() {
            o.push_str(&f.leading);
        }
        for n in d.nodes() {
            o.push_str(&n.to_string());
        }
        if let Some(f) = d.format() {
            o.push_str(&f.trailing);
        }
        o
    };
    ensure!(joined(&doc) == t, "pieces-join", "the nodes print as {:?}", joined(&doc));
    let mut at = 0;
    for n in doc.nodes() {
        for e in n.entries() {
            let p = e.to_string();
            match t[at..].find(&p) {
                Some(i) => at += i + p.len(),
                None => return fail("entry-print", format!("entry prints {p:?}, which is not what follows at byte {at}")),
            }
        }
        if let Some(ch) = n.children() {
            let p = format!("{{{ch}}}");
            match t[at..].find(&p) {
                Some(i) => at += i + p.len(),
                None => return fail("children-print", format!("children print {p:?}, which is not what follows at byte {at}")),
            }
        }
    }
    Ok(())
}

// ---- P02 ----

fn p02(s: &mut Src, c: &mut Case) -> Res {
    let t = gen_text::document(s);
    c.input(&t.text, t.text.chars().count() > 3);
    for l in &t.labels {
        c.label(l);
    }
    let r = refkdl::parse(&t.text);
    match r.tree() {
        Some(rt) if r.gray.is_none() => ensure!(rt == t.tree, "HARNESS", "reference disagrees with construction: {:?} vs {:?}", tree::show(&rt), tree::show(&t.tree)),
        _ => return fail("HARNESS", format!("reference rejects: {:?} {:?}", r.verdict, r.gray)),
    }
    accepted_as(&t.text, &t.tree)
}

fn accepted_as(text: &str, want: &tree::Tree) -> Res {
    match KdlDocument::parse_v2(text) {
        Ok(d) => {
            let got = tree::tree_of(&d);
            ensure!(got == *want, "wrong-tree", "got {} want {}", tree::show(&got), tree::show(want));
        }
        Err(e) => return fail("rejected", format!("{e:?}")),
    }
    Ok(())
}

fn p02_mut(s: &mut Src, c: &mut Case) -> Res {
    p02_text(&mutate::text(s), c)
}
fn p01_runs(s: &mut Src, c: &mut Case) -> Res {
    roundtrip(&mutate::repeated(s), c)
}
fn p02_runs(s: &mut Src, c: &mut Case) -> Res {
    p02_text(&mutate::repeated(s), c)
}
fn p03_runs(s: &mut Src, c: &mut Case) -> Res {
    p03_text(&mutate::repeated(s), c)
}
fn p02_targeted(s: &mut Src, c: &mut Case) -> Res {
    p02_text(&mutate::targeted(s), c)
}
fn p03_targeted(s: &mut Src, c: &mut Case) -> Res {
    p03_text(&mutate::targeted(s), c)
}
fn p02_enum(s: &mut Src, c: &mut Case) -> Res {
    p02_text(&mutate::enumerated(enum_index(s)), c)
}
fn p02_text(t: &str, c: &mut Case) -> Res {
    let r = refkdl::parse(t);
    c.input(t, false);
    if r.gray.is_some() {
        c.label("not judged");
        return Ok(());
    }
    let Some(want) = r.tree() else {
        c.label("invalid");
        return Ok(());
    };
    c.label("valid");
    c.nontrivial = t.chars().count() > 3;
    accepted_as(t, &want)
}
fn p02_corpus(s: &mut Src, c: &mut Case) -> Res {
    let k = &corpus::v2()[enum_index(s) as usize];
    c.input(format!("{}: {}", k.name, k.text), !k.fail);
    if k.fail {
        return Ok(());
    }
    let r = refkdl::parse(&k.text);
    let Some(want) = r.tree() else {
        return fail("HARNESS", format!("reference rejects {}: {:?}", k.name, r.verdict));
    };
    accepted_as(&k.text, &want)?;
    // The suite says what the document means by giving it in canonical form.
    if let Some(e) = &k.expected {
        let er = refkdl::parse(e);
        let same = |a: &tree::Tree, b: &tree::Tree| tree::dedup(a) == tree::dedup(b);
        match er.tree() {
            Some(et) if same(&et, &want) => {}
            other => return fail("HARNESS", format!("suite expects {:?}, reference says {}", other.map(|t| tree::show(&t)), tree::show(&want))),
        }
    }
    Ok(())
}

// ---- P03 ----

fn p03(s: &mut Src, c: &mut Case) -> Res {
    p03_text(&mutate::text(s), c)
}
fn p03_enum(s: &mut Src, c: &mut Case) -> Res {
    p03_text(&mutate::enumerated(enum_index(s)), c)
}
fn p03_text(t: &str, c: &mut Case) -> Res {
    let r = refkdl::parse(t);
    c.input(t, false);
    if r.gray.is_some() {
        c.label("not judged");
        return Ok(());
    }
    if let refkdl::Verdict::Err(at, m) = r.verdict {
        c.label("invalid");
        c.nontrivial = true;
        if let Ok(d) = KdlDocument::parse_v2(t) {
            return fail(format!("accepted: {m}"), format!("at {at}: {m}; parsed as {}", tree::show(&tree::tree_of(&d))));
        }
    } else {
        c.label("valid");
    }
    Ok(())
}
fn p03_corpus(s: &mut Src, c: &mut Case) -> Res {
    let k = &corpus::v2()[enum_index(s) as usize];
    c.input(format!("{}: {}", k.name, k.text), k.fail);
    if !k.fail {
        return Ok(());
    }
    let r = refkdl::parse(&k.text);
    ensure!(matches!(r.verdict, refkdl::Verdict::Err(..)) || r.gray.is_some(), "HARNESS", "reference accepts {}", k.name);
    match KdlDocument::parse_v2(&k.text) {
        Ok(d) => fail("accepted", format!("{} parsed as {}", k.name, tree::show(&tree::tree_of(&d)))),
        Err(_) => Ok(()),
    }
}
