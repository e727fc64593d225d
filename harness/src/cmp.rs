//! Comparing the crate's values with the model, separating differences of
//! structure from differences of line numbers.

use crate::model::*;
use latex_ast::{ast1, ast2, ast3};

/// First structural difference and first line-number difference, if any.
#[derive(Default, Debug)]
pub struct Diff {
    pub shape: Option<String>,
    pub line: Option<String>,
}

impl Diff {
    fn sh(&mut self, path: &str, m: impl FnOnce() -> String) {
        if self.shape.is_none() {
            self.shape = Some(format!("{path}: {}", m()));
        }
    }
    fn ln(&mut self, path: &str, got: u32, want: u32, what: &str) {
        if got != want && self.line.is_none() {
            self.line = Some(format!(
                "{path}: {what} carries line {got}, it starts on line {want} of its container"
            ));
        }
    }
}

fn short(s: &str) -> String {
    let mut t: String = s.chars().take(60).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    format!("{t:?}")
}

fn kind(n: &N) -> &'static str {
    match n {
        N::Text(_) => "text",
        N::Break(_) => "paragraph break",
        N::Cmd { .. } => "command",
        N::Scope(..) => "scope",
        N::Env { .. } => "environment",
        N::Maths { .. } => "maths block",
        N::Raw(_) => "raw",
    }
}

fn str_eq(d: &mut Diff, path: &str, what: &str, got: &str, want: &str) {
    if got != want {
        d.sh(path, || format!("{what} is {}, expected {}", short(got), short(want)));
    }
}

fn len_eq(d: &mut Diff, path: &str, what: &str, got: usize, want: usize) -> bool {
    if got != want {
        d.sh(path, || format!("{got} {what}, expected {want}"));
    }
    got == want
}

fn k_eq(d: &mut Diff, path: &str, got: K, want: K) {
    if got != want {
        d.sh(path, || format!("bracket kind {got:?}, expected {want:?}"));
    }
}

pub fn cmp1(cs: &[ast1::Chunk], ns: &[N], path: &str, d: &mut Diff) {
    len_eq(d, path, "chunks", cs.len(), ns.len());
    let ls = lines_of(ns);
    for (i, (c, n)) in cs.iter().zip(ns).enumerate() {
        let p = format!("{path}/{i}");
        d.ln(&p, c.line_no(), ls[i], kind(n));
        match (c.variant(), n) {
            (ast1::ChunkVariant::Text(g), N::Text(w)) => str_eq(d, &p, "text", g, w),
            (ast1::ChunkVariant::Scope(g), N::Scope(k, w)) => {
                k_eq(d, &p, K::from1(g.variant()), *k);
                cmp1(g.chunks(), w, &p, d)
            }
            (ast1::ChunkVariant::Command(g), N::Cmd { label, args }) => {
                str_eq(d, &p, "command name", g.label(), label);
                len_eq(d, &p, "arguments", g.arguments().len(), args.len());
                for (j, ((gp, gs), w)) in g.arguments().iter().zip(args).enumerate() {
                    let q = format!("{p}.arg{j}");
                    str_eq(d, &q, "preceding whitespace", gp, &w.prec);
                    k_eq(d, &q, K::from1(gs.variant()), w.k);
                    cmp1(gs.chunks(), &w.content, &q, d);
                }
            }
            (g, w) => d.sh(&p, || {
                format!("found {}, expected a {}", short(&g.to_string()), kind(w))
            }),
        }
    }
}

fn cmp_args2(g: &[(String, ast2::Scope)], args: &[Arg], p: &str, d: &mut Diff) {
    len_eq(d, p, "arguments", g.len(), args.len());
    for (j, ((gp, gs), w)) in g.iter().zip(args).enumerate() {
        let q = format!("{p}.arg{j}");
        str_eq(d, &q, "preceding whitespace", gp, &w.prec);
        k_eq(d, &q, K::from2(gs.variant()), w.k);
        cmp2(gs.chunks(), &w.content, &q, d);
    }
}

pub fn cmp2(cs: &[ast2::Chunk], ns: &[N], path: &str, d: &mut Diff) {
    len_eq(d, path, "chunks", cs.len(), ns.len());
    let ls = lines_of(ns);
    for (i, (c, n)) in cs.iter().zip(ns).enumerate() {
        let p = format!("{path}/{i}");
        d.ln(&p, c.line_no(), ls[i], kind(n));
        match (c.variant(), n) {
            (ast2::ChunkVariant::Text(g), N::Text(w)) => str_eq(d, &p, "text", g, w),
            (ast2::ChunkVariant::Scope(g), N::Scope(k, w)) => {
                k_eq(d, &p, K::from2(g.variant()), *k);
                cmp2(g.chunks(), w, &p, d)
            }
            (ast2::ChunkVariant::Command(g), N::Cmd { label, args }) => {
                str_eq(d, &p, "command name", g.label(), label);
                cmp_args2(g.arguments(), args, &p, d);
            }
            (
                ast2::ChunkVariant::Environment(g),
                N::Env {
                    label,
                    pb,
                    args,
                    content,
                    pe,
                },
            ) => {
                str_eq(d, &p, "environment name", g.label(), label);
                let (_, ga, gc, gb, ge) = g.clone().decompose();
                str_eq(d, &p, "whitespace after begin", &gb, pb);
                str_eq(d, &p, "whitespace after end", &ge, pe);
                cmp_args2(&ga, args, &p, d);
                cmp2(&gc, content, &format!("{p}.content"), d);
            }
            (g, w) => d.sh(&p, || {
                format!("found {}, expected a {}", short(&g.to_string()), kind(w))
            }),
        }
    }
}

fn cmp_args3(g: &[(String, ast3::Scope)], args: &[Arg], p: &str, d: &mut Diff) {
    len_eq(d, p, "arguments", g.len(), args.len());
    for (j, ((gp, gs), w)) in g.iter().zip(args).enumerate() {
        let q = format!("{p}.arg{j}");
        str_eq(d, &q, "preceding whitespace", gp, &w.prec);
        k_eq(d, &q, K::from3(gs.variant()), w.k);
        cmp3(gs.chunks(), &w.content, &q, d);
    }
}

/// Debug text with line numbers blanked out.
fn blank(s: &str) -> String {
    let key = "line_no: ";
    let mut out = String::with_capacity(s.len());
    if s.contains(key) {
        let mut rest = s;
        while let Some(i) = rest.find(key) {
            out.push_str(&rest[..i + key.len()]);
            rest = rest[i + key.len()..].trim_start_matches(|c: char| c.is_ascii_digit());
            out.push('#');
        }
        out.push_str(rest);
    } else {
        let mut digit = false;
        for c in s.chars() {
            if c.is_ascii_digit() {
                if !digit {
                    out.push('#');
                }
                digit = true;
            } else {
                digit = false;
                out.push(c);
            }
        }
    }
    out
}

pub fn cmp3(cs: &[ast3::Chunk], ns: &[N], path: &str, d: &mut Diff) {
    len_eq(d, path, "chunks", cs.len(), ns.len());
    let ls = lines_of(ns);
    for (i, (c, n)) in cs.iter().zip(ns).enumerate() {
        let p = format!("{path}/{i}");
        d.ln(&p, c.line_no(), ls[i], kind(n));
        match (c.variant(), n) {
            (ast3::ChunkVariant::Text(g), N::Text(w)) => str_eq(d, &p, "text", g, w),
            (ast3::ChunkVariant::ParagraphBreak(g), N::Break(w)) => {
                str_eq(d, &p, "paragraph break", g, w)
            }
            (ast3::ChunkVariant::Scope(g), N::Scope(k, w)) => {
                k_eq(d, &p, K::from3(g.variant()), *k);
                cmp3(g.chunks(), w, &p, d)
            }
            (ast3::ChunkVariant::Command(g), N::Cmd { label, args }) => {
                str_eq(d, &p, "command name", g.label(), label);
                cmp_args3(g.arguments(), args, &p, d);
            }
            (
                ast3::ChunkVariant::Environment(g),
                N::Env {
                    label,
                    pb,
                    args,
                    content,
                    pe,
                },
            ) => {
                str_eq(d, &p, "environment name", g.label(), label);
                let (_, ga, gc, gb, ge) = g.clone().decompose();
                str_eq(d, &p, "whitespace after begin", &gb, pb);
                str_eq(d, &p, "whitespace after end", &ge, pe);
                cmp_args3(&ga, args, &p, d);
                cmp3(&gc, content, &format!("{p}.content"), d);
            }
            (
                ast3::ChunkVariant::MathsBlock(g),
                N::Maths {
                    dollars,
                    display,
                    content,
                },
            ) => {
                // no accessors: compare with the value the model builds
                let want =
                    ast3::MathsBlock::new_unchecked(mv(*dollars), mt(*display), build3(content));
                if g != &want {
                    let (a, b) = (format!("{g:?}"), format!("{want:?}"));
                    if blank(&a) == blank(&b) {
                        if d.line.is_none() {
                            d.line = Some(format!(
                                "{p}: wrong line numbers inside maths block {}: got {a}, expected {b}",
                                short(&want.to_string())
                            ));
                        }
                    } else {
                        d.sh(&p, || format!("maths block is {a}, expected {b}"));
                    }
                }
            }
            (g, w) => d.sh(&p, || {
                format!("found {}, expected a {}", short(&g.to_string()), kind(w))
            }),
        }
    }
}

/// A stage-3 document against the model's sections.
pub fn cmp_doc3(doc: &ast3::Document, want: &Doc3) -> Diff {
    let mut d = Diff::default();
    cmp3(doc.chunks_preamable(), &want.pre, "preamble", &mut d);
    cmp3(doc.chunks_trailing(), &want.trail, "trailing", &mut d);
    let (_, _, _, body, args, pb, pe, _) = doc.clone().decompose();
    match &want.body {
        Some(b) => {
            cmp3(&body, &b.content, "body", &mut d);
            cmp_args3(&args, &b.args, "body", &mut d);
            str_eq(&mut d, "body", "whitespace after begin", &pb, &b.pb);
            str_eq(&mut d, "body", "whitespace after end", &pe, &b.pe);
        }
        None => {
            cmp3(&body, &[], "body", &mut d);
            cmp_args3(&args, &[], "body", &mut d);
        }
    }
    d
}
