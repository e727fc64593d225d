//! The properties: which inputs, which oracle, what counts as non-trivial.

use crate::cmp;
use crate::engine::{Case, Kind, Prop, Stream, R};
use crate::gen;
use crate::model::*;
use crate::refp;
use crate::src::Src;
use crate::{alloc, convert, ctx, equality, faults, parts, relations, rename, values, walk};
use latex_ast::ast1::IntoChunks as _;
use latex_ast::ast2::IntoChunks as _;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, Error};

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
    "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
    "C29", "C30", "C31",
];

type OnText = fn(&str) -> R;

// ------------------------------------------------------------------ inputs

/// Characters that matter to stage 1.
const E_CHARS: &[&str] = &["\\", "a", "{", "}", "(", "[", "]", " ", "\n", "%", "$"];
const E_BRACKETS: &[&str] = &["\\c", "{", "}", "(", ")", "[", "]", " ", "x", "\n", "\\"];
const E_ENVS: &[&str] = &[
    "\\begin{a}", "\\end{a}", "\\begin{b}", "\\end{b}", "\n", "x", "{", "}", "[", "]", "\\end {a}",
];
const E_ENV_PARTS: &[&str] = &["\\begin", "\\end", "{a}", "[b]", "\n", "{", "}", "x", "\\c"];
const E_MATHS: &[&str] = &["$", "\\(", "\\)", "\\[", "\\]", "x", "\n", "\\c", "{", "}", "\\$"];
const E_SECTIONS: &[&str] = &[
    "\\begin{document}", "\\end{document}", "\\documentclass{c}", "\\documentclass[o]", "x", "\n", "\\c", "{",
    "}", "\\begin{a}", "\\end{a}",
];
const E_BREAKS: &[&str] = &["\n", " ", "a", "\t", "\u{a0}", "\\c", "{", "}"];
const E_OPTIONS: &[&str] = &["a", "=", " ", ",", "\n", "b"];
const E_COMMENTS: &[&str] = &["%", "\n", "\\", "a", "{", "}", " ", "$", "(", ")"];

/// Inputs on which the crate was wrong once, or nearly.
const SAVED: &[&str] = &[
    "",
    "a%\\\nb",
    "a%\\\\\nb",
    "%\\",
    "x%{\n}",
    "\\",
    "\\a\\",
    "{\\}",
    "a\\",
    "(x)",
    "[x]",
    "\\a{b{c}d}",
    "\\a[b[c]d](e(f)g)",
    "\\a\\{b\\}",
    "\\a\\ \\b",
    "\\a\\[x\\]",
    "\\a \\(x\\)",
    "\\\n\\a\n\\\n",
    "\\a\n\n",
    "\\a{\n}\n \n",
    "x\n\\a\n{b}\n[\n{]",
    "\\a\n{\n\\b}\n}",
    "$\\alpha$",
    "$\\a$\\b$c$",
    "\\begin\n{a}\n{x\n}\nb\\end\n{a}\nc",
    "x\n\\begin\n{a}\ny\\end{b}",
    "x\n{\\begin{a}\n\\end{b}\\end{a}}",
    "\\c{\n\\end{a}}",
    "\\begin{a}{\n\\end{b}}\\end{a}",
    "\\begin{a}\n\\begin{a}\n\\end{a}\n\\end{a}",
    "\\(a\\(b\\)c\\)",
    "\\[\n\\[\n\\]\n\\x\\]",
    "\\(\n\\x\n{y}\\)",
    "$a\\x b$",
    "\n\n$\\x\n\\y$\n\\z",
    "$$a$b$$",
    "$$a$\\x$$",
    "$$$$",
    "$$",
    "$a",
    "\n$a",
    "\na\n$$b\n",
    "a\n\n\nb\n\n\n\nc",
    "\n\n\n",
    "a \n \n b",
    "\\begin{document}a\\end{document}\\begin{document}b\\end{document}",
    "\\begin\n{document}a\\end {document}\n\\x",
    "\\begin {a}x\\end\n{a}",
    "x\n\n\\y",
    "\\documentclass[abc, key = v al , =x, y=]{art icle}",
    "\\documentclass[a=b=c](d)",
    "\\documentclass[,]{}",
    "a\n\\documentclass{b}\n\\documentclass{c}",
    "x\n\\begin{document}\ny\n\\end{document}\nz\n\\c{\n}",
    "\\begin{document}\\end{document}\\t",
    "x\n{$}\n",
    "x\n\\begin{e}\n\\)\n\\end{e}",
    "a\n\nb\n\n$c$\n\nd",
    "{a\n\nb}\\c{x\n\n}\\begin{e}y\n\n\\end{e}$z\n\n$",
    "\\begin{document}[\n](\\x)a\\end{document}",
    "é漢\u{2028}😀\\é\\漢{x}",
    "\\a\u{a0}{b}\u{3000}[c]",
    "\\%a\\%\\\\%b",
    "\\begin{a\\x b}c\\end{a\\x b}",
    "\\begin{{a}}c\\end{{a}}",
    "\\c(})[{]{)}",
    "{(})",
    "\\documentclass{a}{b}",
    "\\end{a}{b}",
    "\\begin{a}\\end{a}{b}",
    "\\begin[a]",
    "\\c}",
    "\\c }",
    "\\c{}}",
];

fn saved(f: OnText) -> Stream {
    Stream {
        name: "saved inputs",
        kind: Kind::Fixed {
            f: Box::new(f),
            inputs: SAVED.iter().map(|s| s.to_string()).collect(),
        },
    }
}

fn all(name: &'static str, f: OnText, tokens: &'static [&'static str], quick: u32, thorough: u32) -> Stream {
    Stream {
        name,
        kind: Kind::Exhaustive {
            f: Box::new(f),
            tokens,
            quick,
            thorough,
        },
    }
}

/// All strings of tokens standing between a fixed head and tail.
fn all_in(
    name: &'static str,
    f: OnText,
    head: &'static str,
    tail: &'static str,
    tokens: &'static [&'static str],
    quick: u32,
    thorough: u32,
) -> Stream {
    Stream {
        name,
        kind: Kind::Exhaustive {
            f: Box::new(move |s| f(&format!("{head}{s}{tail}"))),
            tokens,
            quick,
            thorough,
        },
    }
}

fn random(name: &'static str, f: fn(&mut Src) -> R, max: usize, quick: u64, thorough: u64) -> Stream {
    Stream {
        name,
        kind: Kind::Random {
            f: Box::new(f),
            min: 2,
            max,
            quick,
            thorough,
        },
    }
}

fn drawn(name: &'static str, g: fn(&mut Src) -> String, f: OnText, max: usize, quick: u64, thorough: u64) -> Stream {
    Stream {
        name,
        kind: Kind::Random {
            f: Box::new(move |s| f(&g(s))),
            min: 2,
            max,
            quick,
            thorough,
        },
    }
}

fn g_doc(s: &mut Src) -> String {
    gen::doc(s, gen::Opts::ALL).print()
}
fn g_commented(s: &mut Src) -> String {
    let seed: Vec<u16> = (0..24).map(|_| s.raw()).collect();
    let d = g_doc(s);
    gen::with_comments(&mut Src::new(&seed), &d).0
}

/// Random text of every kind; `n` cases of the main generators.
fn texts(f: OnText, n: u64) -> Vec<Stream> {
    let t = n * 40;
    vec![
        drawn("well-formed documents", g_doc, f, 400, n * 2, t * 2),
        drawn("well-formed documents with comments", g_commented, f, 400, n / 2, t / 2),
        drawn("loosely closed noise", gen::sloppy, f, 60, n, t),
        drawn("token noise", gen::soup, f, 30, n, t),
        drawn("few kinds of tokens", gen::swarm, f, 60, n, t),
        drawn("well-formed documents, edited", gen::mutated, f, 300, n, t),
        drawn("arbitrary Unicode", gen::unicode, f, 60, n / 2, t / 2),
        drawn("long and deep documents", gen::big, f, 9, 3000, 60_000),
        drawn("documents of some size", gen::sizable, f, 9, n / 8, t / 8),
    ]
}

fn short_texts(f: OnText) -> Vec<Stream> {
    vec![
        saved(f),
        all("all short strings of stage-1 characters", f, E_CHARS, 6, 7),
        all("all short strings of commands and brackets", f, E_BRACKETS, 5, 7),
        all("all short strings of begin and end commands", f, E_ENVS, 5, 7),
        all("all short strings of maths delimiters", f, E_MATHS, 6, 7),
        all("all short strings of document parts", f, E_SECTIONS, 5, 6),
        all("all short strings of whitespace", f, E_BREAKS, 5, 7),
    ]
}

fn both(f: OnText, n: u64) -> Vec<Stream> {
    let mut v = short_texts(f);
    v.extend(texts(f, n));
    v
}

const RULE_TEXT: &str = "the source is accepted by the parsers the property speaks about and holds at least one command, bracket, maths delimiter or paragraph break";

// ------------------------------------------------------------------ oracles

fn busy(s: &str) -> bool {
    s.chars().any(|c| matches!(c, '\\' | '{' | '(' | '[' | '$')) || s.contains("\n\n")
}

fn p1(s: &str) -> Result<ast1::Document, Error> {
    s.parse()
}
fn p2(s: &str) -> Result<ast2::Document, Error> {
    s.parse()
}
fn p3(s: &str) -> Result<ast3::Document, Error> {
    s.parse()
}

fn spelled(stage: u8, s: &str, got: Option<String>) -> R {
    let ok = got.is_some();
    if let Some(g) = got {
        let want = refp::strip_comments(s);
        if g != want {
            return Err(format!(
                "stage {stage} prints {g:?} for the source {s:?} (without comments: {want:?})"
            ));
        }
    }
    Ok(Case::new(s, ok && busy(s))
        .label(ok, "accepted")
        .label(!ok, "rejected")
        .label(ok && s.contains('%'), "accepted, with a percent sign"))
}

fn c01(s: &str) -> R {
    let d = p1(s).ok();
    if let Some(d) = &d {
        let parts: String = d.chunks().iter().map(|c| c.to_string()).collect();
        if parts != d.to_string() {
            return Err(format!("the nodes of {s:?} print {parts:?}, the document {:?}", d.to_string()));
        }
    }
    spelled(1, s, d.map(|d| d.to_string()))
}
fn c02(s: &str) -> R {
    spelled(2, s, p2(s).ok().map(|d| d.to_string()))
}
fn c03(s: &str) -> R {
    spelled(3, s, p3(s).ok().map(|d| d.to_string()))
}

fn outcome(s: &str, ok: bool) -> Case {
    Case::new(s, ok && busy(s))
        .label(ok, "well formed")
        .label(!ok, "not well formed")
}

fn shape(stage: u8, s: &str, d: &cmp::Diff) -> Result<(), String> {
    match &d.shape {
        Some(m) => Err(format!("stage {stage} misreads {s:?}: at {m}")),
        None => Ok(()),
    }
}

fn refused(stage: u8, s: &str, e: Error) -> String {
    format!("stage {stage} rejects the well-formed {s:?} with {e:?}")
}

/// What breaks the rules a property speaks about is not read as something else.
fn not_accepted<T>(stage: u8, s: &str, got: Result<T, Error>, bad: refp::Bad) -> R {
    match got {
        Ok(_) => Err(format!("stage {stage} accepts {s:?}, which breaks a rule: {bad:?}")),
        Err(_) => Ok(outcome(s, false)),
    }
}

fn c04(s: &str) -> R {
    let want = match refp::parse1(s) {
        Ok(w) => w,
        Err(b) => return not_accepted(1, s, p1(s), b),
    };
    let d = p1(s).map_err(|e| refused(1, s, e))?;
    let mut diff = cmp::Diff::default();
    cmp::cmp1(d.chunks(), &want, "", &mut diff);
    shape(1, s, &diff)?;
    Ok(outcome(s, true))
}
fn c04_tree(s: &mut Src) -> R {
    let m = lower21(&lower32(&gen::doc(s, gen::Opts::ALL).flat()));
    let text = print(&m);
    let d = p1(&text).map_err(|e| refused(1, &text, e))?;
    let mut diff = cmp::Diff::default();
    cmp::cmp1(d.chunks(), &m, "", &mut diff);
    shape(1, &text, &diff)?;
    Ok(outcome(&text, true))
}

fn envs(ns: &[N]) -> usize {
    ns.iter()
        .map(|n| match n {
            N::Env { args, content, .. } => 1 + envs(content) + args.iter().map(|a| envs(&a.content)).sum::<usize>(),
            N::Scope(_, c) | N::Maths { content: c, .. } => envs(c),
            N::Cmd { args, .. } => args.iter().map(|a| envs(&a.content)).sum(),
            _ => 0,
        })
        .sum()
}
fn count(ns: &[N], f: &dyn Fn(&N) -> bool) -> usize {
    ns.iter()
        .map(|n| {
            f(n) as usize
                + match n {
                    N::Env { args, content, .. } => {
                        count(content, f) + args.iter().map(|a| count(&a.content, f)).sum::<usize>()
                    }
                    N::Scope(_, c) | N::Maths { content: c, .. } => count(c, f),
                    N::Cmd { args, .. } => args.iter().map(|a| count(&a.content, f)).sum(),
                    _ => 0,
                }
        })
        .sum()
}

fn c05(s: &str) -> R {
    // the pairing of what stage 1 found
    if let Ok(d1) = p1(s) {
        match refp::stage2(&read1(d1.chunks())) {
            Ok(want) => {
                let d2 = ast2::Document::try_from(d1).map_err(|e| refused(2, s, e))?;
                let mut diff = cmp::Diff::default();
                cmp::cmp2(d2.chunks(), &want, "", &mut diff);
                shape(2, s, &diff)?;
            }
            Err(b) => {
                not_accepted(2, s, ast2::Document::try_from(d1), b)?;
            }
        }
    }
    let Ok(want) = refp::parse2(s) else {
        return Ok(Case::new(s, false).label(true, "not well formed"));
    };
    let d = p2(s).map_err(|e| refused(2, s, e))?;
    let mut diff = cmp::Diff::default();
    cmp::cmp2(d.chunks(), &want, "", &mut diff);
    shape(2, s, &diff)?;
    let n = envs(&want);
    Ok(Case::new(s, n > 0)
        .label(n > 0, "with environments")
        .label(n > 1, "with several environments"))
}
fn c05_tree(s: &mut Src) -> R {
    let m = lower32(&gen::doc(s, gen::Opts::ALL).flat());
    let text = print(&m);
    let d = p2(&text).map_err(|e| refused(2, &text, e))?;
    let mut diff = cmp::Diff::default();
    cmp::cmp2(d.chunks(), &m, "", &mut diff);
    shape(2, &text, &diff)?;
    let n = envs(&m);
    Ok(Case::new(text, n > 0)
        .label(n > 0, "with environments")
        .label(n > 1, "with several environments"))
}

fn all3(d: &Doc3) -> Vec<N> {
    d.flat()
}

/// Stage 3 against the reference reader; the case is non-trivial by `nt`.
fn stage3(s: &str, nt: fn(&Doc3) -> bool) -> Result<(Case, Option<(ast3::Document, Doc3)>), String> {
    let Ok(want) = refp::parse3(s) else {
        return Ok((outcome(s, false), None));
    };
    let d = p3(s).map_err(|e| refused(3, s, e))?;
    let diff = cmp::cmp_doc3(&d, &want);
    shape(3, s, &diff)?;
    let n = nt(&want);
    Ok((Case::new(s, n).label(true, "well formed").label(n, "non-trivial"), Some((d, want))))
}
fn tree3(s: &mut Src, nt: fn(&Doc3) -> bool) -> R {
    let m = gen::doc(s, gen::Opts::ALL);
    let text = m.print();
    let d = p3(&text).map_err(|e| refused(3, &text, e))?;
    shape(3, &text, &cmp::cmp_doc3(&d, &m))?;
    let n = nt(&m);
    Ok(Case::new(text, n).label(n, "non-trivial"))
}

fn has_maths(d: &Doc3) -> bool {
    count(&all3(d), &|n| matches!(n, N::Maths { .. })) > 0
}
fn has_break(d: &Doc3) -> bool {
    count(&all3(d), &|n| matches!(n, N::Break(_))) > 0
}

fn c06(s: &str) -> R {
    if let Err(b @ (refp::Bad::MathsEnd | refp::Bad::UnclosedMaths)) = refp::parse3(s) {
        return not_accepted(3, s, p3(s), b);
    }
    Ok(stage3(s, has_maths)?.0)
}
fn c06_tree(s: &mut Src) -> R {
    tree3(s, has_maths)
}

fn pieces3(cs: &[ast3::Chunk], s: &str) -> Result<(), String> {
    let mut last_text = false;
    for c in cs {
        let mut is_text = false;
        match c.variant() {
            ast3::ChunkVariant::Text(t) => {
                is_text = true;
                if t.is_empty() {
                    return Err(format!("an empty piece of text in {s:?}"));
                }
                if last_text {
                    return Err(format!("text is cut for no reason before {t:?} in {s:?}"));
                }
                if refp::paragraphs(t).len() != 1 {
                    return Err(format!("the text {t:?} of {s:?} holds a paragraph break"));
                }
            }
            ast3::ChunkVariant::ParagraphBreak(t) => {
                if !t.starts_with('\n') || newlines(t) < 2 || t.chars().any(|c| !c.is_whitespace()) {
                    return Err(format!("{t:?} of {s:?} is not a paragraph break"));
                }
            }
            ast3::ChunkVariant::Scope(k) => pieces3(k.chunks(), s)?,
            ast3::ChunkVariant::Command(k) => {
                for a in k.arguments() {
                    pieces3(a.1.chunks(), s)?
                }
            }
            ast3::ChunkVariant::Environment(e) => {
                let (_, a, c, _, _) = e.clone().decompose();
                for a in a {
                    pieces3(a.1.chunks(), s)?
                }
                pieces3(&c, s)?
            }
            ast3::ChunkVariant::MathsBlock(_) => {}
        }
        last_text = is_text;
    }
    Ok(())
}

fn c07(s: &str) -> R {
    if let Ok(d) = p3(s) {
        pieces3(d.chunks_preamable(), s)?;
        pieces3(d.chunks_body(), s)?;
        pieces3(d.chunks_trailing(), s)?;
    }
    Ok(stage3(s, has_break)?.0)
}
fn c07_tree(s: &mut Src) -> R {
    tree3(s, has_break)
}
/// One run of text by itself, over all Unicode whitespace.
fn g_run(s: &mut Src) -> String {
    let mut o = String::new();
    while !s.done() {
        match s.weighted(&[4, 3, 3]) {
            0 => o.push('\n'),
            1 => o.push(*s.pick(gen::WS)),
            _ => o.push_str(s.pick(&["a", "b ", "\u{200b}", "é", "\\c", "{x}", "\\\n", "\\ "])),
        }
    }
    o
}

fn show3(cs: &[ast3::Chunk]) -> String {
    cs.iter().map(|c| c.to_string()).collect()
}

fn c08(s: &str) -> R {
    let nt = |d: &Doc3| d.body.is_some();
    let Ok(want) = refp::parse3(s) else {
        return Ok(outcome(s, false));
    };
    let d = p3(s).map_err(|e| refused(3, s, e))?;
    for (name, got, want) in [
        ("preamble", d.chunks_preamable(), print(&want.pre)),
        (
            "body",
            d.chunks_body(),
            want.body.as_ref().map(|b| print(&b.content)).unwrap_or_default(),
        ),
        ("trailing part", d.chunks_trailing(), print(&want.trail)),
    ] {
        let got = show3(got);
        if got != want {
            return Err(format!("the {name} of {s:?} is {got:?}, expected {want:?}"));
        }
    }
    let (_, _, pre, body, _, pb, pe, trail) = d.clone().decompose();
    if &pre != d.chunks_preamable() || &body != d.chunks_body() || &trail != d.chunks_trailing() {
        return Err(format!("the sections of {s:?} differ when taken apart"));
    }
    if let Some(b) = &want.body {
        if (&pb, &pe) != (&b.pb, &b.pe) {
            return Err(format!("whitespace after begin and end of {s:?} is {pb:?} and {pe:?}"));
        }
    }
    Ok(stage3(s, nt)?.0)
}
fn c08_tree(s: &mut Src) -> R {
    tree3(s, |d| d.body.is_some())
}

/// C09
fn c09(s: &str) -> R {
    let Ok(m2) = refp::parse2(s) else {
        return Ok(outcome(s, false));
    };
    let at = m2
        .iter()
        .position(|n| matches!(n, N::Env { label, .. } if label == "document"))
        .unwrap_or(m2.len());
    let Ok((class, lists)) = refp::class_args(&m2[..at]) else {
        return Ok(outcome(s, false));
    };
    let classes = m2[..at]
        .iter()
        .filter(|n| matches!(n, N::Cmd { label, .. } if label == "documentclass"))
        .count();
    if classes > 1 || refp::sections(&m2).is_err() {
        return Ok(outcome(s, false));
    }
    let d = p3(s).map_err(|e| refused(3, s, e))?;
    let (got_class, opts, ..) = d.decompose();
    if got_class != class {
        return Err(format!("the class of {s:?} is read as {got_class:?}, expected {class:?}"));
    }
    let want: Vec<&str> = lists.iter().flat_map(|l| l.split(',')).collect();
    if opts.len() != want.len() {
        return Err(format!("{s:?} has options {want:?}, read as {opts:?}"));
    }
    for (o, w) in opts.iter().zip(&want) {
        let e = |m: &str| Err(format!("option {w:?} of {s:?} is read as {o:?}: {m}"));
        let (prec, key, val, post) = o;
        let blank = |t: &str| t.chars().all(char::is_whitespace);
        let mut spelled = format!("{prec}{key}");
        if let Some((a, b, v)) = val {
            if !blank(a) || !blank(b) {
                return e("a whitespace piece around the equals sign is not whitespace");
            }
            if v.trim() != v {
                return e("the value has whitespace around it");
            }
            spelled.push_str(&format!("{a}={b}{v}"));
        }
        spelled.push_str(post);
        if !blank(prec) || !blank(post) {
            return e("a whitespace piece is not whitespace");
        }
        if key.trim() != key {
            return e("the key has whitespace around it");
        }
        if key.contains('=') {
            return e("the key holds an equals sign");
        }
        if val.is_some() != w.contains('=') {
            return e("the value is there without an equals sign, or missing with one");
        }
        if &spelled != w {
            return e("the pieces do not spell the entry");
        }
        if let Some((k, v)) = w.split_once('=') {
            if k.trim() != key || v.trim() != val.as_ref().unwrap().2 {
                return e("wrong key or value");
            }
        } else if w.trim() != key {
            return e("wrong key");
        }
    }
    Ok(Case::new(s, classes == 1)
        .label(classes == 1, "with a class command")
        .label(!want.is_empty(), "with options")
        .label(want.iter().any(|w| w.contains('=')), "with a value"))
}
fn g_class(s: &mut Src) -> String {
    let n = s.below(3);
    let (lead, gap) = (*s.pick(&["", "", "x\n", "\\c{y}.\n"]), gen::ws(s, 2));
    let mut o = format!("{lead}\\documentclass{gap}");
    for _ in 0..n {
        let (a, b) = *s.pick(&[("[", "]"), ("(", ")")]);
        let t = gen::option_text(s);
        let g = gen::ws(s, 1);
        o.push_str(&format!("{a}{t}{b}{g}"));
    }
    let t = gen::option_text(s).replace(',', "");
    o.push_str(&format!("{{{t}}}"));
    o.push_str(s.pick(&["", "\\begin{document}\\documentclass{z}\\end{document}", "\n\\c"]));
    o
}

fn first_diff(a: &str, b: &str) -> String {
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let cut = |t: &str| t.chars().skip(n.saturating_sub(40)).take(100).collect::<String>();
    format!("…{} instead of …{}", cut(a), cut(b))
}

fn equal<T: PartialEq + std::fmt::Debug>(got: &T, want: &T, what: impl FnOnce() -> String) -> Result<(), String> {
    if got != want {
        return Err(format!(
            "{}: {}",
            what(),
            first_diff(&format!("{got:?}"), &format!("{want:?}"))
        ));
    }
    Ok(())
}

/// C10
fn c10(s: &str) -> R {
    let Ok(d2) = p2(s) else {
        return Ok(outcome(s, false));
    };
    let d1 = p1(s).map_err(|e| format!("stage 2 accepts {s:?}, stage 1 does not: {e:?}"))?;
    let back = ast1::Document::from(d2.clone());
    equal(&back, &d1, || format!("stage 2 of {s:?} converted back differs from stage 1"))?;
    let mut pushed = ast1::Document::default();
    for c in d2.chunks_owned() {
        pushed.push_into_unchecked(c);
    }
    equal(&pushed, &d1, || format!("nodes of {s:?} pushed back one by one differ from stage 1"))?;
    Ok(Case::new(s, s.contains("\\begin"))
        .label(true, "accepted")
        .label(s.contains("\\begin"), "with an environment"))
}
fn c10_tree(s: &mut Src) -> R {
    let m2 = lower32(&gen::doc(s, gen::Opts::ALL).flat());
    let m1 = lower21(&m2);
    let want = doc1(&m1);
    let back = ast1::Document::from(doc2(&m2));
    let text = print(&m2);
    equal(&back, &want, || format!("the stage-2 value printing {text:?} converts wrongly"))?;
    for n in &m2 {
        match n {
            N::Scope(k, c) => equal(&ast1::Scope::from(scope2(*k, c)), &scope1(*k, &lower21(c)), || {
                format!("a scope of {text:?} converts wrongly")
            })?,
            N::Cmd { .. } => {
                let ast2::ChunkVariant::Command(c) = variant2(n) else {
                    unreachable!()
                };
                equal(
                    &ast1::ChunkVariant::Command(ast1::Command::from(c)),
                    &variant1(&lower21(std::slice::from_ref(n))[0]),
                    || format!("a command of {text:?} converts wrongly"),
                )?
            }
            _ => {}
        }
    }
    let line = 1 + s.below(9) as u32;
    for n in &m2 {
        let got = ast2::Chunk::new_unchecked(line, variant2(n)).into_chunks();
        let want: Vec<_> = build1(&lower21(std::slice::from_ref(n)))
            .into_iter()
            .map(|c| {
                let l = c.line_no();
                ast1::Chunk::new_unchecked(l + line - 1, c.variant_owned())
            })
            .collect();
        equal(&got, &want, || format!("a node of {text:?} expands wrongly"))?;
    }
    let n = envs(&m2);
    Ok(Case::new(text, n > 0).label(n > 1, "with several environments"))
}

/// C11
fn c11(s: &str) -> R {
    let Ok(d3) = p3(s) else {
        return Ok(outcome(s, false));
    };
    let d2 = p2(s).map_err(|e| format!("stage 3 accepts {s:?}, stage 2 does not: {e:?}"))?;
    let back = ast2::Document::from(d3);
    equal(&back, &d2, || format!("stage 3 of {s:?} converted back differs from stage 2"))?;
    Ok(Case::new(s, busy(s))
        .label(true, "accepted")
        .label(s.contains('$') || s.contains("\\("), "with maths")
        .label(s.contains("\\begin{document}"), "with a document environment"))
}
fn c11_tree(s: &mut Src) -> R {
    let m = gen::doc(s, gen::Opts::ALL);
    let text = m.print();
    let flat = m.flat();
    let m2 = lower32(&flat);
    if m.body.is_some() {
        let back = ast2::Document::from(doc3(&m, None, vec![]));
        equal(&back, &doc2(&m2), || {
            format!("the stage-3 value printing {text:?} converts wrongly")
        })?;
    }
    for n in &flat {
        let one = std::slice::from_ref(n);
        match variant3(n) {
            ast3::ChunkVariant::Scope(sc) => {
                let N::Scope(k, c) = n else { unreachable!() };
                equal(&ast2::Scope::from(sc), &scope2(*k, &lower32(c)), || {
                    format!("a scope of {text:?} converts wrongly")
                })?
            }
            ast3::ChunkVariant::Command(c) => equal(
                &ast2::ChunkVariant::Command(ast2::Command::from(c)),
                &variant2(&lower32(one)[0]),
                || format!("a command of {text:?} converts wrongly"),
            )?,
            ast3::ChunkVariant::Environment(e) => equal(
                &ast2::ChunkVariant::Environment(ast2::Environment::from(e)),
                &variant2(&lower32(one)[0]),
                || format!("an environment of {text:?} converts wrongly"),
            )?,
            ast3::ChunkVariant::MathsBlock(b) => {
                // the block alone: its nodes, merged, are the lowered ones
                let mut d = ast2::Document::default();
                for c in b.into_chunks() {
                    d.push_chunk_unchecked(c);
                }
                equal(&d, &doc2(&lower32(one)), || format!("a maths block of {text:?} converts wrongly"))?
            }
            _ => {}
        }
    }
    let nt = has_maths(&m) || has_break(&m) || m.body.is_some();
    Ok(Case::new(text, nt)
        .label(has_maths(&m), "with maths")
        .label(m.body.is_some(), "with a document environment"))
}

/// C12
fn line_case(stage: u8, s: &str, d: cmp::Diff) -> Result<(), String> {
    match (d.shape, d.line) {
        (None, Some(m)) => Err(format!("stage {stage} of {s:?}: {m}")),
        _ => Ok(()),
    }
}
fn c12(s: &str) -> R {
    let w1 = refp::parse1(s);
    if let (Ok(w), Ok(d)) = (&w1, p1(s)) {
        let mut diff = cmp::Diff::default();
        cmp::cmp1(d.chunks(), w, "", &mut diff);
        line_case(1, s, diff)?;
    }
    let w2 = w1.and_then(|n| refp::stage2(&n));
    if let (Ok(w), Ok(d)) = (&w2, p2(s)) {
        let mut diff = cmp::Diff::default();
        cmp::cmp2(d.chunks(), w, "", &mut diff);
        line_case(2, s, diff)?;
    }
    let w3 = w2.and_then(|n| refp::sections(&n));
    let mut deep = false;
    if let (Ok(w), Ok(d)) = (&w3, p3(s)) {
        line_case(3, s, cmp::cmp_doc3(&d, w))?;
        deep = true;
    }
    let nt = deep && busy(s) && s.contains('\n');
    Ok(Case::new(s, nt).label(deep, "accepted at stage 3").label(nt, "several lines"))
}
fn c12_tree(s: &mut Src) -> R {
    let lead = *s.pick(&[0usize, 0, 1, 3]);
    let m = gen::doc(s, gen::Opts::ALL);
    let text = format!("{}{}", "l\n".repeat(lead), m.print());
    c12(&text)
}

/// C13
fn c13(s: &str) -> R {
    let want = newlines(&refp::strip_comments(s)) + 1;
    let count = |stage: u8, got: u32| {
        if got != want {
            Err(format!("stage {stage} reports {got} lines for {s:?}, which has {want}"))
        } else {
            Ok(())
        }
    };
    let mut nt = false;
    if let Ok(d) = p1(s) {
        walk::lines_doc1(&d)?;
        count(1, d.lines())?;
        nt = s.contains('\n') && busy(s);
    }
    if let Ok(d) = p2(s) {
        walk::lines_doc2(&d)?;
        count(2, d.lines())?;
    }
    if let Ok(d) = p3(s) {
        walk::lines_doc3(&d)?;
        count(3, d.lines())?;
    }
    Ok(Case::new(s, nt).label(nt, "accepted, several lines"))
}

/// C15
fn c15(s: &str) -> R {
    let a = p1(s);
    if let Ok(d) = &a {
        values::up_down1(d.clone());
    }
    let b = p2(s);
    if let Ok(d) = &b {
        values::exercise(d);
    }
    let c = p3(s);
    if let Ok(d) = &c {
        values::exercise(d);
    }
    for e in [a.err(), b.err(), c.err()].into_iter().flatten() {
        let _ = (e.to_string(), format!("{e:?}"));
    }
    Ok(Case::new(s, busy(s)))
}
/// C15 on a stack of the size main threads usually have.
fn c15_stack(s: &str) -> R {
    let s = s.to_string();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || crate::engine::guarded(|| c15(&s)))
        .expect("a thread")
        .join()
        .expect("guarded")
}
/// Several hundred levels of mixed nesting, closed or not.
fn g_deep(s: &mut Src) -> String {
    const P: &[(&str, &str)] = &[
        ("{", "}"),
        ("(", ")"),
        ("[", "]"),
        ("\\c{", "}"),
        ("\\c\n[", "]"),
        ("\\c{}(\n", ")"),
        ("\\begin{a}", "\\end{a}"),
        ("\\begin{b}[\n]", "\\end\n{b}"),
        ("\\(", "\\)"),
        ("\\[\n", "\\]"),
        ("\n\nx", ""),
    ];
    let n = *s.pick(&[50usize, 100, 200, 300]);
    let kinds = 1 + s.below(4);
    let picks: Vec<_> = (0..kinds).map(|_| *s.pick(P)).collect();
    let missing = if s.chance(1, 4) { 1 + s.below(3) } else { 0 };
    let mut o = String::new();
    for i in 0..n {
        o.push_str(picks[i % kinds].0);
    }
    o.push_str("y\n");
    for i in (missing.min(n)..n).rev() {
        o.push_str(picks[i % kinds].1);
    }
    o
}

/// C16
fn c16(s: &mut Src, text: String) -> R {
    let bare = refp::strip_comments(&text);
    let (with, n) = gen::with_comments(s, &bare);
    let same = |a: &str, b: &str| -> Result<(), String> {
        macro_rules! go {
            ($stage:expr, $p:ident) => {
                let (x, y) = ($p(a), $p(b));
                if x != y {
                    return Err(format!(
                        "stage {} reads {a:?} and {b:?} differently: {}",
                        $stage,
                        first_diff(&format!("{x:?}"), &format!("{y:?}"))
                    ));
                }
            };
        }
        go!(1, p1);
        go!(2, p2);
        go!(3, p3);
        Ok(())
    };
    same(&with, &bare)?;
    if text != bare {
        same(&text, &bare)?;
    }
    let removed = text != bare;
    Ok(Case::new(with, n > 0 || removed)
        .label(n > 0, "comments put in")
        .label(n > 2, "three or more comments put in")
        .label(removed, "comments taken out"))
}
fn c16_doc(s: &mut Src) -> R {
    let seed: Vec<u16> = (0..40).map(|_| s.raw()).collect();
    let t = g_doc(s);
    c16(&mut Src::new(&seed), t)
}
fn c16_noise(s: &mut Src) -> R {
    let seed: Vec<u16> = (0..40).map(|_| s.raw()).collect();
    let t = match s.below(5) {
        4 => gen::swarm(s),
        0 => gen::soup(s),
        1 => gen::sloppy(s),
        2 => gen::mutated(s),
        _ => gen::unicode(s),
    };
    c16(&mut Src::new(&seed), t)
}
/// Strip everything, and each comment alone.
fn c16_text(t: &str) -> R {
    let bare = refp::strip_comments(t);
    for (a, b) in [(t, bare.as_str())] {
        if p1(a) != p1(b) || p2(a) != p2(b) || p3(a) != p3(b) {
            return Err(format!("{a:?} and {b:?}, the same without comments, are read differently"));
        }
    }
    Ok(Case::new(t, bare != t).label(bare != t, "comments taken out"))
}

/// C19
fn c19(s: &str) -> R {
    let Ok(m1) = refp::parse1(s) else {
        return Ok(outcome(s, false));
    };
    if refp::has_stray_closing(&m1) {
        return Ok(outcome(s, false));
    }
    let why = |stage: u8, m: String| format!("stage {stage} of {s:?}: {m}");
    let d1 = p1(s).map_err(|e| refused(1, s, e))?;
    d1.validate().map_err(|e| why(1, format!("does not validate: {e:?}")))?;
    let cs = walk::rebuild1(d1.clone().chunks_owned()).map_err(|m| why(1, m))?;
    let r1 = ast1::Document::new(cs).map_err(|e| why(1, format!("rebuilding is refused: {e:?}")))?;
    equal(&r1, &d1, || why(1, "rebuilt differs".into()))?;
    let Ok(m2) = refp::stage2(&m1) else {
        return Ok(Case::new(s, busy(s)).label(true, "stage 1 only"));
    };
    if refp::has_complex_label(&m2) {
        return Ok(Case::new(s, busy(s)).label(true, "stage 1 only"));
    }
    let d2 = p2(s).map_err(|e| refused(2, s, e))?;
    d2.validate().map_err(|e| why(2, format!("does not validate: {e:?}")))?;
    let cs = walk::rebuild2(d2.clone().chunks_owned()).map_err(|m| why(2, m))?;
    let r2 = ast2::Document::new(cs).map_err(|e| why(2, format!("rebuilding is refused: {e:?}")))?;
    equal(&r2, &d2, || why(2, "rebuilt differs".into()))?;
    let Ok(m3) = refp::sections(&m2) else {
        return Ok(Case::new(s, busy(s)).label(true, "stages 1 and 2 only"));
    };
    let d3 = p3(s).map_err(|e| refused(3, s, e))?;
    d3.validate().map_err(|e| why(3, format!("does not validate: {e:?}")))?;
    let (class, opts, pre, body, args, pb, pe, trail) = d3.clone().decompose();
    let r = |c| walk::rebuild3(c).map_err(|m| why(3, m));
    let r3 = ast3::Document::new(
        r(pre)?,
        class,
        opts,
        r(body)?,
        walk::reargs3(args).map_err(|m| why(3, m))?,
        pb,
        pe,
        r(trail)?,
    )
    .map_err(|e| why(3, format!("rebuilding is refused: {e:?}")))?;
    if m3.body.is_some() {
        equal(&r3, &d3, || why(3, "rebuilt differs".into()))?;
    }
    Ok(Case::new(s, busy(s))
        .label(true, "all stages")
        .label(m3.body.is_some(), "with a document environment"))
}

/// C21: bytes requested, per byte of source and level of nesting.
const K_WORK: u64 = 1200;
const SLACK: u64 = 6;

fn depth(ns: &[N]) -> u64 {
    ns.iter()
        .map(|n| match n {
            N::Scope(_, c) | N::Maths { content: c, .. } => 1 + depth(c),
            N::Cmd { args, .. } => args.iter().map(|a| 1 + depth(&a.content)).max().unwrap_or(0),
            N::Env { args, content, .. } => {
                1 + depth(content).max(args.iter().map(|a| 1 + depth(&a.content)).max().unwrap_or(0))
            }
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}
/// An upper bound for the nesting of any text: opening tokens open at once.
fn loose_depth(s: &str) -> u64 {
    let (mut d, mut m) = (0i64, 0i64);
    for c in s.chars() {
        if K::of_open(c).is_some() {
            d += 1
        } else if K::of_close(c).is_some() {
            d -= 1
        }
        m = m.max(d);
    }
    m as u64 + s.matches("\\begin").count() as u64 + s.matches("\\(").count() as u64
}
fn c21(s: &str) -> R {
    let n = s.len() as u64 + 16;
    let w3 = refp::parse3(s);
    let d = match &w3 {
        Ok(m) => depth(&m.flat()),
        Err(_) => loose_depth(s),
    } + SLACK;
    let up = K_WORK * n * d;
    let back = K_WORK * n * d * d / SLACK;
    // runaway cases abort; the budget for a verdict is far below
    let stop = (up * 40).max(1 << 28);
    let mut worst = 0u64;
    let mut judge = |what: &str, used: u64, limit: u64| {
        worst = worst.max(used * 1000 / limit);
        if used > limit {
            return Err(format!(
                "{what} of a source of {} bytes and nesting depth about {} requests {used} bytes of memory, more than {limit}: {:?}",
                s.len(),
                d - SLACK,
                s.chars().take(200).collect::<String>()
            ));
        }
        Ok(())
    };
    let (a, u) = alloc::measure(stop, || p1(s));
    judge("parsing at stage 1", u, up)?;
    let (b, u) = alloc::measure(stop, || p2(s));
    judge("parsing at stage 2", u, up)?;
    let (c, u) = alloc::measure(stop, || p3(s));
    judge("parsing at stage 3", u, up)?;
    if let Ok(x) = a {
        let u = alloc::measure(stop, || x.to_string()).1;
        judge("printing stage 1", u, up)?;
        let u = alloc::measure(stop, || x.lines()).1;
        judge("counting the lines of stage 1", u, up)?;
    }
    if let Ok(x) = b {
        let u = alloc::measure(stop, || x.to_string()).1;
        judge("printing stage 2", u, up)?;
        let u = alloc::measure(stop, || x.lines()).1;
        judge("counting the lines of stage 2", u, up)?;
        let u = alloc::measure(stop, || ast1::Document::from(x)).1;
        judge("converting back to stage 1", u, back)?;
    }
    if let Ok(x) = c {
        let u = alloc::measure(stop, || x.to_string()).1;
        judge("printing stage 3", u, up)?;
        let u = alloc::measure(stop, || x.lines()).1;
        judge("counting the lines of stage 3", u, up)?;
        let u = alloc::measure(stop, || ast2::Document::from(x)).1;
        judge("converting back to stage 2", u, back)?;
    }
    if std::env::var("LAV_WORST").is_ok() {
        eprintln!("{worst} {} {d}", s.len());
    }
    Ok(Case::new(
        if s.len() > 300 { format!("{}:{}", s.len(), &s.chars().take(120).collect::<String>()) } else { s.into() },
        s.len() > 1000,
    )
    .label(s.len() > 1000, "over 1000 bytes")
    .label(s.len() > 20000, "over 20000 bytes")
    .label(d > 40, "deeper than 40 levels"))
}
/// One short unit repeated many times: any superlinear step shows.
struct Flat {
    unit: String,
    head: &'static str,
    /// between two copies of the repeated part, when not empty
    between: &'static str,
    tail: &'static str,
}
impl Flat {
    fn draw(s: &mut Src) -> Flat {
        const U: &[&str] = &[
            "a", " ", "\n", "\\x ", "\\x\n", "{a}", "(b)", "[\n]", "\\c{d}", "\\c[x]{\n}", "$a$", "$$b$$", "\\(c\\)",
            "\\[\n\\]", "\n\n", "a\n\nb", "\\begin{e}\\end{e}", "\\begin{e}[\n]x\\end{e}", "%c\n", "\\%", "\\\\", "é",
            "\\begin{document}\\end{document}", "\\x", "\\ ", "{{a}}", "$\\x y$", "{$a$}", "\\a\\b", "\\\n", ")",
            "\\begin{a}\\begin{b}\\end{b}\\end{a}", "o=v,", " , ", "\\c{d}{e}", "\\(\\)",
        ];
        let (head, tail) = *s.pick(&[
            ("", ""),
            ("{", "}"),
            ("\\c[", "]"),
            ("\\begin{z}", "\\end{z}"),
            ("\\begin{document}", "\\end{document}"),
            ("\\[", "\\]"),
            ("\\begin{document}\\end{document}", ""),
            ("\\c", ""),
            ("\\documentclass[", "]{a}"),
            ("\\documentclass[", "]{a}"),
            ("$$", "$$"),
            ("$", "$"),
            ("\\begin{z}{", "}\\end{z}"),
            ("\\documentclass{a}", ""),
            // names of environments
            ("\\begin{", "}"),
            ("\\begin{document}{}", "\\end{document}\\documentclass"),
            // refused at the end
            ("{", ""),
            ("\\c[", ""),
            ("\\begin{z}", ""),
            ("\\[", ""),
            ("$$", ""),
            ("", "\\end{z}"),
            ("\\begin{document}", "\\end{document}\\)"),
        ]);
        let between = if head == "\\begin{" { "}x\\end{" } else { "" };
        // in a class command the entries of the options are what repeats
        const O: &[&str] = &["o=v,", " , ", ",", "a ,", " b=,", "=", " ", "k = v w ,", "\n,", "{a,b},", "é,"];
        let u = if head.starts_with("\\documentclass") && s.chance(3, 4) { O } else { U };
        let n = 1 + s.below(4);
        let unit: String = (0..n).map(|_| *s.pick(u)).collect();
        Flat { unit, head, between, tail }
    }
    fn text(&self, times: usize) -> String {
        let middle = self.unit.repeat(times);
        if self.between.is_empty() {
            format!("{}{middle}{}", self.head, self.tail)
        } else {
            format!("{}{middle}{}{middle}{}", self.head, self.between, self.tail)
        }
    }
    fn about(&self, bytes: usize) -> String {
        self.text(bytes / self.unit.len() / if self.between.is_empty() { 1 } else { 2 } + 1)
    }
}
fn g_flat(s: &mut Src) -> String {
    let f = Flat::draw(s);
    f.text(*s.pick(&[100usize, 500, 2000, 5000]))
}

/// Processor time of this thread: other load does not count.
fn thread_time() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

const WORK: [&str; WORK_N] = [
    "parsing at stage 1",
    "parsing at stage 2",
    "parsing at stage 3",
    "printing",
    "counting lines and validating",
    "converting stage 2 to stage 1",
    "converting stage 3 to stage 2",
];
/// Least processor time of each kind of work over `reps` runs.
fn times(s: &str, reps: usize) -> [f64; WORK_N] {
    let mut best = [f64::MAX; WORK_N];
    for _ in 0..reps {
        let mut last = thread_time();
        let mut at = 0;
        let mut lap = || {
            let now = thread_time();
            best[at] = best[at].min(now - last);
            at += 1;
            last = thread_time();
        };
        let a = p1(s);
        lap();
        let b = p2(s);
        lap();
        let c = p3(s);
        lap();
        let _ = a.as_ref().map(|d| d.to_string());
        let _ = b.as_ref().map(|d| d.to_string());
        let _ = c.as_ref().map(|d| d.to_string());
        lap();
        let _ = a.as_ref().map(|d| (d.lines(), d.validate()));
        let _ = b.as_ref().map(|d| (d.lines(), d.validate()));
        let _ = c.as_ref().map(|d| (d.lines(), d.validate()));
        lap();
        let _ = b.map(ast1::Document::from);
        lap();
        let _ = c.map(ast2::Document::from);
        lap();
        if best.iter().sum::<f64>() > 2.0 {
            break;
        }
    }
    best
}
const WORK_N: usize = 7;
const SMALL: usize = 12_000;
const GROWTH: usize = 16;
/// The same shape sixteen times as long: the time grows about sixteen times,
/// far less than the 256 times of a quadratic step. A short total never counts.
fn c21_time(s: &mut Src) -> R {
    let f = Flat::draw(s);
    let (small, large) = (f.about(SMALL), f.about(SMALL * GROWTH));
    let mut left = 5;
    loop {
        let t = times(&small, 3);
        let u = times(&large, 2);
        let worst = (0..WORK_N)
            .filter(|i| u[*i] > 0.12)
            .map(|i| (u[i] / t[i].max(1e-5), i))
            .max_by(|a, b| a.0.total_cmp(&b.0))
            .unwrap_or((0.0, 0));
        if std::env::var("LAV_WORST").is_ok() {
            let i = (0..WORK_N).max_by(|a, b| u[*a].total_cmp(&u[*b])).unwrap();
            eprintln!("time {:.4} ratio {:.1} {} {:?}", u[i], u[i] / t[i].max(1e-5), WORK[i], f.text(1));
        }
        if worst.0 < 80.0 {
            break;
        }
        // far beyond doubt, and slow to do again
        left -= if worst.0 > 150.0 { 3 } else { 1 };
        if left <= 0 {
            return Err(format!(
                "{} takes {:.0} times as long for {} bytes as for {} bytes of the same shape ({:?} with its middle repeated)",
                WORK[worst.1],
                worst.0,
                large.len(),
                small.len(),
                f.text(1)
            ));
        }
    }
    Ok(Case::new(f.text(2), true).label(true, "time measured at two lengths"))
}

/// Pushes of a few pieces, again and again: the cost of a push depends on the
/// piece and the node before it, not on the document.
fn c21_push(s: &mut Src) -> R {
    let stage = 1 + s.below(3) as u8;
    let v = values::V {
        stage,
        bad: 0,
        max_depth: 1,
    };
    let how = s.below(4);
    let section = s.below(3);
    let n = 1 + s.below(4);
    let mut pieces: Vec<N> = (0..n).map(|_| values::value(s, v, 0)).collect();
    // texts would merge into one ever longer node
    pieces.retain(|n| !matches!(n, N::Text(_)));
    pieces.push(N::Scope(K::ALL[section], vec![]));
    if s.chance(1, 2) {
        pieces.insert(0, N::Text(s.pick(&["a", "\n", "a b"]).to_string()));
    }
    let sizes: Vec<u64> = pieces.iter().map(|n| print(std::slice::from_ref(n)).len() as u64).collect();
    let lines: Vec<u32> = pieces.iter().map(|n| newlines(&print(std::slice::from_ref(n)))).collect();
    // what is measured does not include making the pieces
    macro_rules! run {
        ($m:ident, $variant:ident, $times:expr, $push:ident, $unchecked:ident, $chunk:ident, $chunk_unchecked:ident) => {{
            let made: Vec<_> = (0..$times).map(|i| $variant(&pieces[i % pieces.len()])).collect();
            let mut doc = $m::Document::default();
            let mut due = 1u32;
            let start = thread_time();
            let used = alloc::measure(1 << 31, || {
                for (i, x) in made.into_iter().enumerate() {
                    let ok = match how {
                        0 => doc.$push(x).is_ok(),
                        1 => {
                            doc.$unchecked(x);
                            true
                        }
                        2 => doc.$chunk($m::Chunk::new_unchecked(due, x)).is_ok(),
                        _ => {
                            doc.$chunk_unchecked($m::Chunk::new_unchecked(due, x));
                            true
                        }
                    };
                    if !ok {
                        return Err(format!("pushing a sound piece is refused after {i} pushes"));
                    }
                    due += lines[i % lines.len()];
                }
                Ok(())
            });
            let time = thread_time() - start;
            used.0?;
            (used.1, time)
        }};
    }
    let push = |times: usize| -> Result<(u64, f64), String> {
        Ok(match (stage, section) {
            (1, _) => run!(ast1, variant1, times, push, push_unchecked, push_chunk, push_chunk_unchecked),
            (2, _) => run!(ast2, variant2, times, push, push_unchecked, push_chunk, push_chunk_unchecked),
            (_, 0) => run!(ast3, variant3, times, push_preamable, push_preamable_unchecked, push_preamable_chunk, push_preamable_chunk_unchecked),
            (_, 1) => run!(ast3, variant3, times, push_body, push_body_unchecked, push_body_chunk, push_body_chunk_unchecked),
            _ => run!(ast3, variant3, times, push_trailing, push_trailing_unchecked, push_trailing_chunk, push_trailing_chunk_unchecked),
        })
    };
    let what = format!("stage {stage}: pushing {:?} again and again", print(&pieces));
    let round: u64 = sizes.iter().map(|n| n + 40).sum();
    let one = |rounds: u64| -> Result<f64, String> {
        let (used, time) = push(rounds as usize * pieces.len())?;
        let limit = K_WORK * rounds * round;
        if used > limit {
            return Err(format!("{what}, {rounds} times, requests {used} bytes of memory, more than {limit}"));
        }
        Ok(time)
    };
    let rounds = 500;
    let mut left = 5;
    loop {
        let (a, b) = (one(rounds)?, one(rounds * GROWTH as u64)?);
        if b < 0.12 || b / a.max(1e-5) < 80.0 {
            break;
        }
        left -= 1;
        if left == 0 {
            return Err(format!("{what}: {GROWTH} times as many pushes take {:.0} times as long", b / a));
        }
    }
    Ok(Case::new(what, true).label(true, "pushes"))
}

/// C23
fn c23(s: &str) -> R {
    let (a, b, c) = (p1(s), p2(s), p3(s));
    let up2 = p1(s).and_then(ast2::Document::try_from);
    equal(&up2, &b, || format!("{s:?} read at stage 1 and converted differs from stage 2"))?;
    let up3 = p2(s).and_then(ast3::Document::try_from);
    equal(&up3, &c, || format!("{s:?} read at stage 2 and converted differs from stage 3"))?;
    if b.is_ok() && a.is_err() || c.is_ok() && b.is_err() {
        return Err(format!("{s:?} is accepted at a later stage only"));
    }
    let text: Vec<String> = [
        a.as_ref().ok().map(|d| d.to_string()),
        b.as_ref().ok().map(|d| d.to_string()),
        c.as_ref().ok().map(|d| d.to_string()),
    ]
    .into_iter()
    .flatten()
    .collect();
    if text.windows(2).any(|w| w[0] != w[1]) {
        return Err(format!("the stages print {s:?} differently: {text:?}"));
    }
    let lines: Vec<u32> = [
        a.as_ref().ok().map(|d| d.lines()),
        b.as_ref().ok().map(|d| d.lines()),
        c.as_ref().ok().map(|d| d.lines()),
    ]
    .into_iter()
    .flatten()
    .collect();
    if lines.windows(2).any(|w| w[0] != w[1]) {
        return Err(format!("the stages count the lines of {s:?} differently: {lines:?}"));
    }
    Ok(Case::new(s, busy(s))
        .label(c.is_ok(), "accepted at every stage")
        .label(a.is_err(), "rejected at every stage")
        .label(a.is_ok() && c.is_err(), "rejected later"))
}

fn c13_built(s: &mut Src) -> R {
    values::built_lines(s)
}

// -------------------------------------------------------------- the table

const SHARED: &[&str] = &[
    "generated inputs stand for the quantified domain; sizes and nesting are bounded as the streams say",
    "the crate is built with overflow checks and debug assertions, as its tests are",
];

fn prop(id: &'static str, rule: &'static str, mut streams: Vec<Stream>) -> Prop {
    // cheap checks take more cases
    let more = match id {
        "C01" | "C02" | "C03" | "C04" | "C09" | "C11" | "C17" | "C18" | "C26" | "C27" => 4,
        "C13" | "C15" | "C19" | "C25" => 1,
        _ => 2,
    };
    for stream in &mut streams {
        if let Kind::Random { quick, thorough, .. } = &mut stream.kind {
            if *quick >= 50_000 {
                *quick *= more;
                *thorough = (*thorough).max(*quick * 10);
            }
        }
    }
    Prop {
        id,
        rule,
        assumptions: SHARED.to_vec(),
        streams,
    }
}

fn with(mut v: Vec<Stream>, mut more: Vec<Stream>) -> Vec<Stream> {
    v.append(&mut more);
    v
}

pub fn get(id: &str) -> Option<Prop> {
    const N: u64 = 100_000;
    Some(match id {
        "C01" => prop("C01", RULE_TEXT, both(c01, N)),
        "C02" => prop("C02", RULE_TEXT, both(c02, N)),
        "C03" => prop("C03", RULE_TEXT, both(c03, N)),
        "C04" => prop(
            "C04",
            RULE_TEXT,
            with(
                vec![random("generated stage-1 trees", c04_tree, 400, 2 * N, 80 * N)],
                both(c04, N),
            ),
        ),
        "C05" => prop(
            "C05",
            "the source is well formed and holds at least one environment",
            with(
                vec![
                    random("generated stage-2 trees", c05_tree, 400, 2 * N, 80 * N),
                    all("all short strings of parts of begin and end commands", c05, E_ENV_PARTS, 6, 7),
                ],
                both(c05, N),
            ),
        ),
        "C06" => prop(
            "C06",
            "the source is well formed and holds at least one maths block",
            with(
                vec![random("generated stage-3 trees", c06_tree, 400, 2 * N, 80 * N)],
                both(c06, N),
            ),
        ),
        "C07" => prop(
            "C07",
            "the source is well formed and holds at least one paragraph break",
            with(
                vec![
                    random("generated stage-3 trees", c07_tree, 400, 2 * N, 80 * N),
                    drawn("runs of Unicode whitespace", g_run, c07, 40, N, 40 * N),
                    all("all longer strings of whitespace", c07, E_BREAKS, 6, 8),
                ],
                both(c07, N),
            ),
        ),
        "C08" => prop(
            "C08",
            "the source is well formed and holds a top-level document environment",
            with(
                vec![random("generated stage-3 trees", c08_tree, 400, 2 * N, 80 * N)],
                both(c08, N),
            ),
        ),
        "C09" => prop(
            "C09",
            "the source is well formed and its preamble holds a documentclass command",
            with(
                vec![
                    all_in("all short option lists", c09, "\\documentclass[", "]{c}", E_OPTIONS, 6, 8),
                    drawn("generated class commands", g_class, c09, 60, 4 * N, 160 * N),
                ],
                both(c09, N),
            ),
        ),
        "C10" => prop(
            "C10",
            "the source is accepted at stage 2 (or the value canonical) and holds an environment",
            with(
                vec![
                    random("generated stage-2 values", c10_tree, 400, 2 * N, 80 * N),
                    all("all short strings of parts of begin and end commands", c10, E_ENV_PARTS, 6, 7),
                ],
                both(c10, N),
            ),
        ),
        "C11" => prop(
            "C11",
            "the source is accepted at stage 3 (or the value canonical) and is not plain text",
            with(
                vec![random("generated stage-3 values", c11_tree, 400, 2 * N, 80 * N)],
                both(c11, N),
            ),
        ),
        "C12" => prop(
            "C12",
            "the source is accepted at stage 3, is not plain text and spans several lines",
            with(
                vec![random("generated stage-3 trees after some lines", c12_tree, 400, 2 * N, 80 * N)],
                both(c12, N),
            ),
        ),
        "C13" => prop(
            "C13",
            "a value with several lines that is not plain text",
            with(
                vec![random("values built in code", c13_built, 200, 4 * N, 160 * N)],
                both(c13, N),
            ),
        ),
        "C14" => prop(
            "C14",
            "a fault was put into a well-formed document, or the source holds a command, bracket or maths delimiter",
            with(
                vec![
                    random("one fault in a well-formed document", faults::inject, 400, 6 * N, 240 * N),
                    all(
                        "all short strings of parts of begin and end commands",
                        faults::agreement,
                        E_ENV_PARTS,
                        6,
                        7,
                    ),
                ],
                both(faults::agreement, N),
            ),
        ),
        "C15" => prop(
            "C15",
            "the source holds a command, bracket, maths delimiter or paragraph break, or the value is built in code",
            with(
                vec![
                    random("values built through checked constructors", values::built_total, 200, 2 * N, 80 * N),
                    drawn("several hundred levels of nesting", g_deep, c15_stack, 10, 160, 2000),
                    all("all longer strings of maths delimiters", c15, E_MATHS, 5, 7),
                ],
                both(c15, N),
            ),
        ),
        "C16" => prop(
            "C16",
            "at least one comment was put in or taken out",
            vec![
                saved(c16_text),
                all("all short strings around percent signs", c16_text, E_COMMENTS, 6, 7),
                random("comments in well-formed documents", c16_doc, 400, 3 * N, 120 * N),
                random("comments in noise", c16_noise, 300, 4 * N, 160 * N),
            ],
        ),
        "C17" => prop(
            "C17",
            "the value has at least one node",
            vec![
                random("value trees, sound and spoiled", values::constructors, 300, 6 * N, 240 * N),
                random("one of many, or deep down", values::one_of_many, 60, N / 3, 12 * N),
            ],
        ),
        "C18" => prop(
            "C18",
            "the history has more than two pushes",
            vec![random("push histories", values::history, 400, 4 * N, 160 * N)],
        ),
        "C19" => prop("C19", RULE_TEXT, both(c19, N)),
        "C20" => prop(
            "C20",
            "the fragment is longer than three characters, or malformed",
            vec![
                random("well-formed fragments in context", ctx::good, 300, 5 * N, 200 * N),
                random("malformed fragments in brackets", ctx::bad, 200, 5 * N, 200 * N),
            ],
        ),
        "C21" => prop(
            "C21",
            "the source is longer than 1000 bytes, or pushes were made",
            with(
                vec![
                    random("one unit repeated, at two lengths", c21_time, 10, 480, 4_000),
                    drawn("one unit repeated", g_flat, c21, 12, 3000, 40_000),
                    random("a few pieces pushed again and again", c21_push, 60, 1500, 20_000),
                    drawn("several hundred levels of nesting", g_deep, c21, 10, 160, 2000),
                ],
                texts(c21, N / 2),
            ),
        ),
        "C22" => prop(
            "C22",
            "the value has more than one node",
            vec![random("canonical values built through checked constructors", values::roundtrip, 400, 5 * N, 200 * N)],
        ),
        "C23" => prop("C23", RULE_TEXT, both(c23, N)),
        "C24" => prop(
            "C24",
            "the printed value is longer than four bytes, or holds a dollar sign where texts are in pieces",
            vec![
                random("documents built in code, converted", convert::built, 300, 5 * N, 200 * N),
                random("texts in pieces, converted", convert::pieces, 400, 4 * N, 160 * N),
            ],
        ),
        "C25" => prop(
            "C25",
            "at least one part was converted on its own",
            with(
                vec![
                    Stream {
                        name: "the bracket kinds, over all characters",
                        kind: Kind::Fixed {
                            f: Box::new(|s| parts::kinds().map(|_| Case::new(s, true))),
                            inputs: vec!["all characters".into()],
                        },
                    },
                    random("parts of values built in code", parts::built, 200, 4 * N, 160 * N),
                    random("runs of text and whitespace", parts::runs, 60, 2 * N, 80 * N),
                ],
                both(parts::text, N),
            ),
        ),
        "C26" => prop(
            "C26",
            "the value has at least one node",
            vec![
                random("nodes, and a copy with one part changed", equality::values, 200, 6 * N, 240 * N),
                random("stage-3 documents, and a copy with one part changed", equality::documents, 200, 3 * N, 120 * N),
            ],
        ),
        "C27" => prop(
            "C27",
            "the first half is accepted at some stage and the second is more than plain text",
            vec![random("two texts with a wall between them", relations::halves, 400, 3 * N, 240 * N)],
        ),
        "C28" => prop(
            "C28",
            "one of the texts is more than plain text",
            vec![random("several texts, again and again", relations::repeated, 400, 2 * N, 80 * N)],
        ),
        "C29" => prop(
            "C29",
            "something changed, and there is more than plain text",
            vec![random("a text, and the same with other names and characters", rename::names, 400, 2 * N, 120 * N)],
        ),
        "C30" => prop(
            "C30",
            "whitespace was added somewhere, and there is more than plain text",
            vec![random("a text, and the same with more whitespace", rename::blanks, 400, 2 * N, 120 * N)],
        ),
        "C31" => prop(
            "C31",
            "the text has a blank line, and more than plain text",
            vec![random("a text, and the same with more blank lines", rename::blank_lines, 400, N, 60 * N)],
        ),
        _ => return None,
    })
}
