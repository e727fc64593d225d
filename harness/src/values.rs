//! Values assembled in code: valid and rule-breaking trees (C13, C15, C17),
//! push histories against a reference document (C18), canonical values (C22).

use crate::dict;
use crate::engine::{Case, R};
use crate::gen;
use crate::model::*;
use crate::refp;
use crate::src::Src;
use crate::walk;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, InternalError};

/// How a value is drawn.
#[derive(Clone, Copy)]
pub struct V {
    pub stage: u8,
    /// chance in 100 that a string breaks a rule
    pub bad: usize,
    pub max_depth: usize,
}

const RESERVED: &[char] = &['\\', '%', '{', '}', '(', ')', '[', ']'];

fn spoil(s: &mut Src, t: &mut String) {
    let c = *s.pick(RESERVED);
    let n = t.chars().count();
    let at = s.below(n + 1);
    let mut v: Vec<char> = t.chars().collect();
    v.insert(at, c);
    *t = v.into_iter().collect();
}

fn text(s: &mut Src, v: V) -> String {
    let mut t = match s.below(8) {
        0 => String::new(),
        1 => gen::ws(s, 3),
        _ => gen::run(s),
    };
    if v.stage == 3 && !s.chance(v.bad, 100) {
        // drop what would be a paragraph break
        t = refp::paragraphs(&t)
            .into_iter()
            .filter_map(|n| match n {
                N::Text(t) => Some(t),
                _ => None,
            })
            .collect();
        if refp::paragraphs(&t).iter().any(|n| matches!(n, N::Break(_))) {
            t = t.replace('\n', ".\n");
        }
    }
    pad(s, &mut t);
    if s.chance(v.bad, 100) {
        spoil(s, &mut t);
    }
    t
}

/// Sometimes a long piece, so that a rule is also broken far from both ends.
fn pad(s: &mut Src, t: &mut String) {
    if s.chance(1, 30) {
        let v = &dict::get().sizes;
        let n = *s.pick(&v[..v.partition_point(|n| *n <= 260)]);
        let c = *s.pick(&["a", "é", "ab ", "漢"]);
        t.insert_str(0, &c.repeat(n));
        if s.chance(1, 2) {
            t.push_str(&c.repeat(n));
        }
    }
}

fn label(s: &mut Src, v: V) -> String {
    if s.chance(v.bad, 100) {
        let mut t = (*s.pick(&["a", "", "bc", "é", "begin", "end"])).to_string();
        if s.chance(1, 2) {
            spoil(s, &mut t);
        } else if s.chance(1, 2) {
            t = (*s.pick(&["begin", "end"])).to_string();
        }
        return t;
    }
    if v.stage == 1 && s.chance(1, 5) {
        return (*s.pick(&["begin", "end"])).to_string();
    }
    match s.below(12) {
        8 => return s.pick(&dict::get().commands).clone(),
        9 => return s.pick(&dict::get().words).clone(),
        10 => {
            let v = if s.chance(1, 3) { dict::WS } else { dict::ODD };
            return s.pick(v).to_string();
        }
        11 if s.chance(1, 4) => {
            let mut t = "x".to_string();
            pad(s, &mut t);
            return t;
        }
        _ => {}
    }
    let t = *s.pick(&[
        "a", "item", "textbf", "", "\n", "{", "%", "\\", "]", "é", "a\nb", "a b", "beginning", "ends", "Begin",
        "bend", " begin", "end ", "b\ne\n", "漢字", "$", "x$", "documentclass", "END",
    ]);
    t.to_string()
}

fn env_name(s: &mut Src, v: V) -> String {
    let mut t = (*s.pick(&[
        "a", "itemize", "", "a\nb", "a b", "é", "begin", "align*", "document", "\n", "$", "end",
    ]))
    .to_string();
    if s.chance(1, 3) {
        t = s.pick(&dict::get().envs).clone();
    }
    pad(s, &mut t);
    if s.chance(v.bad, 100) {
        if s.chance(1, 3) {
            t.clear();
        }
        spoil(s, &mut t);
    }
    t
}

fn brk(s: &mut Src, v: V) -> String {
    if s.chance(v.bad, 100) {
        match s.below(5) {
            0 => return String::new(),
            1 => return "\n".into(),
            2 => return " \t".into(),
            3 => return "\n \u{a0}".into(),
            _ => {
                let mut t = String::from("\n\n");
                t.insert(s.below(3), *s.pick(&['a', '\u{200b}', '\\', '%', '{', '.']));
                return t;
            }
        }
    }
    let mut t = gen::ws(s, 2);
    t.push('\n');
    t.push_str(&gen::ws(s, 2));
    t.push('\n');
    t.push_str(&gen::ws(s, 2));
    if s.chance(1, 20) {
        t.push_str(&"\n ".repeat(*s.pick(&[10, 130, 300])));
    }
    t
}

fn vargs(s: &mut Src, v: V, depth: usize) -> Vec<Arg> {
    let n = s.below(4);
    let mut out: Vec<Arg> = (0..n)
        .map(|_| Arg {
            prec: gen::ws(s, 2),
            k: *s.pick(&K::ALL),
            content: values(s, v, depth + 1),
        })
        .collect();
    if s.chance(1, 200) {
        gen::many(s, &mut out, |a| gen::weight(&a.content), 150);
    }
    out
}

pub fn value(s: &mut Src, v: V, depth: usize) -> N {
    let deep = depth < v.max_depth;
    let w = [
        6,
        4,
        if deep { 3 } else { 0 },
        if deep && v.stage >= 2 { 3 } else { 0 },
        if deep && v.stage == 3 { 3 } else { 0 },
        if v.stage == 3 { 3 } else { 0 },
    ];
    match s.weighted(&w) {
        0 => N::Text(text(s, v)),
        1 => N::Cmd {
            label: label(s, v),
            args: if deep && s.chance(1, 2) { vargs(s, v, depth) } else { vec![] },
        },
        2 => N::Scope(*s.pick(&K::ALL), values(s, v, depth + 1)),
        3 => N::Env {
            label: env_name(s, v),
            pb: gen::ws(s, 2),
            args: vargs(s, v, depth),
            content: values(s, v, depth + 1),
            pe: gen::ws(s, 2),
        },
        4 => N::Maths {
            dollars: s.chance(1, 2),
            display: s.chance(1, 2),
            content: values(s, v, depth + 1),
        },
        _ => N::Break(brk(s, v)),
    }
}

pub fn values(s: &mut Src, v: V, depth: usize) -> Vec<N> {
    let n = s.below(if depth == 0 { 6 } else { 4 });
    let mut out: Vec<N> = (0..n).map(|_| value(s, v, depth)).collect();
    if s.chance(1, 200) {
        gen::many(s, &mut out, |n| gen::weight(std::slice::from_ref(n)), 150);
    }
    out
}

// ----------------------------------------------------------- the rules (C17)

fn reserved(t: &str, out: &mut Vec<InternalError>) {
    for c in t.chars() {
        if RESERVED.contains(&c) {
            out.push(InternalError::UnsanitisedCharInString(c));
        }
    }
}

fn unbroken(t: &str) -> bool {
    refp::paragraphs(t).iter().any(|n| matches!(n, N::Break(_)))
}

fn broken_args(a: &[Arg], stage: u8, out: &mut Vec<InternalError>) {
    for a in a {
        broken(&a.content, stage, out);
    }
}

/// Every rule broken anywhere in the nodes.
pub fn broken(ns: &[N], stage: u8, out: &mut Vec<InternalError>) {
    for n in ns {
        match n {
            N::Text(t) => {
                reserved(t, out);
                if stage == 3 && unbroken(t) {
                    out.push(InternalError::UnbrokenParagraph);
                }
            }
            N::Break(t) => {
                if t.chars().any(|c| !c.is_whitespace()) {
                    out.push(InternalError::ParagraghBreakNonwhitespace);
                }
                if newlines(t) < 2 {
                    out.push(InternalError::ParagraphBreakTooShort);
                }
            }
            N::Cmd { label, args } => {
                if stage >= 2 && label == "begin" {
                    out.push(InternalError::BeginCommand);
                }
                if stage >= 2 && label == "end" {
                    out.push(InternalError::EndCommand);
                }
                // a single character may be anything: it is an escape
                if label.chars().count() != 1 {
                    reserved(label, out);
                }
                broken_args(args, stage, out);
            }
            N::Scope(_, c) => broken(c, stage, out),
            N::Env {
                label, args, content, ..
            } => {
                reserved(label, out);
                broken_args(args, stage, out);
                broken(content, stage, out);
            }
            N::Maths { content, .. } => broken(content, stage, out),
            N::Raw(_) => unreachable!(),
        }
    }
}

fn judge<T: PartialEq + std::fmt::Debug>(
    what: &str,
    r: Result<T, InternalError>,
    raw: T,
    bad: &[InternalError],
) -> Result<(), String> {
    match r {
        Ok(v) => {
            if !bad.is_empty() {
                return Err(format!("{what} accepts a value that breaks {:?}: {v:?}", bad[0]));
            }
            if v != raw {
                return Err(format!("{what} changes the value it is given: {v:?} from {raw:?}"));
            }
        }
        Err(e) => {
            if bad.is_empty() {
                return Err(format!("{what} refuses a sound value with {e:?}: {raw:?}"));
            }
            if !bad.contains(&e) {
                return Err(format!("{what} reports {e:?}, the value {raw:?} breaks only {bad:?}"));
            }
        }
    }
    Ok(())
}

fn judge_validate<T: Validate>(what: &str, v: &T, bad: &[InternalError]) -> Result<(), String> {
    match v.validate() {
        Ok(()) if !bad.is_empty() => Err(format!("{what} validates although it breaks {:?}", bad[0])),
        Err(e) if !bad.contains(&e) => Err(format!("validating {what} reports {e:?}, it breaks only {bad:?}")),
        _ => Ok(()),
    }
}

/// Lines of a document section, sometimes wrong, and the rule that breaks.
fn shift_lines(s: &mut Src, ns: &[N], bad: usize) -> (Vec<u32>, Vec<InternalError>) {
    let want = lines_of(ns);
    let mut errs = vec![];
    let got = want
        .iter()
        .map(|w| {
            let g = if s.chance(bad, 100) {
                match s.below(4) {
                    0 => w + 1,
                    1 => w.saturating_sub(1),
                    2 => 1,
                    _ => 0,
                }
            } else {
                *w
            };
            if g != *w {
                errs.push(InternalError::IncorrectChunkLineNumber { expected: *w, got: g });
            }
            g
        })
        .collect();
    (got, errs)
}

/// Every node (and every container) through its own checked constructor.
fn ctor1(ns: &[N]) -> Result<(), String> {
    for n in ns {
        let mut bad = vec![];
        broken(std::slice::from_ref(n), 1, &mut bad);
        let v = variant1(n);
        judge_validate("a stage-1 node", &v, &bad)?;
        judge(
            "ast1 chunk constructor",
            ast1::Chunk::new(3, v.clone()),
            ast1::Chunk::new_unchecked(3, v),
            &bad,
        )?;
        match n {
            N::Cmd { label, args } => {
                judge(
                    "ast1 command constructor",
                    ast1::Command::new(label.clone(), args1(args)),
                    ast1::Command::new_unchecked(label.clone(), args1(args)),
                    &bad,
                )?;
                for a in args {
                    ctor1(&[N::Scope(a.k, a.content.clone())])?;
                }
            }
            N::Scope(k, c) => {
                judge(
                    "ast1 scope constructor",
                    ast1::Scope::new(build1(c), k.s1()),
                    scope1(*k, c),
                    &bad,
                )?;
                ctor1(c)?;
            }
            _ => {}
        }
    }
    Ok(())
}

fn ctor2(ns: &[N]) -> Result<(), String> {
    for n in ns {
        let mut bad = vec![];
        broken(std::slice::from_ref(n), 2, &mut bad);
        let v = variant2(n);
        judge_validate("a stage-2 node", &v, &bad)?;
        judge(
            "ast2 chunk constructor",
            ast2::Chunk::new(3, v.clone()),
            ast2::Chunk::new_unchecked(3, v),
            &bad,
        )?;
        match n {
            N::Cmd { label, args } => {
                judge(
                    "ast2 command constructor",
                    ast2::Command::new(label.clone(), args2(args)),
                    ast2::Command::new_unchecked(label.clone(), args2(args)),
                    &bad,
                )?;
                for a in args {
                    ctor2(&[N::Scope(a.k, a.content.clone())])?;
                }
            }
            N::Scope(k, c) => {
                judge(
                    "ast2 scope constructor",
                    ast2::Scope::new(build2(c), k.s2()),
                    scope2(*k, c),
                    &bad,
                )?;
                ctor2(c)?;
            }
            N::Env {
                label,
                pb,
                args,
                content,
                pe,
            } => {
                judge(
                    "ast2 environment constructor",
                    ast2::Environment::new(label.clone(), args2(args), build2(content), pb.clone(), pe.clone()),
                    ast2::Environment::new_unchecked(
                        label.clone(),
                        args2(args),
                        build2(content),
                        pb.clone(),
                        pe.clone(),
                    ),
                    &bad,
                )?;
                for a in args {
                    ctor2(&[N::Scope(a.k, a.content.clone())])?;
                }
                ctor2(content)?;
            }
            _ => {}
        }
    }
    Ok(())
}

fn ctor3(ns: &[N]) -> Result<(), String> {
    for n in ns {
        let mut bad = vec![];
        broken(std::slice::from_ref(n), 3, &mut bad);
        let v = variant3(n);
        judge_validate("a stage-3 node", &v, &bad)?;
        judge(
            "ast3 chunk constructor",
            ast3::Chunk::new(3, v.clone()),
            ast3::Chunk::new_unchecked(3, v),
            &bad,
        )?;
        match n {
            N::Cmd { label, args } => {
                judge(
                    "ast3 command constructor",
                    ast3::Command::new(label.clone(), args3(args)),
                    ast3::Command::new_unchecked(label.clone(), args3(args)),
                    &bad,
                )?;
                for a in args {
                    ctor3(&[N::Scope(a.k, a.content.clone())])?;
                }
            }
            N::Scope(k, c) => {
                judge(
                    "ast3 scope constructor",
                    ast3::Scope::new(build3(c), k.s3()),
                    scope3(*k, c),
                    &bad,
                )?;
                ctor3(c)?;
            }
            N::Env {
                label,
                pb,
                args,
                content,
                pe,
            } => {
                judge(
                    "ast3 environment constructor",
                    ast3::Environment::new(label.clone(), args3(args), build3(content), pb.clone(), pe.clone()),
                    ast3::Environment::new_unchecked(
                        label.clone(),
                        args3(args),
                        build3(content),
                        pb.clone(),
                        pe.clone(),
                    ),
                    &bad,
                )?;
                for a in args {
                    ctor3(&[N::Scope(a.k, a.content.clone())])?;
                }
                ctor3(content)?;
            }
            N::Maths {
                dollars,
                display,
                content,
            } => {
                judge(
                    "maths block constructor",
                    ast3::MathsBlock::new(mv(*dollars), mt(*display), build3(content)),
                    ast3::MathsBlock::new_unchecked(mv(*dollars), mt(*display), build3(content)),
                    &bad,
                )?;
                ctor3(content)?;
            }
            _ => {}
        }
    }
    Ok(())
}

/// C17
pub fn constructors(s: &mut Src) -> R {
    let v = V {
        stage: 1 + s.below(3) as u8,
        bad: *s.pick(&[0, 4, 15]),
        max_depth: 4,
    };
    let n = if v.stage == 3 { 3 } else { 1 };
    let secs: Vec<Vec<N>> = (0..n).map(|_| values(s, v, 0)).collect();
    let a = if v.stage == 3 && s.chance(1, 3) { vargs(s, v, 1) } else { vec![] };
    judged(s, v.stage, &secs, &a, v.bad / 2)
}

/// One node of many, or one deep down, may be unsound.
pub fn one_of_many(s: &mut Src) -> R {
    let stage = 1 + s.below(3) as u8;
    let most = if s.chance(1, 6) { 5000 } else { 300 };
    let n = gen::size(s, most).max(1);
    let at = match s.below(4) {
        0 => n - 1,
        1 => 0,
        2 => gen::size(s, n).min(n - 1),
        _ => s.below(n),
    };
    let plain = match s.below(3) {
        0 => N::Scope(*s.pick(&K::ALL), vec![]),
        1 => N::Cmd { label: "a".into(), args: vec![] },
        _ => N::Scope(K::Curly, vec![N::Text("x".into())]),
    };
    let v = V { stage, bad: *s.pick(&[0, 60, 60, 60]), max_depth: 1 };
    let mut odd = vec![value(s, v, 0)];
    let arg = |content: Vec<N>, k: K| Arg { prec: String::new(), k, content };
    let list = |odd: Vec<N>| -> Vec<N> {
        let mut v = vec![plain.clone(); n];
        v.splice(at..=at, odd);
        v
    };
    let many_args = |odd: Vec<N>, k: K| -> Vec<Arg> {
        let mut v = vec![arg(vec![], k); n];
        v[at] = arg(odd, k);
        v
    };
    let name = || "e".to_string();
    let (mut secs, mut body_args) = (vec![vec![]; if stage == 3 { 3 } else { 1 }], vec![]);
    let wrap = s.below(8);
    let k = *s.pick(&K::ALL);
    match wrap {
        0 => odd = list(odd),
        1 => odd = vec![N::Scope(k, list(odd))],
        2 => odd = vec![N::Cmd { label: "c".into(), args: many_args(odd, k) }],
        3 if stage >= 2 => {
            let args = many_args(odd, k);
            odd = vec![N::Env { label: name(), pb: String::new(), args, content: vec![], pe: String::new() }]
        }
        4 if stage >= 2 => {
            let content = list(odd);
            odd = vec![N::Env { label: name(), pb: String::new(), args: vec![], content, pe: String::new() }]
        }
        5 if stage == 3 => {
            odd = vec![N::Maths { dollars: s.chance(1, 2), display: s.chance(1, 2), content: list(odd) }]
        }
        6 if stage == 3 => body_args = many_args(std::mem::take(&mut odd), k),
        _ => {
            // deep down
            for i in 0..n.min(130) {
                odd = match i % 3 {
                    0 => vec![N::Scope(k, odd)],
                    1 => vec![N::Cmd { label: "c".into(), args: vec![arg(odd, K::Curly)] }],
                    _ if stage == 1 => vec![N::Scope(K::Curly, odd)],
                    _ => vec![N::Env {
                        label: name(),
                        pb: String::new(),
                        args: vec![],
                        content: odd,
                        pe: String::new(),
                    }],
                };
            }
        }
    }
    let i = s.below(secs.len());
    secs[i] = odd;
    judged(s, stage, &secs, &body_args, 0)
}

fn judged(s: &mut Src, stage: u8, lists: &[Vec<N>], a: &[Arg], bad_lines: usize) -> R {
    let mut bad = vec![];
    let key;
    match stage {
        1 => {
            let ns = &lists[0];
            let (ls, errs) = shift_lines(s, ns, bad_lines);
            broken(ns, 1, &mut bad);
            ctor1(ns)?;
            let cs: Vec<_> = build1(ns)
                .into_iter()
                .zip(ls)
                .map(|(c, l)| ast1::Chunk::new_unchecked(l, c.variant_owned()))
                .collect();
            bad.extend(errs);
            key = format!("stage 1 {cs:?}");
            let raw = ast1::Document::new_unchecked(cs.clone());
            judge_validate("a stage-1 document", &raw, &bad)?;
            judge("ast1 document constructor", ast1::Document::new(cs), raw, &bad)?;
        }
        2 => {
            let ns = &lists[0];
            let (ls, errs) = shift_lines(s, ns, bad_lines);
            broken(ns, 2, &mut bad);
            ctor2(ns)?;
            let cs: Vec<_> = build2(ns)
                .into_iter()
                .zip(ls)
                .map(|(c, l)| ast2::Chunk::new_unchecked(l, c.variant_owned()))
                .collect();
            bad.extend(errs);
            key = format!("stage 2 {cs:?}");
            let raw = ast2::Document::new_unchecked(cs.clone());
            judge_validate("a stage-2 document", &raw, &bad)?;
            judge("ast2 document constructor", ast2::Document::new(cs), raw, &bad)?;
        }
        _ => {
            let mut secs = vec![];
            for ns in lists {
                let (ls, errs) = shift_lines(s, ns, bad_lines);
                broken(ns, 3, &mut bad);
                ctor3(ns)?;
                bad.extend(errs);
                secs.push(
                    build3(ns)
                        .into_iter()
                        .zip(ls)
                        .map(|(c, l)| ast3::Chunk::new_unchecked(l, c.variant_owned()))
                        .collect::<Vec<_>>(),
                );
            }
            broken_args(a, 3, &mut bad);
            let (pb, pe) = (gen::ws(s, 2), gen::ws(s, 2));
            let mk = |f: fn(
                Vec<ast3::Chunk>,
                Option<String>,
                Vec<Opt>,
                Vec<ast3::Chunk>,
                Vec<(String, ast3::Scope)>,
                String,
                String,
                Vec<ast3::Chunk>,
            ) -> Result<ast3::Document, InternalError>| {
                f(
                    secs[0].clone(),
                    Some("c".into()),
                    vec![],
                    secs[1].clone(),
                    args3(a),
                    pb.clone(),
                    pe.clone(),
                    secs[2].clone(),
                )
            };
            let raw = mk(|a, b, c, d, e, f, g, h| Ok(ast3::Document::new_unchecked(a, b, c, d, e, f, g, h))).unwrap();
            key = format!("stage 3 {raw:?}");
            judge_validate("a stage-3 document", &raw, &bad)?;
            judge("ast3 document constructor", mk(ast3::Document::new), raw, &bad)?;
        }
    }
    let n = bad.len();
    let size = key.len();
    Ok(Case::new(key, size > 60)
        .label(n == 0, "sound")
        .label(n == 1, "one rule broken")
        .label(n > 1, "several rules broken"))
}

// -------------------------------------------------- built values: lines (C13)

fn same_print<T: std::fmt::Display>(v: &T, want: &str) -> Result<(), String> {
    let got = v.to_string();
    if got != want {
        return Err(format!("a value built in code prints {got:?}, its parts spell {want:?}"));
    }
    Ok(())
}

/// A stage-3 document with arbitrary (even rule-breaking) parts.
pub fn wild3(s: &mut Src, v: V) -> Doc3 {
    Doc3 {
        pre: values(s, v, 1),
        body: Some(Body {
            pb: gen::ws(s, 3),
            args: if s.chance(1, 2) { vargs(s, v, 1) } else { vec![] },
            content: values(s, v, 0),
            pe: gen::ws(s, 3),
        }),
        trail: values(s, v, 1),
    }
}

pub fn built_lines(s: &mut Src) -> R {
    let v = V {
        stage: 1 + s.below(3) as u8,
        bad: *s.pick(&[0, 10]),
        max_depth: 4,
    };
    let (text, d) = match v.stage {
        1 => {
            let ns = values(s, v, 0);
            let d = doc1(&ns);
            same_print(&d, &print(&ns))?;
            walk::lines_doc1(&d)?;
            (print(&ns), 1)
        }
        2 => {
            let ns = values(s, v, 0);
            let d = doc2(&ns);
            same_print(&d, &print(&ns))?;
            walk::lines_doc2(&d)?;
            (print(&ns), 2)
        }
        _ => {
            let m = wild3(s, v);
            let d = doc3(&m, None, vec![]);
            same_print(&d, &m.print())?;
            walk::lines_doc3(&d)?;
            for n in m.flat() {
                if let N::Maths { .. } = n {
                    walk::lines3(&build3(&[n]))?;
                }
            }
            (m.print(), 3)
        }
    };
    let nt = text.contains('\n') && text.chars().count() > 4;
    Ok(Case::new(format!("stage {d}: {text}"), nt).label(nt, "built"))
}

// ------------------------------------------------ built values: totality (C15)

pub fn exercise<T>(v: &T)
where
    T: Clone + PartialEq + std::fmt::Debug + std::fmt::Display + Lines + Validate,
{
    let _ = v.to_string();
    let _ = format!("{v:?}");
    let _ = v.lines();
    let _ = v.validate();
    let _ = v.clone() == *v;
}

pub fn up_down1(d: ast1::Document) {
    exercise(&d);
    if let Ok(d2) = ast2::Document::try_from(d) {
        exercise(&d2);
        exercise(&ast1::Document::from(d2.clone()));
        if let Ok(d3) = ast3::Document::try_from(d2) {
            exercise(&d3);
            let b = ast2::Document::from(d3);
            exercise(&b);
            exercise(&ast1::Document::from(b));
        }
    }
}

pub fn built_total(s: &mut Src) -> R {
    let v = V {
        stage: 1 + s.below(3) as u8,
        bad: 0,
        max_depth: 4,
    };
    let refuse = |e: InternalError| format!("a sound value is refused: {e:?}");
    let text = match v.stage {
        1 => {
            let ns = values(s, v, 0);
            let d = ast1::Document::new(build1(&ns)).map_err(refuse)?;
            up_down1(d);
            print(&ns)
        }
        2 => {
            let ns = values(s, v, 0);
            let d = ast2::Document::new(build2(&ns)).map_err(refuse)?;
            exercise(&d);
            if let Ok(d3) = ast3::Document::try_from(d.clone()) {
                exercise(&d3);
                exercise(&ast2::Document::from(d3));
            }
            up_down1(ast1::Document::from(d));
            print(&ns)
        }
        _ => {
            let m = wild3(s, v);
            let b = m.body.clone().unwrap();
            let d = ast3::Document::new(
                build3(&m.pre),
                None,
                vec![],
                build3(&b.content),
                args3(&b.args),
                b.pb,
                b.pe,
                build3(&m.trail),
            )
            .map_err(refuse)?;
            exercise(&d);
            let d2 = ast2::Document::from(d);
            exercise(&d2);
            let _ = ast3::Document::try_from(d2.clone());
            up_down1(ast1::Document::from(d2));
            m.print()
        }
    };
    let nt = text.len() > 8;
    Ok(Case::new(format!("built at stage {}: {text}", v.stage), nt).label(true, "built value"))
}

// ------------------------------------------------------ push histories (C18)

#[derive(Clone, Debug)]
enum Op {
    Push(N),
    PushUnchecked(N),
    Chunk(u32, N),
    ChunkUnchecked(u32, N),
}

/// The reference document section: pieces with the lines they were given.
#[derive(Clone, Default)]
struct Sec {
    v: Vec<(u32, N)>,
}

impl Sec {
    fn due(&self) -> u32 {
        self.v
            .last()
            .map(|(l, n)| l + newlines(&print(std::slice::from_ref(n))))
            .unwrap_or(1)
    }
    fn add(&mut self, line: u32, n: &N) {
        if let (Some((_, N::Text(l))), N::Text(t)) = (self.v.last_mut(), n) {
            l.push_str(t);
            return;
        }
        self.v.push((line, n.clone()));
    }
    /// rules the piece breaks, alone or by being merged
    fn broken(&self, n: &N, stage: u8) -> Vec<InternalError> {
        let mut bad = vec![];
        broken(std::slice::from_ref(n), stage, &mut bad);
        if let (Some((_, N::Text(l))), N::Text(t), 3) = (self.v.last(), n, stage) {
            if unbroken(&format!("{l}{t}")) {
                bad.push(InternalError::UnbrokenParagraph);
            }
        }
        bad
    }
    /// A checked push onto text that an unchecked push already spoiled is not
    /// judged: such an operation is made unchecked.
    fn tame(&self, op: Op, stage: u8) -> Op {
        let mut bad = vec![];
        if let Some((_, l @ N::Text(_))) = self.v.last() {
            broken(std::slice::from_ref(l), stage, &mut bad);
        }
        match op {
            Op::Push(n @ N::Text(_)) if !bad.is_empty() => Op::PushUnchecked(n),
            Op::Chunk(l, n @ N::Text(_)) if !bad.is_empty() => Op::ChunkUnchecked(l, n),
            op => op,
        }
    }
    fn nodes(&self) -> Vec<N> {
        self.v.iter().map(|x| x.1.clone()).collect()
    }
    fn text(&self) -> String {
        print(&self.nodes())
    }
    /// Apply a checked or unchecked push; what the crate must answer.
    fn apply(&mut self, op: &Op, stage: u8) -> Option<Vec<InternalError>> {
        match op {
            Op::Push(n) => {
                let bad = self.broken(n, stage);
                if bad.is_empty() {
                    self.add(self.due(), n);
                }
                Some(bad)
            }
            Op::PushUnchecked(n) => {
                self.add(self.due(), n);
                None
            }
            Op::Chunk(l, n) => {
                let mut bad = self.broken(n, stage);
                if *l != self.due() {
                    bad.push(InternalError::IncorrectChunkLineNumber {
                        expected: self.due(),
                        got: *l,
                    });
                }
                if bad.is_empty() {
                    self.add(*l, n);
                }
                Some(bad)
            }
            Op::ChunkUnchecked(l, n) => {
                self.add(*l, n);
                None
            }
        }
    }
}

fn draw_op(s: &mut Src, n: N, due: u32, unchecked: bool) -> Op {
    match s.weighted(&[5, 5, if unchecked { 2 } else { 0 }, if unchecked { 2 } else { 0 }]) {
        0 => Op::Push(n),
        1 => {
            let l = if s.chance(1, 5) {
                *s.pick(&[0, 1, due + 1, due.saturating_sub(1), 2])
            } else {
                due
            };
            Op::Chunk(l, n)
        }
        2 => Op::PushUnchecked(n),
        _ => Op::ChunkUnchecked(if s.chance(1, 3) { 1 + s.below(50) as u32 } else { due }, n),
    }
}

fn answered(
    got: Option<Result<(), InternalError>>,
    want: &Option<Vec<InternalError>>,
    step: usize,
    op: &Op,
) -> Result<bool, String> {
    match (got, want) {
        (None, None) => Ok(true),
        (Some(Ok(())), Some(b)) if b.is_empty() => Ok(true),
        (Some(Ok(())), Some(b)) => Err(format!("step {step}: {op:?} is accepted, it breaks {:?}", b[0])),
        (Some(Err(e)), Some(b)) if b.is_empty() => Err(format!("step {step}: {op:?} is refused with {e:?}")),
        (Some(Err(e)), Some(b)) if b.contains(&e) => Ok(false),
        (Some(Err(e)), Some(b)) => Err(format!("step {step}: {op:?} is refused with {e:?}, it breaks {b:?}")),
        _ => unreachable!(),
    }
}

/// Mostly short histories of fresh pieces; some long ones that push a few
/// pieces again and again.
struct Script {
    steps: usize,
    palette: Vec<N>,
    period: usize,
}

impl Script {
    fn draw(s: &mut Src, v: V) -> Script {
        if !s.chance(1, 6) {
            return Script {
                steps: 1 + s.below(14),
                palette: vec![],
                period: 0,
            };
        }
        let n = 1 + s.below(5);
        let max = if s.chance(1, 60) { 1100 } else { 130 };
        Script {
            steps: gen::size(s, max) + s.below(6),
            palette: (0..n)
                .map(|_| value(s, V { max_depth: 1, ..v }, 0))
                .collect(),
            period: s.below(9),
        }
    }
    /// the piece of one step: by turns, or drawn
    fn piece(&self, s: &mut Src, v: V, step: usize) -> N {
        if self.palette.is_empty() || step + 3 > self.steps {
            return value(s, V { max_depth: 2, ..v }, 0);
        }
        let at = match self.period {
            0 => s.below(self.palette.len()),
            p if step % (p + 1) == p => self.palette.len() - 1,
            _ => step % self.palette.len(),
        };
        self.palette[at].clone()
    }
    /// the section of one step: long runs in one of them
    fn section(&self, s: &mut Src, step: usize) -> usize {
        if step + 3 > self.steps {
            s.below(3)
        } else {
            (self.steps + step / 40 * (self.period % 3)) % 3
        }
    }
    /// whether to look at everything after this step
    fn look(&self, step: usize) -> bool {
        step < 14 || step % 64 == 63 || step + 3 > self.steps
    }
}

macro_rules! history {
    ($name:ident, $m:ident, $stage:expr, $variant:ident, $build:ident, $cmp:path) => {
        fn $name(s: &mut Src) -> R {
            let v = V {
                stage: $stage,
                bad: *s.pick(&[0, 6, 12]),
                max_depth: 2,
            };
            let unchecked = s.chance(1, 3);
            let mut model = Sec::default();
            let mut doc = $m::Document::default();
            match s.weighted(&[2, 1, 1]) {
                0 => {}
                1 => {
                    // a document that already holds something sound
                    let ns = merge_text(values(s, V { bad: 0, ..v }, 0));
                    doc = $m::Document::new($build(&ns)).map_err(|e| format!("a sound document is refused: {e:?}"))?;
                    model.v = lines_of(&ns).into_iter().zip(ns).collect();
                }
                _ => {
                    // a parsed one
                    let mut ns = lower32(&gen::doc(s, gen::Opts::PLAIN).flat());
                    if $stage == 1 {
                        ns = lower21(&ns);
                    }
                    let text = print(&ns);
                    doc = text
                        .parse()
                        .map_err(|e| format!("the well-formed source {text:?} is refused: {e:?}"))?;
                    model.v = lines_of(&ns).into_iter().zip(ns).collect();
                }
            }
            let script = Script::draw(s, v);
            let steps = script.steps;
            let mut log = String::new();
            let (mut refused, mut merged, mut all_checked) = (0, 0, true);
            for step in 0..steps {
                let n = script.piece(s, v, step);
                let op = model.tame(draw_op(s, n, model.due(), unchecked), $stage);
                log.push_str(&format!("{op:?}; "));
                let before = script.look(step).then(|| doc.clone());
                let pieces = model.v.len();
                let want = model.apply(&op, $stage);
                let got = match &op {
                    Op::Push(n) => Some(doc.push($variant(n))),
                    Op::PushUnchecked(n) => {
                        doc.push_unchecked($variant(n));
                        None
                    }
                    Op::Chunk(l, n) => Some(doc.push_chunk($m::Chunk::new_unchecked(*l, $variant(n)))),
                    Op::ChunkUnchecked(l, n) => {
                        doc.push_chunk_unchecked($m::Chunk::new_unchecked(*l, $variant(n)));
                        None
                    }
                };
                all_checked &= got.is_some();
                if !answered(got, &want, step, &op)? {
                    refused += 1;
                    if before.is_some_and(|b| b != doc) {
                        return Err(format!("step {step}: the refused push {op:?} changed the document"));
                    }
                } else if model.v.len() == pieces {
                    merged += 1;
                }
                if doc.chunks().len() != model.v.len() {
                    return Err(format!("step {step}: after {log} the document holds {:?}", doc.chunks()));
                }
                if !script.look(step) {
                    continue;
                }
                let want: Vec<_> = model
                    .v
                    .iter()
                    .map(|(l, n)| $m::Chunk::new_unchecked(*l, $variant(n)))
                    .collect();
                if doc.chunks() != &want {
                    return Err(format!(
                        "step {step}: after {log} the document holds {:?}, expected {want:?}",
                        doc.chunks()
                    ));
                }
                same_print(&doc, &model.text())?;
                if doc.lines() != newlines(&model.text()) + 1 {
                    return Err(format!("step {step}: line count {} is wrong after {log}", doc.lines()));
                }
                if all_checked {
                    if let Err(e) = doc.validate() {
                        return Err(format!("step {step}: after checked pushes {log} the document is invalid: {e:?}"));
                    }
                }
            }
            if doc.clone().chunks_owned() != *doc.chunks() {
                return Err("owned and borrowed chunks differ".into());
            }
            Ok(Case::new(format!("stage {}: {log}", $stage), steps > 2)
                .label(refused > 0, "a push refused")
                .label(merged > 0, "texts merged")
                .label(!all_checked, "unchecked pushes"))
        }
    };
}

history!(history1, ast1, 1, variant1, build1, cmp::cmp1);
history!(history2, ast2, 2, variant2, build2, cmp::cmp2);

fn history3(s: &mut Src) -> R {
    let v = V {
        stage: 3,
        bad: *s.pick(&[0, 6, 12]),
        max_depth: 2,
    };
    let unchecked = s.chance(1, 3);
    let mut secs = [Sec::default(), Sec::default(), Sec::default()];
    let (mut pb, mut pe) = (String::new(), String::new());
    let mut doc = ast3::Document::default();
    // whether the document has a document environment before anything is pushed to the body
    let mut env = true;
    let mut bargs: Vec<Arg> = vec![];
    let start = s.weighted(&[2, 1, 1]);
    if start == 2 {
        // a parsed document
        let m = gen::doc(s, gen::Opts::PLAIN);
        let text = m.print();
        doc = text
            .parse()
            .map_err(|e| format!("the well-formed source {text:?} is refused: {e:?}"))?;
        env = m.body.is_some();
        let none = vec![];
        let parts = [&m.pre, m.body.as_ref().map_or(&none, |b| &b.content), &m.trail];
        for (sec, ns) in secs.iter_mut().zip(parts) {
            sec.v = lines_of(ns).into_iter().zip(ns.iter().cloned()).collect();
        }
        if let Some(b) = m.body {
            (pb, pe, bargs) = (b.pb, b.pe, b.args);
        }
    }
    if start == 1 {
        pb = gen::ws(s, 2);
        pe = gen::ws(s, 2);
        let mut parts = vec![];
        for sec in secs.iter_mut() {
            let mut ns = values(s, V { bad: 0, ..v }, 0);
            ns = gen::refinish(ns);
            for (l, n) in lines_of(&ns).into_iter().zip(&ns) {
                sec.v.push((l, n.clone()));
            }
            parts.push(build3(&ns));
        }
        if s.chance(1, 3) {
            bargs = vargs(s, V { bad: 0, ..v }, 1);
        }
        doc = ast3::Document::new(
            parts[0].clone(),
            None,
            vec![],
            parts[1].clone(),
            args3(&bargs),
            pb.clone(),
            pe.clone(),
            parts[2].clone(),
        )
        .map_err(|e| format!("a sound document is refused: {e:?}"))?;
    }
    let rest = |d: &ast3::Document| {
        let (class, opts, _, _, args, pb, pe, _) = d.clone().decompose();
        (class, opts, args, pb, pe)
    };
    let first = rest(&doc);
    let script = Script::draw(s, v);
    let steps = script.steps;
    let mut log = String::new();
    let (mut refused, mut merged, mut all_checked) = (0, 0, true);
    for step in 0..steps {
        let which = if script.palette.is_empty() { s.below(3) } else { script.section(s, step) };
        let n = script.piece(s, v, step);
        let op = secs[which].tame(draw_op(s, n, secs[which].due(), unchecked), 3);
        log.push_str(&format!("{}:{op:?}; ", ["preamble", "body", "trailing"][which]));
        let before = script.look(step).then(|| doc.clone());
        let pieces = secs[which].v.len();
        let want = secs[which].apply(&op, 3);
        let got = match &op {
            Op::Push(n) => Some(match which {
                0 => doc.push_preamable(variant3(n)),
                1 => doc.push_body(variant3(n)),
                _ => doc.push_trailing(variant3(n)),
            }),
            Op::PushUnchecked(n) => {
                match which {
                    0 => doc.push_preamable_unchecked(variant3(n)),
                    1 => doc.push_body_unchecked(variant3(n)),
                    _ => doc.push_trailing_unchecked(variant3(n)),
                }
                None
            }
            Op::Chunk(l, n) => {
                let c = ast3::Chunk::new_unchecked(*l, variant3(n));
                Some(match which {
                    0 => doc.push_preamable_chunk(c),
                    1 => doc.push_body_chunk(c),
                    _ => doc.push_trailing_chunk(c),
                })
            }
            Op::ChunkUnchecked(l, n) => {
                let c = ast3::Chunk::new_unchecked(*l, variant3(n));
                match which {
                    0 => doc.push_preamable_chunk_unchecked(c),
                    1 => doc.push_body_chunk_unchecked(c),
                    _ => doc.push_trailing_chunk_unchecked(c),
                }
                None
            }
        };
        all_checked &= got.is_some();
        if !answered(got, &want, step, &op)? {
            refused += 1;
            if before.is_some_and(|b| b != doc) {
                return Err(format!("step {step}: the refused push {op:?} changed the document"));
            }
        } else if secs[which].v.len() == pieces {
            merged += 1;
        }
        if !script.look(step) {
            continue;
        }
        for (i, have) in [doc.chunks_preamable(), doc.chunks_body(), doc.chunks_trailing()]
            .into_iter()
            .enumerate()
        {
            let want: Vec<_> = secs[i]
                .v
                .iter()
                .map(|(l, n)| ast3::Chunk::new_unchecked(*l, variant3(n)))
                .collect();
            if have != &want {
                return Err(format!(
                    "step {step}: after {log} section {i} holds {have:?}, expected {want:?}"
                ));
            }
        }
        let whole = Doc3 {
            pre: secs[0].nodes(),
            body: (env || !secs[1].v.is_empty()).then(|| Body {
                pb: pb.clone(),
                args: bargs.clone(),
                content: secs[1].nodes(),
                pe: pe.clone(),
            }),
            trail: secs[2].nodes(),
        };
        let text = whole.print();
        same_print(&doc, &text)?;
        if doc.lines() != newlines(&text) + 1 {
            return Err(format!("step {step}: line count {} is wrong after {log}", doc.lines()));
        }
        if all_checked {
            if let Err(e) = doc.validate() {
                return Err(format!("step {step}: after checked pushes {log} the document is invalid: {e:?}"));
            }
        }
    }
    if rest(&doc) != first {
        return Err(format!(
            "after {log} the class, options, body arguments or whitespace are {:?}, they were {first:?}",
            rest(&doc)
        ));
    }
    let text = doc.to_string();
    same_print(&ast2::Document::from(doc), &text)?;
    Ok(Case::new(format!("stage 3: {log}"), steps > 2)
        .label(start == 2, "from a parsed document")
        .label(!env, "from a document without body")
        .label(refused > 0, "a push refused")
        .label(merged > 0, "texts merged")
        .label(!all_checked, "unchecked pushes"))
}

/// C18
pub fn history(s: &mut Src) -> R {
    match s.below(3) {
        0 => history1(s),
        1 => history2(s),
        _ => history3(s),
    }
}

// ------------------------------------------------------ print then parse (C22)

fn chk<T>(r: Result<T, InternalError>) -> Result<T, String> {
    r.map_err(|e| format!("a sound value is refused: {e:?}"))
}

macro_rules! checked {
    ($m:ident, $cs:ident, $sc:ident, $ar:ident, $sv:ident, |$n:ident| { $($extra:tt)* }) => {
        pub fn $ar(a: &[Arg]) -> Result<Vec<(String, $m::Scope)>, String> {
            a.iter().map(|a| Ok((a.prec.clone(), $sc(a.k, &a.content)?))).collect()
        }
        pub fn $sc(k: K, c: &[N]) -> Result<$m::Scope, String> {
            chk($m::Scope::new($cs(c)?, k.$sv()))
        }
        pub fn $cs(ns: &[N]) -> Result<Vec<$m::Chunk>, String> {
            ns.iter()
                .zip(lines_of(ns))
                .map(|($n, l)| {
                    let v = match $n {
                        N::Text(s) => $m::ChunkVariant::Text(s.clone()),
                        N::Cmd { label, args } => {
                            $m::ChunkVariant::Command(chk($m::Command::new(label.clone(), $ar(args)?))?)
                        }
                        N::Scope(k, c) => $m::ChunkVariant::Scope($sc(*k, c)?),
                        $($extra)*
                        _ => unreachable!(),
                    };
                    chk($m::Chunk::new(l, v))
                })
                .collect()
        }
    };
}

checked!(ast1, checked1, cscope1, cargs1, s1, |n| {});
checked!(ast2, checked2, cscope2, cargs2, s2, |n| {
    N::Env { label, pb, args, content, pe } => ast2::ChunkVariant::Environment(chk(ast2::Environment::new(
        label.clone(), cargs2(args)?, checked2(content)?, pb.clone(), pe.clone()))?),
});
checked!(ast3, checked3, cscope3, cargs3, s3, |n| {
    N::Env { label, pb, args, content, pe } => ast3::ChunkVariant::Environment(chk(ast3::Environment::new(
        label.clone(), cargs3(args)?, checked3(content)?, pb.clone(), pe.clone()))?),
    N::Maths { dollars, display, content } => ast3::ChunkVariant::MathsBlock(chk(ast3::MathsBlock::new(
        mv(*dollars), mt(*display), checked3(content)?))?),
    N::Break(s) => ast3::ChunkVariant::ParagraphBreak(s.clone()),
});

fn has_env(ns: &[N]) -> bool {
    ns.iter().any(|n| match n {
        N::Env { .. } => true,
        N::Maths { content, .. } => has_env(content),
        _ => false,
    })
}

pub fn roundtrip(s: &mut Src) -> R {
    let m = gen::doc(s, gen::Opts::PLAIN);
    let text = m.print();
    let m2 = lower32(&m.flat());
    let m1 = lower21(&m2);
    let d1 = chk(ast1::Document::new(checked1(&m1)?))?;
    let t1 = d1.to_string();
    match t1.parse::<ast1::Document>() {
        Ok(p) if p == d1 => {}
        Ok(p) => return Err(format!("stage-1 value {d1:?} prints {t1:?}, which parses as {p:?}")),
        Err(e) => return Err(format!("stage-1 value prints {t1:?}, which is rejected: {e:?}")),
    }
    let d2 = chk(ast2::Document::new(checked2(&m2)?))?;
    let t2 = d2.to_string();
    match t2.parse::<ast2::Document>() {
        Ok(p) if p == d2 => {}
        Ok(p) => return Err(format!("stage-2 value {d2:?} prints {t2:?}, which parses as {p:?}")),
        Err(e) => return Err(format!("stage-2 value prints {t2:?}, which is rejected: {e:?}")),
    }
    if let Some(b) = m.body.clone() {
        let (class, entries) = refp::class_args(&lower32(&m.pre)).map_err(|e| format!("INTERNAL {e:?}"))?;
        let mut opts: Vec<Opt> = vec![];
        let mut clear = true;
        for e in entries.iter().flat_map(|t| t.split(',')) {
            match option_pieces(e) {
                Some(o) => opts.push(o),
                None => clear = false,
            }
        }
        if clear {
            let d3 = chk(ast3::Document::new(
                checked3(&m.pre)?,
                class,
                opts,
                checked3(&b.content)?,
                cargs3(&b.args)?,
                b.pb,
                b.pe,
                checked3(&m.trail)?,
            ))?;
            let t3 = d3.to_string();
            match t3.parse::<ast3::Document>() {
                Ok(p) if p == d3 => {}
                Ok(p) => return Err(format!("stage-3 value {d3:?} prints {t3:?}, which parses as {p:?}")),
                Err(e) => return Err(format!("stage-3 value prints {t3:?}, which is rejected: {e:?}")),
            }
        }
    }
    let nt = m1.len() > 1;
    let env = has_env(&m.flat());
    Ok(Case::new(text, nt)
        .label(m.body.is_some(), "with document environment")
        .label(env, "with environments"))
}

/// The pieces of an option entry, when they are unambiguous: a key, and a
/// value if there is an equals sign, both non-empty.
fn option_pieces(e: &str) -> Option<Opt> {
    let core = e.trim();
    if core.is_empty() {
        return None;
    }
    let at = e.find(core).unwrap();
    let prec = e[..at].to_string();
    let post = e[at + core.len()..].to_string();
    match core.split_once('=') {
        None => Some((prec, core.to_string(), None, post)),
        Some((k, v)) => {
            let (key, val) = (k.trim_end(), v.trim_start());
            if key.is_empty() || val.is_empty() {
                return None;
            }
            Some((
                prec,
                key.to_string(),
                Some((
                    k[key.len()..].to_string(),
                    v[..v.len() - val.len()].to_string(),
                    val.to_string(),
                )),
                post,
            ))
        }
    }
}
