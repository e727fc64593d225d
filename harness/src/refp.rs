//! Reference readers, written from the documented grammar on plain slices and
//! trees (no code shared with the crate): source -> stage 1 -> stage 2 -> 3.

use crate::model::*;

/// Why a document is not well formed (kind only; lines are checked with
/// injected faults whose position is known by construction).
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Bad {
    UnexpectedClosing(K),
    UnclosedArgument(K),
    UnclosedScope(K),
    NoLabel,
    UnexpectedEnd(String),
    UnclosedEnv(String),
    TooManyArgsEnd,
    TooManyArgsClass,
    DoubleClass,
    MathsEnd,
    UnclosedMaths,
}

/// Source without its comments: from an unescaped `%` up to, not including,
/// the newline.
pub fn strip_comments(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                out.push(c);
                if let Some(n) = it.next() {
                    out.push(n);
                }
            }
            '%' => {
                for n in it.by_ref() {
                    if n == '\n' {
                        out.push(n);
                        break;
                    }
                }
            }
            c => out.push(c),
        }
    }
    out
}

pub fn parse1(s: &str) -> Result<Vec<N>, Bad> {
    let v: Vec<char> = strip_comments(s).chars().collect();
    items(&v)
}

/// Index of the bracket closing the one just before `i`, counting only
/// brackets of the same kind and skipping escaped characters.
fn matching(v: &[char], mut i: usize, k: K) -> Option<usize> {
    let mut depth = 1;
    while i < v.len() {
        let c = v[i];
        if c == '\\' {
            i += 2;
            continue;
        }
        if c == k.open() {
            depth += 1;
        } else if c == k.close() {
            depth -= 1;
            if depth == 0 {
                return Some(i);
            }
        }
        i += 1;
    }
    None
}

fn st(v: &[char]) -> String {
    v.iter().collect()
}

fn items(v: &[char]) -> Result<Vec<N>, Bad> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if c == '\\' {
            i += 1;
            let Some(&n) = v.get(i) else {
                out.push(N::Cmd {
                    label: String::new(),
                    args: vec![],
                });
                break;
            };
            if !n.is_ascii_alphabetic() {
                out.push(N::Cmd {
                    label: n.to_string(),
                    args: vec![],
                });
                i += 1;
                continue;
            }
            let start = i;
            while i < v.len()
                && !v[i].is_whitespace()
                && K::of_open(v[i]).is_none()
                && K::of_close(v[i]).is_none()
                && v[i] != '\\'
                && v[i] != '$'
            {
                i += 1;
            }
            let label = st(&v[start..i]);
            let mut spans = Vec::new();
            loop {
                let mut j = i;
                while j < v.len() && v[j].is_whitespace() {
                    j += 1;
                }
                let Some(k) = v.get(j).and_then(|c| K::of_open(*c)) else {
                    break;
                };
                let Some(e) = matching(v, j + 1, k) else {
                    return Err(Bad::UnclosedArgument(k));
                };
                spans.push((st(&v[i..j]), k, j + 1, e));
                i = e + 1;
            }
            if let Some(k) = v.get(i).and_then(|c| K::of_close(*c)) {
                return Err(Bad::UnexpectedClosing(k));
            }
            let mut args = Vec::new();
            for (prec, k, a, b) in spans {
                args.push(Arg {
                    prec,
                    k,
                    content: items(&v[a..b])?,
                });
            }
            out.push(N::Cmd { label, args });
        } else if let Some(k) = K::of_open(c) {
            let Some(e) = matching(v, i + 1, k) else {
                return Err(Bad::UnclosedScope(k));
            };
            out.push(N::Scope(k, items(&v[i + 1..e])?));
            i = e + 1;
        } else {
            let start = i;
            while i < v.len() && v[i] != '\\' && K::of_open(v[i]).is_none() {
                i += 1;
            }
            out.push(N::Text(st(&v[start..i])));
        }
    }
    Ok(out)
}

fn map_args(args: &[Arg], f: fn(&[N]) -> Result<Vec<N>, Bad>) -> Result<Vec<Arg>, Bad> {
    args.iter()
        .map(|a| {
            Ok(Arg {
                prec: a.prec.clone(),
                k: a.k,
                content: f(&a.content)?,
            })
        })
        .collect()
}

/// Stage-1 tree -> stage-2 tree.
pub fn stage2(ns: &[N]) -> Result<Vec<N>, Bad> {
    struct Open {
        label: Vec<N>,
        pb: String,
        args: Vec<Arg>,
        before: Vec<N>,
    }
    let mut stack: Vec<Open> = Vec::new();
    let mut cur: Vec<N> = Vec::new();
    for n in ns {
        match n {
            N::Text(s) => cur.push(N::Text(s.clone())),
            N::Scope(k, c) => cur.push(N::Scope(*k, stage2(c)?)),
            N::Cmd { label, args } if label == "begin" || label == "end" => {
                let Some(first) = args.first().filter(|a| a.k == K::Curly) else {
                    return Err(Bad::NoLabel);
                };
                if label == "begin" {
                    stack.push(Open {
                        label: first.content.clone(),
                        pb: first.prec.clone(),
                        args: map_args(&args[1..], stage2)?,
                        before: std::mem::take(&mut cur),
                    });
                    continue;
                }
                let name = print(&first.content);
                if stack.last().map(|o| &o.label) != Some(&first.content) {
                    return Err(Bad::UnexpectedEnd(name));
                }
                if args.len() > 1 {
                    return Err(Bad::TooManyArgsEnd);
                }
                let o = stack.pop().unwrap();
                let content = std::mem::replace(&mut cur, o.before);
                cur.push(N::Env {
                    label: name,
                    pb: o.pb,
                    args: o.args,
                    content,
                    pe: first.prec.clone(),
                });
            }
            N::Cmd { label, args } => cur.push(N::Cmd {
                label: label.clone(),
                args: map_args(args, stage2)?,
            }),
            _ => unreachable!(),
        }
    }
    match stack.first() {
        Some(o) => Err(Bad::UnclosedEnv(print(&o.label))),
        None => Ok(cur),
    }
}

/// A text run cut at its paragraph breaks: every maximal run of whitespace is
/// looked at from its first newline on; with two newlines or more it is one.
pub fn paragraphs(s: &str) -> Vec<N> {
    let v: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut text = String::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] == '\n' {
            let mut j = i;
            while j < v.len() && v[j].is_whitespace() {
                j += 1;
            }
            let run = st(&v[i..j]);
            if newlines(&run) >= 2 {
                if !text.is_empty() {
                    out.push(N::Text(std::mem::take(&mut text)));
                }
                out.push(N::Break(run));
            } else {
                text.push_str(&run);
            }
            i = j;
        } else {
            text.push(v[i]);
            i += 1;
        }
    }
    if !text.is_empty() {
        out.push(N::Text(text));
    }
    out
}

enum Tok {
    Dollar,
    Node(N),
}

/// Stage-2 tree -> stage-3 tree (one container).
pub fn stage3(ns: &[N]) -> Result<Vec<N>, Bad> {
    let mut toks = Vec::new();
    for n in ns {
        if let N::Text(s) = n {
            for (i, piece) in s.split('$').enumerate() {
                if i > 0 {
                    toks.push(Tok::Dollar);
                }
                if !piece.is_empty() {
                    toks.push(Tok::Node(N::Text(piece.to_string())));
                }
            }
        } else {
            toks.push(Tok::Node(n.clone()));
        }
    }
    maths(&toks)
}

/// The stage-2 nodes a stretch of tokens stands for.
fn nodes(t: &[Tok]) -> Vec<N> {
    merge_text(
        t.iter()
            .map(|t| match t {
                Tok::Dollar => N::Text("$".into()),
                Tok::Node(n) => n.clone(),
            })
            .collect(),
    )
}

fn cmd_is(t: &Tok, l: &str) -> bool {
    matches!(t, Tok::Node(N::Cmd { label, .. }) if label == l)
}

fn maths(t: &[Tok]) -> Result<Vec<N>, Bad> {
    let is_d = |i: usize| matches!(t.get(i), Some(Tok::Dollar));
    let next_d = |from: usize| (from..t.len()).find(|i| is_d(*i));
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            Tok::Dollar if is_d(i + 1) => {
                let e = next_d(i + 2).ok_or(Bad::UnclosedMaths)?;
                if !is_d(e + 1) {
                    return Err(Bad::UnclosedMaths);
                }
                out.push(N::Maths {
                    dollars: true,
                    display: true,
                    content: stage3(&nodes(&t[i + 2..e]))?,
                });
                i = e + 2;
            }
            Tok::Dollar => {
                let e = next_d(i + 1).ok_or(Bad::UnclosedMaths)?;
                out.push(N::Maths {
                    dollars: true,
                    display: false,
                    content: stage3(&nodes(&t[i + 1..e]))?,
                });
                i = e + 1;
            }
            Tok::Node(N::Text(s)) => {
                out.extend(paragraphs(s));
                i += 1;
            }
            Tok::Node(N::Cmd { label, .. }) if label == ")" || label == "]" => {
                return Err(Bad::MathsEnd)
            }
            Tok::Node(N::Cmd { label, .. }) if label == "(" || label == "[" => {
                let close = if label == "(" { ")" } else { "]" };
                let mut depth = 1;
                let mut e = i + 1;
                loop {
                    let Some(x) = t.get(e) else {
                        return Err(Bad::UnclosedMaths);
                    };
                    if cmd_is(x, label) {
                        depth += 1;
                    } else if cmd_is(x, close) {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    e += 1;
                }
                out.push(N::Maths {
                    dollars: false,
                    display: label == "[",
                    content: stage3(&nodes(&t[i + 1..e]))?,
                });
                i = e + 1;
            }
            Tok::Node(n) => {
                out.push(match n {
                    N::Cmd { label, args } => N::Cmd {
                        label: label.clone(),
                        args: map_args(args, stage3)?,
                    },
                    N::Scope(k, c) => N::Scope(*k, stage3(c)?),
                    N::Env {
                        label,
                        pb,
                        args,
                        content,
                        pe,
                    } => N::Env {
                        label: label.clone(),
                        pb: pb.clone(),
                        args: map_args(args, stage3)?,
                        content: stage3(content)?,
                        pe: pe.clone(),
                    },
                    _ => unreachable!(),
                });
                i += 1;
            }
        }
    }
    Ok(out)
}

/// Stage-2 document -> stage-3 document.
pub fn sections(ns: &[N]) -> Result<Doc3, Bad> {
    let at = ns
        .iter()
        .position(|n| matches!(n, N::Env { label, .. } if label == "document"));
    let (pre, rest) = ns.split_at(at.unwrap_or(ns.len()));
    class_args(pre)?;
    let mut d = Doc3 {
        pre: stage3(pre)?,
        ..Default::default()
    };
    if let Some((
        N::Env {
            pb,
            args,
            content,
            pe,
            ..
        },
        trail,
    )) = rest.split_first()
    {
        d.body = Some(Body {
            pb: pb.clone(),
            args: map_args(args, stage3)?,
            content: stage3(content)?,
            pe: pe.clone(),
        });
        d.trail = stage3(trail)?;
    }
    Ok(d)
}

/// Class name and the option lists, as written, of the stage-2 preamble.
pub fn class_args(pre: &[N]) -> Result<(Option<String>, Vec<String>), Bad> {
    let mut class = None;
    let mut opts = Vec::new();
    for n in pre {
        let N::Cmd { label, args } = n else { continue };
        if label != "documentclass" {
            continue;
        }
        if class.is_some() {
            return Err(Bad::DoubleClass);
        }
        for a in args {
            if a.k == K::Curly {
                if class.is_some() {
                    return Err(Bad::TooManyArgsClass);
                }
                class = Some(print(&a.content));
            } else {
                opts.push(print(&a.content));
            }
        }
    }
    Ok((class, opts))
}

pub fn parse2(s: &str) -> Result<Vec<N>, Bad> {
    stage2(&parse1(s)?)
}
pub fn parse3(s: &str) -> Result<Doc3, Bad> {
    sections(&parse2(s)?)
}

/// Every opening bracket closed by its own kind, every closing bracket opened,
/// properly nested, and no closing bracket outside: decided on the source.
pub fn has_stray_closing(ns: &[N]) -> bool {
    ns.iter().any(|n| match n {
        N::Text(s) | N::Break(s) => s.chars().any(|c| K::of_close(c).is_some()),
        N::Cmd { args, .. } => args.iter().any(|a| has_stray_closing(&a.content)),
        N::Scope(_, c) => has_stray_closing(c),
        N::Env { args, content, .. } => {
            args.iter().any(|a| has_stray_closing(&a.content)) || has_stray_closing(content)
        }
        N::Maths { content, .. } => has_stray_closing(content),
        N::Raw(_) => false,
    })
}

/// Some environment name is more than plain text.
pub fn has_complex_label(ns: &[N]) -> bool {
    let bad = |s: &str| {
        s.chars()
            .any(|c| matches!(c, '\\' | '%') || K::of_open(c).is_some() || K::of_close(c).is_some())
    };
    ns.iter().any(|n| match n {
        N::Cmd { args, .. } => args.iter().any(|a| has_complex_label(&a.content)),
        N::Scope(_, c) => has_complex_label(c),
        N::Env {
            label,
            args,
            content,
            ..
        } => {
            bad(label)
                || args.iter().any(|a| has_complex_label(&a.content))
                || has_complex_label(content)
        }
        N::Maths { content, .. } => has_complex_label(content),
        _ => false,
    })
}
