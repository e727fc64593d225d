//! Documents built in code, converted up and down (C24): the printed text and
//! the line numbers survive every conversion that is not refused, and the
//! public piecewise conversions agree with the conversion of whole documents.

use crate::engine::{Case, R};
use crate::gen;
use crate::model::*;
use crate::refp;
use crate::src::Src;
use crate::values::{self, V};
use latex_ast::traits::Lines;
use latex_ast::{ast1, ast2, ast3};

/// The nodes start where the printed text before them ends.
macro_rules! starts {
    ($name:ident, $st:ident, $what:ident, $($rest:tt)*) => {
        fn $name(cs: &[$st::Chunk], $what: &str) -> Result<(), String> {
            let mut at = 1;
            for c in cs {
                if c.line_no() != at {
                    return Err(format!(
                        "{}: the node {:?} is on line {} of its container, its number is {}",
                        $what,
                        c.to_string(),
                        at,
                        c.line_no()
                    ));
                }
                at += newlines(&c.to_string());
                match c.variant() {
                    $st::ChunkVariant::Scope(s) => $name(s.chunks(), $what)?,
                    $st::ChunkVariant::Command(k) => {
                        for (_, s) in k.arguments() {
                            $name(s.chunks(), $what)?
                        }
                    }
                    $($rest)*
                }
            }
            Ok(())
        }
    };
}
starts!(starts1, ast1, what, ast1::ChunkVariant::Text(_) => {});
starts!(starts2, ast2, what,
    ast2::ChunkVariant::Text(_) => {}
    ast2::ChunkVariant::Environment(e) => {
        let (_, a, c, _, _) = e.clone().decompose();
        for (_, s) in &a {
            starts2(s.chunks(), what)?
        }
        starts2(&c, what)?
    }
);
starts!(starts3, ast3, what,
    ast3::ChunkVariant::Text(_) | ast3::ChunkVariant::ParagraphBreak(_) => {}
    // the content of a block has no accessor; its expansion shows its lines
    ast3::ChunkVariant::MathsBlock(_) => {}
    ast3::ChunkVariant::Environment(e) => {
        let (_, a, c, _, _) = e.clone().decompose();
        for (_, s) in &a {
            starts3(s.chunks(), what)?
        }
        starts3(&c, what)?
    }
);

fn kept(what: &str, text: &str, got: &str, lines: u32) -> Result<(), String> {
    if got != text {
        return Err(format!("{what}: the value prints {text:?}, converted it prints {got:?}"));
    }
    if lines != newlines(text) + 1 {
        return Err(format!("{what}: converted, {text:?} counts {lines} lines"));
    }
    Ok(())
}

fn down2(d: ast2::Document, text: &str) -> Result<ast1::Document, String> {
    let d1 = ast1::Document::from(d);
    kept("stage 2 to 1", text, &d1.to_string(), d1.lines())?;
    starts1(d1.chunks(), "stage 2 to 1")?;
    Ok(d1)
}
fn down3(d: ast3::Document, text: &str) -> Result<ast2::Document, String> {
    let d2 = ast2::Document::from(d);
    kept("stage 3 to 2", text, &d2.to_string(), d2.lines())?;
    starts2(d2.chunks(), "stage 3 to 2")?;
    Ok(d2)
}
fn up1(d: ast1::Document, text: &str) -> Result<Option<ast2::Document>, String> {
    match ast2::Document::try_from(d) {
        Ok(d2) => {
            kept("stage 1 to 2", text, &d2.to_string(), d2.lines())?;
            starts2(d2.chunks(), "stage 1 to 2")?;
            Ok(Some(d2))
        }
        Err(e) => refused("stage 1 to 2", text, &e).map(|_| None),
    }
}
fn up2(d: ast2::Document, text: &str) -> Result<Option<ast3::Document>, String> {
    match ast3::Document::try_from(d) {
        Ok(d3) => {
            kept("stage 2 to 3", text, &d3.to_string(), d3.lines())?;
            starts3(d3.chunks_preamable(), "stage 2 to 3")?;
            starts3(d3.chunks_body(), "stage 2 to 3")?;
            starts3(d3.chunks_trailing(), "stage 2 to 3")?;
            Ok(Some(d3))
        }
        Err(e) => refused("stage 2 to 3", text, &e).map(|_| None),
    }
}
fn refused(what: &str, text: &str, e: &latex_ast::Error) -> Result<(), String> {
    if e.line < 1 || e.line > newlines(text) + 1 {
        return Err(format!("{what}: {text:?} is refused with {e:?}, a line it does not have"));
    }
    Ok(())
}

fn every_way1(d: ast1::Document, text: &str) -> Result<bool, String> {
    let Some(d2) = up1(d, text)? else {
        return Ok(false);
    };
    down2(d2.clone(), text)?;
    every_way2(d2, text)
}
fn every_way2(d: ast2::Document, text: &str) -> Result<bool, String> {
    let Some(d3) = up2(d, text)? else {
        return Ok(false);
    };
    let d2 = down3(d3, text)?;
    down2(d2, text)?;
    Ok(true)
}

/// Delimiters of maths are one character commands without arguments.
fn plain_delims(ns: &mut [N]) {
    for n in ns {
        match n {
            N::Cmd { label, args } => {
                if matches!(label.as_str(), "(" | ")" | "[" | "]") {
                    args.clear();
                }
                args.iter_mut().for_each(|a| plain_delims(&mut a.content));
            }
            N::Scope(_, c) | N::Maths { content: c, .. } => plain_delims(c),
            N::Env { args, content, .. } => {
                args.iter_mut().for_each(|a| plain_delims(&mut a.content));
                plain_delims(content);
            }
            _ => {}
        }
    }
}

/// Neighbouring texts made one at every depth; nothing else changes.
fn joined(ns: &[N]) -> Vec<N> {
    let args = |a: &[Arg]| {
        a.iter()
            .map(|a| Arg {
                prec: a.prec.clone(),
                k: a.k,
                content: joined(&a.content),
            })
            .collect()
    };
    let v = ns.iter().map(|n| match n {
        N::Cmd { label, args: a } => N::Cmd {
            label: label.clone(),
            args: args(a),
        },
        N::Scope(k, c) => N::Scope(*k, joined(c)),
        N::Env {
            label,
            pb,
            args: a,
            content,
            pe,
        } => N::Env {
            label: label.clone(),
            pb: pb.clone(),
            args: args(a),
            content: joined(content),
            pe: pe.clone(),
        },
        n => n.clone(),
    });
    merge_text(v.collect())
}
/// No empty texts, at any depth.
fn filled(ns: &mut Vec<N>) {
    ns.retain(|n| !matches!(n, N::Text(t) if t.is_empty()));
    for n in ns {
        match n {
            N::Cmd { args, .. } => args.iter_mut().for_each(|a| filled(&mut a.content)),
            N::Scope(_, c) => filled(c),
            N::Env { args, content, .. } => {
                args.iter_mut().for_each(|a| filled(&mut a.content));
                filled(content);
            }
            _ => {}
        }
    }
}
/// The blocks, commands and brackets of a list, without its texts.
fn bones(cs: &[ast3::Chunk]) -> Vec<(u32, String)> {
    cs.iter()
        .filter(|c| !matches!(c.variant(), ast3::ChunkVariant::Text(_) | ast3::ChunkVariant::ParagraphBreak(_)))
        .map(|c| (c.line_no(), c.to_string()))
        .collect()
}
/// Texts cut in pieces, preferably next to dollar signs.
fn cut(s: &mut Src, ns: Vec<N>) -> Vec<N> {
    let mut out = vec![];
    for n in ns {
        match n {
            N::Text(t) => {
                let v: Vec<char> = t.chars().collect();
                let mut piece = String::new();
                for (i, c) in v.iter().enumerate() {
                    let near = *c == '$' || i > 0 && v[i - 1] == '$';
                    if !piece.is_empty() && s.chance(1, if near { 3 } else { 10 }) {
                        out.push(N::Text(std::mem::take(&mut piece)));
                    }
                    piece.push(*c);
                }
                if !piece.is_empty() {
                    out.push(N::Text(piece));
                }
            }
            N::Cmd { label, mut args } => {
                for a in args.iter_mut() {
                    a.content = cut(s, std::mem::take(&mut a.content));
                }
                out.push(N::Cmd { label, args })
            }
            N::Scope(k, c) => out.push(N::Scope(k, cut(s, c))),
            N::Env {
                label,
                pb,
                mut args,
                content,
                pe,
            } => {
                for a in args.iter_mut() {
                    a.content = cut(s, std::mem::take(&mut a.content));
                }
                out.push(N::Env {
                    label,
                    pb,
                    args,
                    content: cut(s, content),
                    pe,
                })
            }
            n => out.push(n),
        }
    }
    out
}
/// Parsed or built nodes with their texts in pieces.
pub fn pieces(s: &mut Src) -> R {
    let mut ns = if s.chance(1, 2) {
        let noise = match s.below(3) {
            0 => gen::sloppy(s),
            1 => gen::mutated(s),
            _ => gen::swarm(s),
        };
        match refp::parse2(&noise) {
            Ok(ns) => ns,
            Err(_) => return Ok(Case::new(noise, false)),
        }
    } else {
        lower32(&gen::doc(s, gen::Opts::ALL).flat())
    };
    ns = cut(s, ns);
    let refused = division(&ns)?;
    let text = print(&ns);
    Ok(Case::new(text.clone(), text.contains('$'))
        .label(refused, "refused")
        .label(joined(&ns).len() != ns.len(), "cut at the top level"))
}

/// How a text is divided among neighbouring pieces makes no difference.
fn division(ns: &[N]) -> Result<bool, String> {
    let one = joined(ns);
    let a = ast3::Document::try_from(ast2::Document::new_unchecked(build2(ns)));
    let b = ast3::Document::try_from(ast2::Document::new_unchecked(build2(&one)));
    let same = match (&a, &b) {
        (Ok(a), Ok(b)) => [
            (a.chunks_preamable(), b.chunks_preamable()),
            (a.chunks_body(), b.chunks_body()),
            (a.chunks_trailing(), b.chunks_trailing()),
        ]
        .iter()
        .all(|(a, b)| bones(a) == bones(b)),
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if !same {
        return Err(format!(
            "stage 2 to 3: with text in pieces ({:?}) the result is {a:?}, with neighbouring pieces joined it is {b:?}",
            build2(ns)
        ));
    }
    Ok(a.is_err())
}

pub fn built(s: &mut Src) -> R {
    let stage = 1 + s.below(3) as u8;
    let v = V { stage, bad: 0, max_depth: 4 };
    let refuse = |e: latex_ast::InternalError| format!("a sound value is refused: {e:?}");
    let (text, up) = match stage {
        1 => {
            let mut ns = values::values(s, v, 0);
            plain_delims(&mut ns);
            let t = print(&ns);
            let d = ast1::Document::new(build1(&ns)).map_err(refuse)?;
            let up = every_way1(d, &t)?;
            (t, up)
        }
        2 => {
            let mut ns = values::values(s, v, 0);
            plain_delims(&mut ns);
            let t = print(&ns);
            let d = ast2::Document::new(build2(&ns)).map_err(refuse)?;
            let up = every_way2(d.clone(), &t)?;
            every_way1(down2(d, &t)?, &t)?;
            filled(&mut ns);
            division(&ns)?;
            (t, up)
        }
        _ => {
            let mut m = values::wild3(s, v);
            plain_delims(&mut m.pre);
            plain_delims(&mut m.trail);
            if let Some(b) = &mut m.body {
                plain_delims(&mut b.content);
                b.args.iter_mut().for_each(|a| plain_delims(&mut a.content));
            }
            let t = m.print();
            let d2 = down3(doc3(&m, None, vec![]), &t)?;
            let up = every_way2(d2.clone(), &t)?;
            every_way1(down2(d2, &t)?, &t)?;
            (t, up)
        }
    };
    let nt = text.len() > 4;
    Ok(Case::new(format!("stage {stage}: {text}"), nt)
        .label(up, "converted up to stage 3")
        .label(!up, "refused on the way up"))
}
