//! C20: a fragment is read the same whatever surrounds it.

use crate::engine::{Case, R};
use crate::gen;
use crate::model::*;
use crate::refp;
use crate::src::Src;
use latex_ast::{ast1, ast2, ast3};

const PREFIX: &[&str] = &[
    "",
    "a\n\nb ",
    "\\x{y}\n.",
    "\\begin{e}\n\\end{e}.\n\n",
    "$a\nb$.",
    "\\[\n\\]",
    "{\n(x)}",
    "\\\n\\\\",
    "l\nl\nl\nl\n",
    "é漢\u{2028}\n",
];
const SUFFIX: &[&str] = &["", ".", "\n.", "\\z", "{x}", "\n\n$y$", "\\begin{e}\\end{e}"];

/// One enclosing construct: opening text, closing text, the fragment may
/// start with a bracket, how to reach the content again.
struct Wrap {
    open: String,
    close: String,
    env: bool,
    arg: Option<usize>,
    k: K,
}

fn wrap(s: &mut Src, env_ok: bool) -> Wrap {
    let k = *s.pick(&K::ALL);
    match s.below(if env_ok { 4 } else { 3 }) {
        0 => Wrap {
            open: k.open().into(),
            close: k.close().into(),
            env: false,
            arg: None,
            k,
        },
        1 => Wrap {
            open: format!("\\c{}", k.open()),
            close: k.close().into(),
            env: false,
            arg: Some(0),
            k,
        },
        2 => {
            let w = gen::ws(s, 3);
            Wrap {
                open: format!("\\cmd{{a}}{w}[\n]{w}{}", k.open()),
                close: format!("{}{{t}}", k.close()),
                env: false,
                arg: Some(2),
                k,
            }
        }
        _ => {
            let w = gen::ws(s, 2);
            let a = *s.pick(&["", "{x}", "[y\n]", " (\n)"]);
            Wrap {
                open: format!("\\begin{w}{{env}}{a}"),
                close: format!("\\end{w}{{env}}"),
                env: true,
                arg: None,
                k,
            }
        }
    }
}

fn body1(d: &ast1::Document, i: usize, w: &Wrap) -> Option<Vec<ast1::Chunk>> {
    match (d.chunks().get(i)?.variant(), w.arg) {
        (ast1::ChunkVariant::Scope(s), None) => Some(s.chunks().clone()),
        (ast1::ChunkVariant::Command(c), Some(a)) => Some(c.arguments().get(a)?.1.chunks().clone()),
        _ => None,
    }
}
fn body2(d: &ast2::Document, i: usize, w: &Wrap) -> Option<Vec<ast2::Chunk>> {
    match (d.chunks().get(i)?.variant(), w.arg) {
        (ast2::ChunkVariant::Scope(s), None) => Some(s.chunks().clone()),
        (ast2::ChunkVariant::Command(c), Some(a)) => Some(c.arguments().get(a)?.1.chunks().clone()),
        (ast2::ChunkVariant::Environment(e), None) => Some(e.clone().decompose().2),
        _ => None,
    }
}
fn body3(cs: &[ast3::Chunk], i: usize, w: &Wrap) -> Option<Vec<ast3::Chunk>> {
    match (cs.get(i)?.variant(), w.arg) {
        (ast3::ChunkVariant::Scope(s), None) => Some(s.chunks().clone()),
        (ast3::ChunkVariant::Command(c), Some(a)) => Some(c.arguments().get(a)?.1.chunks().clone()),
        (ast3::ChunkVariant::Environment(e), None) => Some(e.clone().decompose().2),
        _ => None,
    }
}

/// A well-formed fragment, alone and wrapped.
pub fn good(s: &mut Src) -> R {
    let w = wrap(s, true);
    let prefix = *s.pick(PREFIX);
    let suffix = *s.pick(SUFFIX);
    let in_body = s.chance(1, 3);
    let lead = *s.pick(&[0usize, 0, 1, 5]);
    let x = print(&gen::content(s, 1, gen::Opts::ALL, gen::Ctx::Plain, true));
    // these two mean something only at the top level
    let x = x.replace("documentclass", "documentklass");
    let alone = (
        x.parse::<ast1::Document>(),
        x.parse::<ast2::Document>(),
        x.parse::<ast3::Document>(),
    );
    let (Ok(a1), Ok(a2), Ok(a3)) = alone else {
        return Err(format!("the well-formed fragment {x:?} is rejected"));
    };
    // how many nodes the prefix amounts to, seen with a plain scope after it
    let count = |t: &str| -> Option<(usize, usize, usize)> {
        let t = format!("{}{t}{{}}", "l\n".repeat(lead));
        Some((
            t.parse::<ast1::Document>().ok()?.chunks().len() - 1,
            t.parse::<ast2::Document>().ok()?.chunks().len() - 1,
            t.parse::<ast3::Document>().ok()?.chunks_preamable().len() - 1,
        ))
    };
    let Some((p1, p2, p3)) = count(prefix) else {
        return Err(format!("the well-formed prefix {prefix:?} is rejected"));
    };
    let mut text = "l\n".repeat(lead);
    text.push_str(prefix);
    text.push_str(&w.open);
    text.push_str(&x);
    text.push_str(&w.close);
    if !suffix.starts_with('{') || w.arg.is_none() && !w.env {
        text.push_str(suffix);
    }
    let full = if in_body {
        format!("\\pre\n\\begin{{document}}.{text}\\end{{document}}\n")
    } else {
        text.clone()
    };
    let e = |st: u8, m: String| format!("stage {st}: the fragment {x:?} inside {full:?} {m}");
    if !in_body {
        let d1 = full
            .parse::<ast1::Document>()
            .map_err(|r| e(1, format!("is rejected: {r:?}")))?;
        if !w.env {
            match body1(&d1, p1, &w) {
                Some(c) if &c == a1.chunks() => {}
                c => return Err(e(1, format!("is read as {c:?}, alone as {:?}", a1.chunks()))),
            }
        }
        let d2 = full
            .parse::<ast2::Document>()
            .map_err(|r| e(2, format!("is rejected: {r:?}")))?;
        match body2(&d2, p2, &w) {
            Some(c) if &c == a2.chunks() => {}
            c => return Err(e(2, format!("is read as {c:?}, alone as {:?}", a2.chunks()))),
        }
        let d3 = full
            .parse::<ast3::Document>()
            .map_err(|r| e(3, format!("is rejected: {r:?}")))?;
        match body3(d3.chunks_preamable(), p3, &w) {
            Some(c) if &c == a3.chunks_preamable() => {}
            c => return Err(e(3, format!("is read as {c:?}, alone as {:?}", a3.chunks_preamable()))),
        }
    } else {
        // the body of a document reads as the same text on its own
        let inner = format!(".{text}");
        let d3 = full
            .parse::<ast3::Document>()
            .map_err(|r| e(3, format!("is rejected: {r:?}")))?;
        let i3 = inner
            .parse::<ast3::Document>()
            .map_err(|r| e(3, format!("is rejected without the document environment: {r:?}")))?;
        if d3.chunks_body() != i3.chunks_preamable() {
            return Err(e(
                3,
                format!(
                    "makes the body {:?}, the same text alone is {:?}",
                    d3.chunks_body(),
                    i3.chunks_preamable()
                ),
            ));
        }
    }
    let nt = x.len() > 3;
    Ok(Case::new(full, nt)
        .label(w.env, "in an environment")
        .label(w.arg.is_some(), "in an argument")
        .label(in_body, "in the document body"))
}

/// A malformed fragment in a bracket its fault does not touch.
pub fn bad(s: &mut Src) -> R {
    let w = wrap(s, false);
    let prefix = *s.pick(PREFIX);
    let suffix = *s.pick(SUFFIX);
    let lead = *s.pick(&[0usize, 0, 1, 5]);
    let raw = match s.below(4) {
        3 => gen::swarm(s),
        0 => gen::mutated(s),
        1 => gen::sloppy(s),
        _ => gen::soup(s),
    };
    let raw = refp::strip_comments(&raw).replace("documentclass", "documentklass");
    let raw = raw.replace("document", "dokument");
    // take out every bracket of the enclosing kind that is not escaped
    let mut x = String::new();
    let mut esc = false;
    for c in raw.chars() {
        let drop = !esc && (c == w.k.open() || c == w.k.close());
        if !drop {
            x.push(c);
        } else if !x.ends_with('.') {
            x.push('.');
        }
        esc = c == '\\' && !esc;
    }
    if esc {
        // an odd backslash at the end would escape the closing bracket
        x.push('.');
    }
    let before = format!("{}{prefix}{}", "l\n".repeat(lead), w.open);
    let full = format!("{before}{x}{}{suffix}", w.close);
    let shift = newlines(&before);
    let a = (
        x.parse::<ast1::Document>().map(|_| ()),
        x.parse::<ast2::Document>().map(|_| ()),
        x.parse::<ast3::Document>().map(|_| ()),
    );
    let b = (
        full.parse::<ast1::Document>().map(|_| ()),
        full.parse::<ast2::Document>().map(|_| ()),
        full.parse::<ast3::Document>().map(|_| ()),
    );
    let rejected = a.2.is_err();
    for (st, a, b) in [(1, a.0, b.0), (2, a.1, b.1), (3, a.2, b.2)] {
        let a = a.map_err(|mut e| {
            e.line += shift;
            e
        });
        if a != b {
            return Err(format!(
                "stage {st}: the fragment {x:?} gives {a:?} (line shifted), inside {full:?} it gives {b:?}"
            ));
        }
    }
    Ok(Case::new(full, rejected)
        .label(rejected, "malformed fragment")
        .label(shift > 0, "on a later line"))
}
