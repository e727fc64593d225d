//! Converting one part of a document (C25): a scope, command, environment or
//! stretch of nodes converts on its own as it does inside a document.

use crate::engine::{Case, R};
use crate::gen;
use crate::model::*;
use crate::refp;
use crate::src::Src;
use crate::values::{self, V};
use latex_ast::{ast1, ast2, ast3, Error};

fn same<T: PartialEq + std::fmt::Debug>(
    what: &str,
    shown: &impl std::fmt::Display,
    part: Result<T, Error>,
    whole: Result<T, Error>,
) -> Result<(), String> {
    if part == whole {
        return Ok(());
    }
    Err(format!(
        "{what} {:?} converts on its own to {part:?}, inside a document to {whole:?}",
        shown.to_string()
    ))
}

fn later(line: u32) -> impl Fn(Error) -> Error {
    move |mut e| {
        e.line += line - 1;
        e
    }
}

fn only<T>(mut v: Vec<T>) -> Option<T> {
    if v.len() == 1 {
        v.pop()
    } else {
        None
    }
}

/// Stage 1 to 2. Says how many parts were looked at.
pub fn up1(cs: &[ast1::Chunk], line: u32) -> Result<usize, String> {
    let mut n = 0;
    for c in cs {
        let v = c.variant().clone();
        let whole = || {
            let d = ast1::Document::new_unchecked(vec![ast1::Chunk::new_unchecked(line, v.clone())]);
            ast2::Document::try_from(d).map(|d| only(d.chunks_owned()).map(|c| c.decompose()))
        };
        match &v {
            ast1::ChunkVariant::Scope(s) => same(
                "the stage-1 scope",
                c,
                ast2::Scope::try_from(s.clone())
                    .map(|s| Some((line, ast2::ChunkVariant::Scope(s))))
                    .map_err(later(line)),
                whole(),
            )?,
            ast1::ChunkVariant::Command(k) if k.label() != "begin" && k.label() != "end" => same(
                "the stage-1 command",
                c,
                ast2::Command::try_from(k.clone())
                    .map(|k| Some((line, ast2::ChunkVariant::Command(k))))
                    .map_err(later(line)),
                whole(),
            )?,
            _ => continue,
        }
        n += 1;
    }
    Ok(n)
}

/// Stage 2 to 3.
pub fn up2(cs: &[ast2::Chunk], line: u32) -> Result<usize, String> {
    let mut n = 0;
    let mut stretch = vec![];
    for c in cs {
        let v = c.variant().clone();
        let whole = || {
            let d = ast2::Document::new_unchecked(vec![ast2::Chunk::new_unchecked(line, v.clone())]);
            ast3::Document::try_from(d)
        };
        let pre = || whole().map(|d| only(d.chunks_preamable().clone()).map(|c| c.decompose()));
        let special = match &v {
            ast2::ChunkVariant::Environment(e) => e.label() == "document",
            ast2::ChunkVariant::Command(k) => k.label() == "documentclass",
            _ => false,
        };
        if !special {
            stretch.push(c.clone());
        }
        match &v {
            ast2::ChunkVariant::Scope(s) => same(
                "the stage-2 scope",
                c,
                ast3::Scope::try_from(s.clone())
                    .map(|s| Some((line, ast3::ChunkVariant::Scope(s))))
                    .map_err(later(line)),
                pre(),
            )?,
            ast2::ChunkVariant::Command(k) if !special && !matches!(k.label().as_str(), "(" | ")" | "[" | "]") => same(
                "the stage-2 command",
                c,
                ast3::Command::try_from(k.clone())
                    .map(|k| Some((line, ast3::ChunkVariant::Command(k))))
                    .map_err(later(line)),
                pre(),
            )?,
            ast2::ChunkVariant::Environment(e) if special => same(
                "the document environment",
                c,
                ast3::Environment::try_from(e.clone())
                    .map(|e| {
                        let (_, a, c, b, e) = e.decompose();
                        (a, c, b, e)
                    })
                    .map_err(later(line)),
                whole().map(|d| {
                    let (_, _, _, c, a, b, e, _) = d.decompose();
                    (a, c, b, e)
                }),
            )?,
            ast2::ChunkVariant::Environment(e) => same(
                "the stage-2 environment",
                c,
                ast3::Environment::try_from(e.clone())
                    .map(|e| Some((line, ast3::ChunkVariant::Environment(e))))
                    .map_err(later(line)),
                pre(),
            )?,
            _ => continue,
        }
        n += 1;
    }
    // a stretch of nodes, on whatever lines they were
    let shown: String = stretch.iter().map(|c| c.to_string()).collect();
    let part = ast3::MathsBlock::from_chunks(stretch.clone());
    let whole = ast3::Document::try_from(ast2::Document::new_unchecked(stretch));
    if let Ok(cs) = &part {
        if &ast3::Paragraph::from_chunks(cs.clone()) != cs {
            return Err(format!(
                "the nodes of {shown:?}, cut at paragraph breaks, are cut differently the second time: {cs:?}"
            ));
        }
    }
    same("the stretch", &shown, part, whole.map(|d| d.chunks_preamable().clone()))?;
    Ok(n)
}

fn equal<T: PartialEq + std::fmt::Debug>(what: &str, shown: &impl std::fmt::Display, part: &T, whole: &T) -> Result<(), String> {
    if part == whole {
        return Ok(());
    }
    Err(format!(
        "{what} {:?} converts back on its own to {part:?}, inside a document to {whole:?}",
        shown.to_string()
    ))
}

/// Stage 2 back to 1.
pub fn down2(cs: &[ast2::Chunk], line: u32) -> Result<usize, String> {
    let mut n = 0;
    for c in cs {
        let node = c;
        let c = ast2::Chunk::new_unchecked(line, c.variant().clone());
        let whole = ast1::Document::from(ast2::Document::new_unchecked(vec![c.clone()]));
        let one = |v| vec![ast1::Chunk::new_unchecked(line, v)];
        let parts = match c.variant().clone() {
            ast2::ChunkVariant::Scope(s) => vec![
                one(ast1::ChunkVariant::Scope(s.clone().into())),
                one(ast1::ChunkVariant::Scope(s.to_ast1_scope())),
            ],
            ast2::ChunkVariant::Command(k) => vec![one(ast1::ChunkVariant::Command(k.into()))],
            _ => {
                let mut d = ast1::Document::default();
                for c in ast1::IntoChunks::into_chunks(c) {
                    d.push_chunk_unchecked(c);
                }
                vec![d.chunks_owned()]
            }
        };
        for part in parts {
            equal("the stage-2 node", node, &part, whole.chunks())?;
        }
        n += 1;
    }
    Ok(n)
}

/// Stage 3 back to 2.
pub fn down3(cs: &[ast3::Chunk], line: u32) -> Result<usize, String> {
    let mut n = 0;
    for c in cs {
        let node = c;
        let c = ast3::Chunk::new_unchecked(line, c.variant().clone());
        let d = ast3::Document::new_unchecked(
            vec![c.clone()],
            None,
            vec![],
            vec![],
            vec![],
            String::new(),
            String::new(),
            vec![],
        );
        let mut whole = ast2::Document::from(d).chunks_owned();
        // the document environment, which is always there
        whole.pop();
        let one = |v| vec![ast2::Chunk::new_unchecked(line, v)];
        let part = match c.variant().clone() {
            ast3::ChunkVariant::Scope(s) => one(ast2::ChunkVariant::Scope(s.into())),
            ast3::ChunkVariant::Command(k) => one(ast2::ChunkVariant::Command(k.into())),
            ast3::ChunkVariant::Environment(e) => one(ast2::ChunkVariant::Environment(e.into())),
            ast3::ChunkVariant::MathsBlock(b) => {
                let mut d = ast2::Document::default();
                for mut c in ast2::IntoChunks::into_chunks(b) {
                    *c.line_no_mut() += line - 1;
                    d.push_chunk_unchecked(c);
                }
                d.chunks_owned()
            }
            _ => {
                let mut d = ast2::Document::default();
                for c in ast2::IntoChunks::into_chunks(c) {
                    d.push_chunk_unchecked(c);
                }
                d.chunks_owned()
            }
        };
        equal("the stage-3 node", node, &part, &whole)?;
        n += 1;
    }
    Ok(n)
}

pub fn text(t: &str) -> R {
    let mut n = 0;
    let line = 1 + t.len() as u32 % 7;
    if let Ok(d) = t.parse::<ast1::Document>() {
        n += up1(d.chunks(), line)?;
    }
    if let Ok(d) = t.parse::<ast2::Document>() {
        n += up2(d.chunks(), line)?;
        n += down2(d.chunks(), line)?;
    }
    if let Ok(d) = t.parse::<ast3::Document>() {
        for cs in [d.chunks_preamable(), d.chunks_body(), d.chunks_trailing()] {
            n += down3(cs, line)?;
        }
    }
    Ok(Case::new(t, n > 0).label(n > 1, "several parts"))
}

/// Values built in code, sound or not, through every piecewise conversion.
pub fn built(s: &mut Src) -> R {
    let stage = 1 + s.below(3) as u8;
    let v = V { stage, bad: *s.pick(&[0, 0, 8]), max_depth: 3 };
    let line = 1 + s.below(20) as u32;
    let ns = values::values(s, v, 0);
    let n = match stage {
        1 => up1(&build1(&ns), line)?,
        2 => up2(&build2(&ns), line)?,
        _ => paragraphs(&ns, line, s)?,
    };
    if v.bad == 0 {
        match stage {
            2 => down2(&build2(&ns), line)?,
            3 => down3(&build3(&ns), line)?,
            _ => 0,
        };
    }
    let t = print(&ns);
    Ok(Case::new(format!("stage {stage}: {t}"), n > 0)
        .label(stage == 1, "stage 1")
        .label(stage == 2, "stage 2")
        .label(stage == 3, "paragraphs"))
}

/// The paragraph pass alone, on nodes with any line numbers and any text.
/// The nodes follow one another, or each is on a line of its own.
fn paragraphs(ns: &[N], line: u32, s: &mut Src) -> Result<usize, String> {
    let anywhere = s.chance(1, 3);
    let mut given = vec![];
    let mut want = vec![];
    let mut l = line;
    for n in ns {
        if anywhere && s.chance(1, 2) {
            l = match s.below(4) {
                0 => s.below(4) as u32,
                1 => 4_000_000_000,
                _ => s.below(400) as u32,
            };
        }
        let v = variant3(n);
        given.push(ast3::Chunk::new_unchecked(l, v.clone()));
        if let N::Text(t) = n {
            let mut at = l;
            for p in refp::paragraphs(t) {
                want.push(ast3::Chunk::new_unchecked(at, variant3(&p)));
                at += newlines(&print(&[p]));
            }
        } else {
            want.push(ast3::Chunk::new_unchecked(l, v));
        }
        l += newlines(&print(std::slice::from_ref(n)));
    }
    let shown = print(ns);
    let got = ast3::Paragraph::from_chunks(given);
    if got != want {
        return Err(format!(
            "the nodes {shown:?} from line {line} are cut into {got:?}, expected {want:?}"
        ));
    }
    Ok(ns.len())
}

/// Runs of whitespace and text in a few nodes, cut at paragraph breaks.
pub fn runs(s: &mut Src) -> R {
    let line = 1 + s.below(300) as u32;
    let k = 1 + s.below(3);
    let ns: Vec<N> = (0..k)
        .map(|_| {
            if s.chance(1, 6) {
                return N::Scope(*s.pick(&K::ALL), vec![N::Text("x\n\ny".into())]);
            }
            let m = 1 + s.below(4);
            N::Text(
                (0..m)
                    .map(|_| if s.chance(1, 2) { gen::ws(s, 4) } else { gen::run(s) })
                    .collect(),
            )
        })
        .collect();
    let t = print(&ns);
    paragraphs(&ns, line, s)?;
    Ok(Case::new(format!("line {line}: {t}"), newlines(&t) > 1))
}

/// The bracket kinds: their characters and their counterparts at other stages.
pub fn kinds() -> Result<(), String> {
    for k in K::ALL {
        let (o, c) = (k.open(), k.close());
        let chars = [
            (k.s1().open(), k.s1().close()),
            (k.s2().open(), k.s2().close()),
            (k.s3().open(), k.s3().close()),
        ];
        if chars.iter().any(|p| *p != (o, c)) {
            return Err(format!("the {k:?} bracket is written {chars:?}"));
        }
        if ast1::ScopeVariant::from(k.s2()) != k.s1()
            || ast2::ScopeVariant::from(k.s1()) != k.s2()
            || ast2::ScopeVariant::from(k.s3()) != k.s2()
            || ast3::ScopeVariant::from(k.s2()) != k.s3()
        {
            return Err(format!("the {k:?} bracket becomes another kind at another stage"));
        }
        if ast1::ScopeVariant::from_opening(o) != k.s1() || ast1::ScopeVariant::from_closing(c) != k.s1() {
            return Err(format!("the characters of the {k:?} bracket are taken for another kind"));
        }
    }
    for c in '\0'..=char::MAX {
        if ast1::ScopeVariant::is_opening(c) != K::of_open(c).is_some()
            || ast1::ScopeVariant::is_closing(c) != K::of_close(c).is_some()
        {
            return Err(format!("{c:?} is taken for a bracket, or not taken for one"));
        }
    }
    Ok(())
}
