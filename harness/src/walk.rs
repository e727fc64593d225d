//! Visiting every node of the crate's values: line counts, validation, taking
//! apart and rebuilding through the checked constructors.

use crate::model::newlines;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, InternalError};
use std::fmt::Display;

fn ln<T: Lines + Display>(v: &T, what: &str) -> Result<(), String> {
    let p = v.to_string();
    let (got, want) = (v.lines(), newlines(&p) + 1);
    if got != want {
        return Err(format!("{what} {p:?} reports {got} lines, its text has {want}"));
    }
    Ok(())
}

// ------------------------------------------------------------- line counts

pub fn lines1(cs: &[ast1::Chunk]) -> Result<(), String> {
    for c in cs {
        ln(c, "stage-1 node")?;
        ln(c.variant(), "stage-1 node")?;
        match c.variant() {
            ast1::ChunkVariant::Text(_) => {}
            ast1::ChunkVariant::Scope(s) => {
                ln(s, "stage-1 scope")?;
                lines1(s.chunks())?
            }
            ast1::ChunkVariant::Command(k) => {
                ln(k, "stage-1 command")?;
                for (_, s) in k.arguments() {
                    ln(s, "stage-1 argument")?;
                    lines1(s.chunks())?
                }
            }
        }
    }
    Ok(())
}

fn lines2_args(a: &[(String, ast2::Scope)]) -> Result<(), String> {
    for (_, s) in a {
        ln(s, "stage-2 argument")?;
        lines2(s.chunks())?
    }
    Ok(())
}

pub fn lines2(cs: &[ast2::Chunk]) -> Result<(), String> {
    for c in cs {
        ln(c, "stage-2 node")?;
        ln(c.variant(), "stage-2 node")?;
        match c.variant() {
            ast2::ChunkVariant::Text(_) => {}
            ast2::ChunkVariant::Scope(s) => {
                ln(s, "stage-2 scope")?;
                lines2(s.chunks())?
            }
            ast2::ChunkVariant::Command(k) => {
                ln(k, "stage-2 command")?;
                lines2_args(k.arguments())?
            }
            ast2::ChunkVariant::Environment(e) => {
                ln(e, "stage-2 environment")?;
                let (_, a, c, _, _) = e.clone().decompose();
                lines2_args(&a)?;
                lines2(&c)?
            }
        }
    }
    Ok(())
}

pub fn lines3_args(a: &[(String, ast3::Scope)]) -> Result<(), String> {
    for (_, s) in a {
        ln(s, "stage-3 argument")?;
        lines3(s.chunks())?
    }
    Ok(())
}

pub fn lines3(cs: &[ast3::Chunk]) -> Result<(), String> {
    for c in cs {
        ln(c, "stage-3 node")?;
        ln(c.variant(), "stage-3 node")?;
        match c.variant() {
            ast3::ChunkVariant::Text(_) | ast3::ChunkVariant::ParagraphBreak(_) => {}
            ast3::ChunkVariant::MathsBlock(m) => ln(m, "maths block")?,
            ast3::ChunkVariant::Scope(s) => {
                ln(s, "stage-3 scope")?;
                lines3(s.chunks())?
            }
            ast3::ChunkVariant::Command(k) => {
                ln(k, "stage-3 command")?;
                lines3_args(k.arguments())?
            }
            ast3::ChunkVariant::Environment(e) => {
                ln(e, "stage-3 environment")?;
                let (_, a, c, _, _) = e.clone().decompose();
                lines3_args(&a)?;
                lines3(&c)?
            }
        }
    }
    Ok(())
}

pub fn lines_doc1(d: &ast1::Document) -> Result<(), String> {
    ln(d, "stage-1 document")?;
    lines1(d.chunks())
}
pub fn lines_doc2(d: &ast2::Document) -> Result<(), String> {
    ln(d, "stage-2 document")?;
    lines2(d.chunks())
}
pub fn lines_doc3(d: &ast3::Document) -> Result<(), String> {
    ln(d, "stage-3 document")?;
    lines3(d.chunks_preamable())?;
    lines3(d.chunks_body())?;
    lines3(d.chunks_trailing())?;
    let (_, _, _, _, a, _, _, _) = d.clone().decompose();
    lines3_args(&a)
}

// --------------------------------------------- validate, take apart, rebuild

fn ok<T>(r: Result<T, InternalError>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what} taken from a parsed document is refused: {e:?}"))
}

fn val<T: Validate + Display>(v: &T, what: &str) -> Result<(), String> {
    v.validate()
        .map_err(|e| format!("{what} {:?} of a parsed document does not validate: {e:?}", v.to_string()))
}

pub fn rebuild1(cs: Vec<ast1::Chunk>) -> Result<Vec<ast1::Chunk>, String> {
    cs.into_iter()
        .map(|c| {
            val(&c, "node")?;
            let line = c.line_no();
            let shown = c.variant().clone();
            if c.clone().variant_owned() != shown {
                return Err("owned and borrowed variant differ".into());
            }
            let (l2, v) = c.decompose();
            if l2 != line || v != shown {
                return Err("a node taken apart differs from what its accessors say".into());
            }
            val(&v, "node")?;
            let v = match v {
                ast1::ChunkVariant::Text(s) => ast1::ChunkVariant::Text(s),
                ast1::ChunkVariant::Scope(s) => ast1::ChunkVariant::Scope(rescope1(s)?),
                ast1::ChunkVariant::Command(k) => {
                    val(&k, "command")?;
                    let (l, a) = (k.label().clone(), k.arguments().clone());
                    if k.clone().label_owned() != l || k.clone().arguments_owned() != a {
                        return Err("owned and borrowed parts of a command differ".into());
                    }
                    if k.decompose() != (l.clone(), a.clone()) {
                        return Err("a command taken apart differs from its accessors".into());
                    }
                    let a = a
                        .into_iter()
                        .map(|(p, s)| Ok((p, rescope1(s)?)))
                        .collect::<Result<Vec<_>, String>>()?;
                    ast1::ChunkVariant::Command(ok(ast1::Command::new(l, a), "command")?)
                }
            };
            ok(ast1::Chunk::new(line, v), "chunk")
        })
        .collect()
}

fn rescope1(s: ast1::Scope) -> Result<ast1::Scope, String> {
    val(&s, "scope")?;
    let (cs, k) = (s.chunks().clone(), s.variant());
    if s.clone().chunks_owned() != cs || s.decompose() != (cs.clone(), k) {
        return Err("a scope taken apart differs from its accessors".into());
    }
    ok(ast1::Scope::new(rebuild1(cs)?, k), "scope")
}

fn reargs2(a: Vec<(String, ast2::Scope)>) -> Result<Vec<(String, ast2::Scope)>, String> {
    a.into_iter().map(|(p, s)| Ok((p, rescope2(s)?))).collect()
}

pub fn rebuild2(cs: Vec<ast2::Chunk>) -> Result<Vec<ast2::Chunk>, String> {
    cs.into_iter()
        .map(|mut c| {
            val(&c, "node")?;
            let line = c.line_no();
            let shown = c.variant().clone();
            if *c.line_no_mut() != line || *c.variant_mut() != shown || c.clone().variant_owned() != shown {
                return Err("accessors of a node disagree".into());
            }
            let (l2, v) = c.decompose();
            if l2 != line || v != shown {
                return Err("a node taken apart differs from what its accessors say".into());
            }
            val(&v, "node")?;
            let v = match v {
                ast2::ChunkVariant::Text(s) => ast2::ChunkVariant::Text(s),
                ast2::ChunkVariant::Scope(s) => ast2::ChunkVariant::Scope(rescope2(s)?),
                ast2::ChunkVariant::Command(k) => {
                    val(&k, "command")?;
                    let (l, a) = (k.label().clone(), k.arguments().clone());
                    if k.clone().label_owned() != l || k.clone().arguments_owned() != a {
                        return Err("owned and borrowed parts of a command differ".into());
                    }
                    if k.decompose() != (l.clone(), a.clone()) {
                        return Err("a command taken apart differs from its accessors".into());
                    }
                    ast2::ChunkVariant::Command(ok(ast2::Command::new(l, reargs2(a)?), "command")?)
                }
                ast2::ChunkVariant::Environment(e) => {
                    val(&e, "environment")?;
                    let label = e.label().clone();
                    let (l, a, c, pb, pe) = e.decompose();
                    if l != label {
                        return Err("an environment taken apart has another name".into());
                    }
                    ast2::ChunkVariant::Environment(ok(
                        ast2::Environment::new(l, reargs2(a)?, rebuild2(c)?, pb, pe),
                        "environment",
                    )?)
                }
            };
            ok(ast2::Chunk::new(line, v), "chunk")
        })
        .collect()
}

fn rescope2(s: ast2::Scope) -> Result<ast2::Scope, String> {
    val(&s, "scope")?;
    let (cs, k) = (s.chunks().clone(), s.variant());
    if s.clone().chunks_owned() != cs || s.decompose() != (cs.clone(), k) {
        return Err("a scope taken apart differs from its accessors".into());
    }
    ok(ast2::Scope::new(rebuild2(cs)?, k), "scope")
}

pub fn reargs3(a: Vec<(String, ast3::Scope)>) -> Result<Vec<(String, ast3::Scope)>, String> {
    a.into_iter().map(|(p, s)| Ok((p, rescope3(s)?))).collect()
}

pub fn rebuild3(cs: Vec<ast3::Chunk>) -> Result<Vec<ast3::Chunk>, String> {
    cs.into_iter()
        .map(|c| {
            val(&c, "node")?;
            let line = c.line_no();
            let shown = c.variant().clone();
            if c.clone().variant_owned() != shown {
                return Err("owned and borrowed variant differ".into());
            }
            let (l2, v) = c.decompose();
            if l2 != line || v != shown {
                return Err("a node taken apart differs from what its accessors say".into());
            }
            val(&v, "node")?;
            let v = match v {
                ast3::ChunkVariant::Scope(s) => ast3::ChunkVariant::Scope(rescope3(s)?),
                ast3::ChunkVariant::Command(k) => {
                    val(&k, "command")?;
                    let (l, a) = (k.label().clone(), k.arguments().clone());
                    if k.clone().label_owned() != l || k.clone().arguments_owned() != a {
                        return Err("owned and borrowed parts of a command differ".into());
                    }
                    if k.decompose() != (l.clone(), a.clone()) {
                        return Err("a command taken apart differs from its accessors".into());
                    }
                    ast3::ChunkVariant::Command(ok(ast3::Command::new(l, reargs3(a)?), "command")?)
                }
                ast3::ChunkVariant::Environment(e) => {
                    val(&e, "environment")?;
                    let label = e.label().clone();
                    let (l, a, c, pb, pe) = e.decompose();
                    if l != label {
                        return Err("an environment taken apart has another name".into());
                    }
                    ast3::ChunkVariant::Environment(ok(
                        ast3::Environment::new(l, reargs3(a)?, rebuild3(c)?, pb, pe),
                        "environment",
                    )?)
                }
                ast3::ChunkVariant::MathsBlock(m) => {
                    val(&m, "maths block")?;
                    ast3::ChunkVariant::MathsBlock(m)
                }
                v => v,
            };
            ok(ast3::Chunk::new(line, v), "chunk")
        })
        .collect()
}

fn rescope3(s: ast3::Scope) -> Result<ast3::Scope, String> {
    val(&s, "scope")?;
    let (cs, k) = (s.chunks().clone(), s.variant());
    if s.clone().chunks_owned() != cs || s.decompose() != (cs.clone(), k) {
        return Err("a scope taken apart differs from its accessors".into());
    }
    ok(ast3::Scope::new(rebuild3(cs)?, k), "scope")
}
