//! Relations between several parses: what is complete does not influence what
//! follows (C27), and nothing but the input influences a result (C28).

use crate::engine::{Case, R, STACK};
use crate::gen;
use crate::model::*;
use crate::src::Src;
use crate::values::{self, V};
use latex_ast::{ast1, ast2, ast3, Error};

fn g_doc(s: &mut Src) -> String {
    gen::doc(s, gen::Opts::ALL).print()
}

pub fn any_text(s: &mut Src) -> String {
    match s.below(8) {
        0 | 1 => g_doc(s),
        2 => gen::sloppy(s),
        3 => gen::soup(s),
        4 => gen::swarm(s),
        5 => gen::mutated(s),
        6 => gen::unicode(s),
        _ => {
            let d = g_doc(s);
            gen::with_comments(s, &d).0
        }
    }
}

macro_rules! moved {
    ($name:ident, $st:ident) => {
        /// `left` ends with an empty scope, `right` starts with that scope.
        fn $name(left: &[$st::Chunk], right: &[$st::Chunk]) -> Option<Vec<$st::Chunk>> {
            let by = left.last()?.line_no() - 1;
            let mut v = left.to_vec();
            for c in right.get(1..)? {
                v.push($st::Chunk::new_unchecked(c.line_no() + by, c.variant().clone()));
            }
            Some(v)
        }
    };
}
moved!(moved1, ast1);
moved!(moved2, ast2);
moved!(moved3, ast3);

fn joined<T: PartialEq + std::fmt::Debug>(
    stage: u8,
    whole: &str,
    got: Result<T, Error>,
    want: Result<Option<T>, Error>,
    shift: u32,
) -> Result<(), String> {
    let want = match want {
        Ok(Some(t)) => Ok(t),
        Ok(None) => return Err(format!("stage {stage}: in {whole:?} the wall between the halves is lost")),
        Err(mut e) => {
            e.line += shift;
            Err(e)
        }
    };
    if got != want {
        return Err(format!("stage {stage}: {whole:?} gives {got:?}, its two halves together {want:?}"));
    }
    Ok(())
}

/// C27
pub fn halves(s: &mut Src) -> R {
    let second: Vec<u16> = (0..80).map(|_| s.raw()).collect();
    let mut b = any_text(&mut Src::new(&second));
    let mut a = if s.chance(1, 2) { g_doc(s) } else { any_text(s) };
    let late = s.chance(1, 2);
    if late {
        b = b.replace("document", "dokument");
    } else {
        a = a.replace("document", "dokument");
    }
    for _ in 0..*s.pick(&[0, 0, 0, 1, 3]) {
        let more = any_text(s).replace("document", "dokument");
        // only what is complete may pile up
        if format!("{more}\n.{{}}").parse::<ast3::Document>().is_ok() {
            a = format!("{more}\n.{{}}{a}");
        }
    }
    let left = format!("{a}\n.{{}}");
    let right = format!("{{}}.{b}");
    let whole = format!("{a}\n.{{}}.{b}");
    let shift = newlines(&a) + 1;
    let mut looked = 0;
    if let Ok(l) = left.parse::<ast1::Document>() {
        looked += 1;
        let r = right.parse::<ast1::Document>();
        let w = whole.parse::<ast1::Document>().map(|d| d.chunks_owned());
        joined(1, &whole, w, r.map(|r| moved1(l.chunks(), r.chunks())), shift)?;
    }
    if let Ok(l) = left.parse::<ast2::Document>() {
        looked += 1;
        let r = right.parse::<ast2::Document>();
        let w = whole.parse::<ast2::Document>().map(|d| d.chunks_owned());
        joined(2, &whole, w, r.map(|r| moved2(l.chunks(), r.chunks())), shift)?;
    }
    if let Ok(l) = left.parse::<ast3::Document>() {
        looked += 1;
        let r = right.parse::<ast3::Document>();
        let w = whole.parse::<ast3::Document>();
        let want = match r {
            Ok(r) => {
                let (lc, lo, lp, lb, la, lx, ly, lt) = l.decompose();
                let (rc, ro, rp, rb, ra, rx, ry, rt) = r.decompose();
                if !late {
                    Ok(moved3(&lp, &rp).map(|p| (rc, ro, p, rb, ra, rx, ry, rt)))
                } else if lt.is_empty() {
                    // no document environment: the wall is in the preamble
                    Ok(moved3(&lp, &rp).map(|p| (lc, lo, p, lb, la, lx, ly, lt)))
                } else {
                    Ok(moved3(&lt, &rp).map(|t| (lc, lo, lp, lb, la, lx, ly, t)))
                }
            }
            Err(e) => Err(e),
        };
        joined(3, &whole, w.map(|d| d.decompose()), want, shift)?;
    }
    Ok(Case::new(&whole, looked > 0 && busy(&b))
        .label(looked == 3, "first half complete at every stage")
        .label(looked == 0, "first half incomplete")
        .label(late, "document environment in the first half, if any"))
}

fn busy(s: &str) -> bool {
    s.chars().any(|c| matches!(c, '\\' | '{' | '(' | '[' | '$')) || s.contains("\n\n")
}

type Outcome = (
    Result<ast1::Document, Error>,
    Result<ast2::Document, Error>,
    Result<ast3::Document, Error>,
);

fn outcome(t: &str) -> Outcome {
    (t.parse(), t.parse(), t.parse())
}

fn agree(t: &str, first: &Outcome, again: &Outcome, when: &str) -> Result<(), String> {
    if first != again {
        return Err(format!("{t:?} gives {first:?} the first time, {again:?} {when}"));
    }
    let say = |o: &Outcome| {
        (
            o.0.as_ref().map(|d| d.to_string()).map_err(|e| e.to_string()),
            o.1.as_ref().map(|d| d.to_string()).map_err(|e| e.to_string()),
            o.2.as_ref().map(|d| d.to_string()).map_err(|e| e.to_string()),
        )
    };
    if say(first) != say(again) {
        return Err(format!("{t:?} prints {:?} the first time, {:?} {when}", say(first), say(again)));
    }
    Ok(())
}

/// C28
pub fn repeated(s: &mut Src) -> R {
    let n = 1 + s.below(4);
    let mut texts: Vec<String> = (0..n).map(|_| any_text(s)).collect();
    // near copies: the same length, the same beginning
    if s.chance(1, 2) {
        let t: String = texts[0].chars().map(|c| if c == 'a' { 'b' } else { c }).collect();
        texts.push(t);
    }
    let first: Vec<Outcome> = texts.iter().map(|t| outcome(t)).collect();
    for (t, o) in texts.iter().zip(&first).rev() {
        agree(t, o, &outcome(t), "after other texts")?;
    }
    // values built, printed, converted and pushed in between
    let ns = values::values(s, V { stage: 2, bad: 0, max_depth: 2 }, 0);
    let mut d = doc2(&ns);
    let _ = (d.to_string(), ast3::Document::try_from(d.clone()).is_ok(), ast1::Document::from(d.clone()));
    let _ = d.push(ast2::ChunkVariant::Text("more".into()));
    // a changed copy leaves its original alone
    for (t, o) in texts.iter().zip(&first) {
        if let Ok(d) = &o.2 {
            let before = d.to_string();
            let mut c = d.clone();
            c.push_preamable_unchecked(ast3::ChunkVariant::Text("x".into()));
            c.push_trailing_unchecked(ast3::ChunkVariant::ParagraphBreak("\n\n".into()));
            if d.to_string() != before {
                return Err(format!("pushing to a clone of {t:?} changed the original"));
            }
        }
        agree(t, o, &outcome(t), "after other work")?;
    }
    let threads = s.chance(1, 10);
    if threads {
        let bad = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3)
                .map(|k| {
                    let (texts, first) = (&texts, &first);
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(sc, move || {
                            for i in 0..texts.len() * 2 {
                                let i = (i + k) % texts.len();
                                agree(&texts[i], &first[i], &outcome(&texts[i]), "in another thread")?;
                            }
                            Ok::<(), String>(())
                        })
                        .expect("a thread")
                })
                .collect();
            hs.into_iter().find_map(|h| match h.join() {
                Ok(r) => r.err(),
                Err(_) => Some(format!("one of {texts:?} panics in another thread")),
            })
        });
        if let Some(b) = bad {
            return Err(b);
        }
    }
    let nt = texts.iter().any(|t| busy(t));
    Ok(Case::new(texts.join("\u{1f}"), nt)
        .label(threads, "in several threads")
        .label(first.iter().any(|o| o.2.is_ok()), "with an accepted text")
        .label(first.iter().any(|o| o.2.is_err()), "with a rejected text"))
}
