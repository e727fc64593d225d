//! C26: a value gives back the parts it was made of, however it is asked, and
//! equality sees every part.

use crate::engine::{Case, R};
use crate::model::*;
use crate::src::Src;
use crate::values::{self, V};
use latex_ast::traits::Lines;
use latex_ast::{ast1, ast2, ast3};

/// A node with its line number, and the parts it is made of.
#[derive(Clone, PartialEq, Debug)]
pub struct T {
    pub line: u32,
    pub v: P,
}
pub type A = (String, K, Vec<T>);
#[derive(Clone, PartialEq, Debug)]
pub enum P {
    Text(String),
    Break(String),
    Cmd(String, Vec<A>),
    Scope(K, Vec<T>),
    Env(String, Vec<A>, Vec<T>, String, String),
    Maths(bool, bool, Vec<T>),
}

fn number(s: &mut Src, ns: &[N], wild: bool) -> Vec<T> {
    ns.iter()
        .zip(lines_of(ns))
        .map(|(n, l)| {
            let line = if wild && s.chance(1, 4) {
                *s.pick(&[0, 1, 2, 7, 255, 256, 65_536, u32::MAX])
            } else {
                l
            };
            let v = match n {
                N::Text(t) => P::Text(t.clone()),
                N::Break(t) => P::Break(t.clone()),
                N::Cmd { label, args } => P::Cmd(label.clone(), number_args(s, args, wild)),
                N::Scope(k, c) => P::Scope(*k, number(s, c, wild)),
                N::Env { label, pb, args, content, pe } => P::Env(
                    label.clone(),
                    number_args(s, args, wild),
                    number(s, content, wild),
                    pb.clone(),
                    pe.clone(),
                ),
                N::Maths { dollars, display, content } => P::Maths(*dollars, *display, number(s, content, wild)),
                N::Raw(_) => unreachable!(),
            };
            T { line, v }
        })
        .collect()
}
fn number_args(s: &mut Src, a: &[Arg], wild: bool) -> Vec<A> {
    a.iter().map(|a| (a.prec.clone(), a.k, number(s, &a.content, wild))).collect()
}

fn print_args(a: &[A], o: &mut String) {
    for (p, k, c) in a {
        o.push_str(p);
        o.push(k.open());
        show(c, o);
        o.push(k.close());
    }
}
fn show(ts: &[T], o: &mut String) {
    for t in ts {
        match &t.v {
            P::Text(t) | P::Break(t) => o.push_str(t),
            P::Cmd(l, a) => {
                o.push('\\');
                o.push_str(l);
                print_args(a, o);
            }
            P::Scope(k, c) => {
                o.push(k.open());
                show(c, o);
                o.push(k.close());
            }
            P::Env(l, a, c, b, e) => {
                o.push_str(&format!("\\begin{b}{{{l}}}"));
                print_args(a, o);
                show(c, o);
                o.push_str(&format!("\\end{e}{{{l}}}"));
            }
            P::Maths(d, o_, c) => {
                let (x, y) = match (d, o_) {
                    (true, true) => ("$$", "$$"),
                    (true, false) => ("$", "$"),
                    (false, true) => ("\\[", "\\]"),
                    (false, false) => ("\\(", "\\)"),
                };
                o.push_str(x);
                show(c, o);
                o.push_str(y);
            }
        }
    }
}
pub fn shown(ts: &[T]) -> String {
    let mut o = String::new();
    show(ts, &mut o);
    o
}

/// Maths blocks have no accessors: they are seen through their text.
fn seen(ts: &[T]) -> Vec<T> {
    ts.iter()
        .map(|t| T {
            line: t.line,
            v: match &t.v {
                P::Cmd(l, a) => P::Cmd(l.clone(), seen_args(a)),
                P::Scope(k, c) => P::Scope(*k, seen(c)),
                P::Env(l, a, c, b, e) => P::Env(l.clone(), seen_args(a), seen(c), b.clone(), e.clone()),
                P::Maths(..) => P::Maths(false, false, vec![T { line: 0, v: P::Text(shown(std::slice::from_ref(t))) }]),
                v => v.clone(),
            },
        })
        .collect()
}
fn seen_args(a: &[A]) -> Vec<A> {
    a.iter().map(|(p, k, c)| (p.clone(), *k, seen(c))).collect()
}

macro_rules! stage {
    ($m:ident, $st:ident, $from:ident, $build:ident, $look:ident) => {
        pub mod $m {
            use super::*;
            use $st::ChunkVariant as C;
            pub fn variant(p: &P) -> C {
                match p {
                    P::Text(t) => C::Text(t.clone()),
                    P::Cmd(l, a) => C::Command($st::Command::new_unchecked(l.clone(), args(a))),
                    P::Scope(k, c) => C::Scope(scope(*k, c)),
                    other => $build(other),
                }
            }
            pub fn scope(k: K, c: &[T]) -> $st::Scope {
                $st::Scope::new_unchecked(build(c), k.$m())
            }
            pub fn args(a: &[A]) -> Vec<(String, $st::Scope)> {
                a.iter().map(|(p, k, c)| (p.clone(), scope(*k, c))).collect()
            }
            pub fn build(ts: &[T]) -> Vec<$st::Chunk> {
                ts.iter().map(|t| $st::Chunk::new_unchecked(t.line, variant(&t.v))).collect()
            }
            /// through the borrowing accessors
            pub fn look(cs: &[$st::Chunk]) -> Vec<T> {
                cs.iter()
                    .map(|c| T {
                        line: c.line_no(),
                        v: match c.variant() {
                            C::Text(t) => P::Text(t.clone()),
                            C::Scope(s) => P::Scope(K::$from(s.variant()), look(s.chunks())),
                            C::Command(c) => P::Cmd(c.label().clone(), look_args(c.arguments())),
                            #[allow(unreachable_patterns)]
                            other => $look(other),
                        },
                    })
                    .collect()
            }
            pub fn look_args(a: &[(String, $st::Scope)]) -> Vec<A> {
                a.iter().map(|(p, s)| (p.clone(), K::$from(s.variant()), look(s.chunks()))).collect()
            }
            /// by taking the values apart; `alt` picks between two ways
            pub fn take(cs: Vec<$st::Chunk>, alt: bool) -> Vec<T> {
                cs.into_iter()
                    .map(|mut c| {
                        let (line, v) = if alt {
                            (c.line_no(), c.variant_owned())
                        } else if c.line_no() % 2 == 0 {
                            let l = c.line_no();
                            (l, std::mem::replace(c.variant_mut(), C::Text(String::new())))
                        } else {
                            c.decompose()
                        };
                        let v = match v {
                            C::Text(t) => P::Text(t),
                            C::Scope(s) => {
                                if alt {
                                    let k = s.variant();
                                    P::Scope(K::$from(k), take(s.chunks_owned(), alt))
                                } else {
                                    let (c, k) = s.decompose();
                                    P::Scope(K::$from(k), take(c, alt))
                                }
                            }
                            C::Command(c) => {
                                if alt {
                                    let l = c.clone().label_owned();
                                    P::Cmd(l, take_args(c.arguments_owned(), alt))
                                } else {
                                    let (l, a) = c.decompose();
                                    P::Cmd(l, take_args(a, alt))
                                }
                            }
                            #[allow(unreachable_patterns)]
                            other => $look(&other),
                        };
                        T { line, v }
                    })
                    .collect()
            }
            pub fn take_args(a: Vec<(String, $st::Scope)>, alt: bool) -> Vec<A> {
                a.into_iter()
                    .map(|(p, s)| {
                        let (c, k) = s.decompose();
                        (p, K::$from(k), take(c, alt))
                    })
                    .collect()
            }
        }
    };
}


fn build_more1(_: &P) -> ast1::ChunkVariant {
    unreachable!()
}
fn look_more1(_: &ast1::ChunkVariant) -> P {
    unreachable!()
}
fn build_more2(p: &P) -> ast2::ChunkVariant {
    let P::Env(l, a, c, b, e) = p else { unreachable!() };
    ast2::ChunkVariant::Environment(ast2::Environment::new_unchecked(
        l.clone(),
        s2::args(a),
        s2::build(c),
        b.clone(),
        e.clone(),
    ))
}
fn look_more2(v: &ast2::ChunkVariant) -> P {
    let ast2::ChunkVariant::Environment(e) = v else { unreachable!() };
    let (l, a, c, b, x) = e.clone().decompose();
    assert_eq!(&l, e.label(), "the label of an environment");
    P::Env(l, s2::look_args(&a), s2::look(&c), b, x)
}
fn build_more3(p: &P) -> ast3::ChunkVariant {
    match p {
        P::Break(t) => ast3::ChunkVariant::ParagraphBreak(t.clone()),
        P::Maths(d, o, c) => {
            ast3::ChunkVariant::MathsBlock(ast3::MathsBlock::new_unchecked(mv(*d), mt(*o), s3::build(c)))
        }
        P::Env(l, a, c, b, e) => ast3::ChunkVariant::Environment(ast3::Environment::new_unchecked(
            l.clone(),
            s3::args(a),
            s3::build(c),
            b.clone(),
            e.clone(),
        )),
        _ => unreachable!(),
    }
}
fn look_more3(v: &ast3::ChunkVariant) -> P {
    match v {
        ast3::ChunkVariant::ParagraphBreak(t) => P::Break(t.clone()),
        ast3::ChunkVariant::MathsBlock(m) => P::Maths(
            false,
            false,
            vec![T { line: 0, v: P::Text(m.to_string()) }],
        ),
        ast3::ChunkVariant::Environment(e) => {
            let (l, a, c, b, x) = e.clone().decompose();
            assert_eq!(&l, e.label(), "the label of an environment");
            P::Env(l, s3::look_args(&a), s3::look(&c), b, x)
        }
        _ => unreachable!(),
    }
}
stage!(s1, ast1, from1, build_more1, look_more1);
stage!(s2, ast2, from2, build_more2, look_more2);
stage!(s3, ast3, from3, build_more3, look_more3);

// ------------------------------------------------------------ changing a part

fn edit_str(s: &mut Src, t: &mut String) {
    let v: Vec<char> = t.chars().collect();
    let at = s.below(v.len().max(1));
    let mut w = v.clone();
    match s.below(6) {
        0 => w.push(*s.pick(&['a', ' ', '\n', 'é', '\u{301}', '{'])),
        1 => w.insert(0, *s.pick(&['a', ' ', '\n', '\u{feff}'])),
        2 if !w.is_empty() => {
            w.remove(at);
        }
        3 if !w.is_empty() => {
            let c = w[at];
            w[at] = if c.is_lowercase() {
                c.to_uppercase().next().unwrap()
            } else if c.is_uppercase() {
                c.to_lowercase().next().unwrap()
            } else if c == ' ' {
                '\t'
            } else if c == '\n' {
                ' '
            } else {
                'z'
            };
        }
        4 if w.len() > 1 => {
            let b = (at + 1) % w.len();
            w.swap(at, b);
        }
        _ => w.push('x'),
    }
    if w == v {
        w.push('y');
    }
    *t = w.into_iter().collect();
}

fn other_kind(s: &mut Src, k: &mut K) {
    let v: Vec<K> = K::ALL.into_iter().filter(|x| x != k).collect();
    *k = *s.pick(&v);
}

fn edit_args(s: &mut Src, a: &mut Vec<A>) {
    let n = a.len();
    let at = s.below(n.max(1));
    match s.below(6) {
        0 if n > 0 => {
            a.pop();
        }
        1 if n > 0 => edit_str(s, &mut a[at].0),
        2 if n > 0 => other_kind(s, &mut a[at].1),
        3 | 4 if n > 0 => edit(s, &mut a[at].2),
        _ => a.insert(at, (String::new(), *s.pick(&K::ALL), vec![])),
    }
}

/// One part, somewhere, becomes another.
fn edit(s: &mut Src, ts: &mut Vec<T>) {
    let n = ts.len();
    let at = s.below(n.max(1));
    match s.below(8) {
        0 if n > 0 => {
            ts.remove(at);
        }
        1 => ts.insert(at, T { line: 1, v: P::Text(String::new()) }),
        2 if n > 0 => {
            let t = &mut ts[at];
            t.line = match s.below(4) {
                0 => t.line.wrapping_add(1),
                1 => t.line.wrapping_sub(1),
                2 => t.line ^ 0x100,
                _ => t.line ^ 0x8000_0000,
            };
        }
        _ if n > 0 => match &mut ts[at].v {
            P::Text(t) | P::Break(t) => edit_str(s, t),
            P::Cmd(l, a) => {
                if s.chance(1, 2) {
                    edit_args(s, a)
                } else {
                    edit_str(s, l)
                }
            }
            P::Scope(k, c) => {
                if s.chance(1, 3) {
                    other_kind(s, k)
                } else {
                    edit(s, c)
                }
            }
            P::Env(l, a, c, b, e) => match s.below(5) {
                0 => edit_str(s, l),
                1 => edit_str(s, b),
                2 => edit_str(s, e),
                3 => edit_args(s, a),
                _ => edit(s, c),
            },
            P::Maths(d, o, c) => match s.below(4) {
                0 => *d = !*d,
                1 => *o = !*o,
                _ => edit(s, c),
            },
        },
        _ => ts.push(T { line: 1, v: P::Text(String::new()) }),
    }
}

// ------------------------------------------------------------------ the check

fn gives_back(how: &str, got: &[T], made: &[T]) -> Result<(), String> {
    let want = seen(made);
    if got != want {
        return Err(format!("made of {want:?}, {how} gives {got:?}"));
    }
    Ok(())
}

fn compares<D: PartialEq + Clone + std::fmt::Debug>(
    a: &D,
    same: &D,
    other: &D,
    what: &dyn Fn() -> String,
) -> Result<(), String> {
    if a != same || same != a || !(a == same) {
        return Err(format!("two values made of the same parts are unequal: {}", what()));
    }
    if *a != a.clone() {
        return Err(format!("a value is unequal to its clone: {}", what()));
    }
    if a == other || other == a || !(a != other) {
        return Err(format!("two different values are equal: {}", what()));
    }
    Ok(())
}

macro_rules! check {
    ($s:ident, $m:ident, $st:ident, $made:ident, $edited:ident, $what:expr) => {{
        let cs = $m::build(&$made);
        gives_back("looking at it", &$m::look(&cs), &$made)?;
        gives_back("taking it apart", &$m::take(cs.clone(), false), &$made)?;
        gives_back("taking it apart piece by piece", &$m::take(cs.clone(), true), &$made)?;
        let d = $st::Document::new_unchecked(cs.clone());
        gives_back("the document", &$m::look(d.chunks()), &$made)?;
        gives_back("the document, taken apart,", &$m::look(&d.clone().chunks_owned()), &$made)?;
        let e = $m::build(&$edited);
        compares(&cs, &$m::build(&$made), &e, $what)?;
        compares(&d, &$st::Document::new_unchecked($m::build(&$made)), &$st::Document::new_unchecked(e), $what)?;
        if d.to_string() != shown(&$made) {
            return Err(format!("made of {:?}, it prints {:?}", $made, d.to_string()));
        }
    }};
}

pub fn values(s: &mut Src) -> R {
    let stage = 1 + s.below(3) as u8;
    let wild = s.chance(1, 3);
    let v = V { stage, bad: *s.pick(&[0, 0, 10]), max_depth: 3 };
    let ns = values::values(s, v, 0);
    let made = number(s, &ns, wild);
    let mut edited = made.clone();
    edit(s, &mut edited);
    if edited == made {
        edited.push(T { line: 9, v: P::Scope(K::Curly, vec![]) });
    }
    let what = || format!("{made:?} and {edited:?}");
    match stage {
        1 => check!(s, s1, ast1, made, edited, &what),
        2 => check!(s, s2, ast2, made, edited, &what),
        _ => {
            let cs = s3::build(&made);
            gives_back("looking at it", &s3::look(&cs), &made)?;
            gives_back("taking it apart", &s3::take(cs.clone(), false), &made)?;
            gives_back("taking it apart piece by piece", &s3::take(cs.clone(), true), &made)?;
            compares(&cs, &s3::build(&made), &s3::build(&edited), &what)?;
        }
    }
    Ok(Case::new(format!("stage {stage}: {}", shown(&made)), !made.is_empty())
        .label(wild, "any line numbers")
        .label(made.len() == edited.len(), "a part changed"))
}

/// Stage-3 documents: eight parts.
#[derive(Clone, PartialEq, Debug)]
struct D {
    pre: Vec<T>,
    class: Option<String>,
    opts: Vec<Opt>,
    body: Vec<T>,
    args: Vec<A>,
    pb: String,
    pe: String,
    trail: Vec<T>,
}

fn make(d: &D) -> ast3::Document {
    ast3::Document::new_unchecked(
        s3::build(&d.pre),
        d.class.clone(),
        d.opts.clone(),
        s3::build(&d.body),
        s3::args(&d.args),
        d.pb.clone(),
        d.pe.clone(),
        s3::build(&d.trail),
    )
}

pub fn documents(s: &mut Src) -> R {
    let v = V { stage: 3, bad: *s.pick(&[0, 0, 10]), max_depth: 2 };
    let m = values::wild3(s, v);
    let b = m.body.clone().unwrap();
    let word = |s: &mut Src| s.pick(&["", "a", "b c", "é", "12pt", "\n"]).to_string();
    let n = s.below(3);
    let opts = (0..n)
        .map(|_| {
            let val = if s.chance(1, 2) { Some((word(s), word(s), word(s))) } else { None };
            (word(s), word(s), val, word(s))
        })
        .collect();
    let class = if s.chance(1, 2) { Some(word(s)) } else { None };
    let made = D {
        pre: number(s, &m.pre, false),
        class,
        opts,
        body: number(s, &b.content, false),
        args: number_args(s, &b.args, false),
        pb: b.pb,
        pe: b.pe,
        trail: number(s, &m.trail, false),
    };
    let mut other = made.clone();
    match s.below(10) {
        0 => edit(s, &mut other.pre),
        1 => edit(s, &mut other.body),
        2 => edit(s, &mut other.trail),
        3 => edit_args(s, &mut other.args),
        4 => edit_str(s, &mut other.pb),
        5 => edit_str(s, &mut other.pe),
        6 => {
            other.class = match other.class {
                Some(_) if s.chance(1, 2) => None,
                Some(mut c) => {
                    edit_str(s, &mut c);
                    Some(c)
                }
                None => Some(String::new()),
            }
        }
        7 if !other.opts.is_empty() => {
            let n = other.opts.len();
            let at = s.below(n);
            let o = &mut other.opts[at];
            match s.below(7) {
                0 => edit_str(s, &mut o.0),
                1 => edit_str(s, &mut o.1),
                2 => edit_str(s, &mut o.3),
                k => match &mut o.2 {
                    Some(x) if k == 3 => edit_str(s, &mut x.0),
                    Some(x) if k == 4 => edit_str(s, &mut x.1),
                    Some(x) if k == 5 => edit_str(s, &mut x.2),
                    Some(_) => o.2 = None,
                    None => o.2 = Some(Default::default()),
                },
            }
        }
        8 if !other.opts.is_empty() => {
            other.opts.pop();
        }
        _ => other.opts.push(Default::default()),
    }
    let text = m.print();
    let d = make(&made);
    gives_back("its preamble", &s3::look(d.chunks_preamable()), &made.pre)?;
    gives_back("its body", &s3::look(d.chunks_body()), &made.body)?;
    gives_back("its trailing part", &s3::look(d.chunks_trailing()), &made.trail)?;
    let (class, opts, pre, body, args, pb, pe, trail) = d.clone().decompose();
    gives_back("its preamble, taken apart,", &s3::look(&pre), &made.pre)?;
    gives_back("its body, taken apart,", &s3::look(&body), &made.body)?;
    gives_back("its trailing part, taken apart,", &s3::look(&trail), &made.trail)?;
    if (&class, &opts, &pb, &pe) != (&made.class, &made.opts, &made.pb, &made.pe)
        || s3::look_args(&args) != seen_args(&made.args)
    {
        return Err(format!(
            "made of {made:?}, taken apart it gives {:?}",
            (class, opts, args, pb, pe)
        ));
    }
    if d.lines() != newlines(&text) + 1 || d.to_string() != text {
        return Err(format!("made of {made:?}, it prints {:?}", d.to_string()));
    }
    if other != made {
        compares(&d, &make(&made), &make(&other), &|| format!("{made:?} and {other:?}"))?;
    }
    let nt = made.pre.len() + made.body.len() + made.trail.len() > 0;
    Ok(Case::new(text, nt).label(class.is_some(), "with a class"))
}
