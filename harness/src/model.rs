//! The reference model of a document: a plain tree, how it is written down as
//! LaTeX source, how a stage-3 tree lowers to stage 2 and stage 1, and how the
//! crate's own value for a tree is assembled (with every line number computed
//! here, from the printed text, never taken from the crate).

use latex_ast::{ast1, ast2, ast3};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Curly,
    Round,
    Square,
}

impl K {
    pub const ALL: [K; 3] = [K::Curly, K::Round, K::Square];
    pub fn open(self) -> char {
        match self {
            K::Curly => '{',
            K::Round => '(',
            K::Square => '[',
        }
    }
    pub fn close(self) -> char {
        match self {
            K::Curly => '}',
            K::Round => ')',
            K::Square => ']',
        }
    }
    pub fn of_open(c: char) -> Option<K> {
        K::ALL.into_iter().find(|k| k.open() == c)
    }
    pub fn of_close(c: char) -> Option<K> {
        K::ALL.into_iter().find(|k| k.close() == c)
    }
    pub fn s1(self) -> ast1::ScopeVariant {
        match self {
            K::Curly => ast1::ScopeVariant::Curly,
            K::Round => ast1::ScopeVariant::Round,
            K::Square => ast1::ScopeVariant::Square,
        }
    }
    pub fn s2(self) -> ast2::ScopeVariant {
        match self {
            K::Curly => ast2::ScopeVariant::Curly,
            K::Round => ast2::ScopeVariant::Round,
            K::Square => ast2::ScopeVariant::Square,
        }
    }
    pub fn s3(self) -> ast3::ScopeVariant {
        match self {
            K::Curly => ast3::ScopeVariant::Curly,
            K::Round => ast3::ScopeVariant::Round,
            K::Square => ast3::ScopeVariant::Square,
        }
    }
    pub fn from1(v: ast1::ScopeVariant) -> K {
        match v {
            ast1::ScopeVariant::Curly => K::Curly,
            ast1::ScopeVariant::Round => K::Round,
            ast1::ScopeVariant::Square => K::Square,
        }
    }
    pub fn from2(v: ast2::ScopeVariant) -> K {
        match v {
            ast2::ScopeVariant::Curly => K::Curly,
            ast2::ScopeVariant::Round => K::Round,
            ast2::ScopeVariant::Square => K::Square,
        }
    }
    pub fn from3(v: ast3::ScopeVariant) -> K {
        match v {
            ast3::ScopeVariant::Curly => K::Curly,
            ast3::ScopeVariant::Round => K::Round,
            ast3::ScopeVariant::Square => K::Square,
        }
    }
}

/// One bracketed argument: the whitespace before it, its bracket, its content.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Arg {
    pub prec: String,
    pub k: K,
    pub content: Vec<N>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum N {
    Text(String),
    Break(String),
    Cmd {
        label: String,
        args: Vec<Arg>,
    },
    Scope(K, Vec<N>),
    Env {
        label: String,
        pb: String,
        args: Vec<Arg>,
        content: Vec<N>,
        pe: String,
    },
    Maths {
        dollars: bool,
        display: bool,
        content: Vec<N>,
    },
    /// Raw source, used only by the fault injector (never built or lowered).
    Raw(String),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Body {
    pub pb: String,
    pub args: Vec<Arg>,
    pub content: Vec<N>,
    pub pe: String,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Doc3 {
    pub pre: Vec<N>,
    pub body: Option<Body>,
    pub trail: Vec<N>,
}

// ------------------------------------------------------------------ printing

fn print_args(args: &[Arg], o: &mut String) {
    for a in args {
        o.push_str(&a.prec);
        o.push(a.k.open());
        print_to(&a.content, o);
        o.push(a.k.close());
    }
}

fn print_env(label: &str, pb: &str, args: &[Arg], content: &[N], pe: &str, o: &mut String) {
    o.push_str("\\begin");
    o.push_str(pb);
    o.push('{');
    o.push_str(label);
    o.push('}');
    print_args(args, o);
    print_to(content, o);
    o.push_str("\\end");
    o.push_str(pe);
    o.push('{');
    o.push_str(label);
    o.push('}');
}

pub fn print_to(ns: &[N], o: &mut String) {
    for n in ns {
        match n {
            N::Text(s) | N::Break(s) | N::Raw(s) => o.push_str(s),
            N::Cmd { label, args } => {
                o.push('\\');
                o.push_str(label);
                print_args(args, o);
            }
            N::Scope(k, c) => {
                o.push(k.open());
                print_to(c, o);
                o.push(k.close());
            }
            N::Env {
                label,
                pb,
                args,
                content,
                pe,
            } => print_env(label, pb, args, content, pe, o),
            N::Maths {
                dollars,
                display,
                content,
            } => {
                let (a, b) = match (dollars, display) {
                    (true, true) => ("$$", "$$"),
                    (true, false) => ("$", "$"),
                    (false, true) => ("\\[", "\\]"),
                    (false, false) => ("\\(", "\\)"),
                };
                o.push_str(a);
                print_to(content, o);
                o.push_str(b);
            }
        }
    }
}

pub fn print(ns: &[N]) -> String {
    let mut o = String::new();
    print_to(ns, &mut o);
    o
}

pub fn newlines(s: &str) -> u32 {
    s.bytes().filter(|b| *b == b'\n').count() as u32
}

fn nl(n: &N) -> u32 {
    newlines(&print(std::slice::from_ref(n)))
}

impl Doc3 {
    pub fn flat(&self) -> Vec<N> {
        let mut v = self.pre.clone();
        if let Some(b) = &self.body {
            v.push(N::Env {
                label: "document".into(),
                pb: b.pb.clone(),
                args: b.args.clone(),
                content: b.content.clone(),
                pe: b.pe.clone(),
            });
        }
        v.extend(self.trail.iter().cloned());
        v
    }
    pub fn print(&self) -> String {
        print(&self.flat())
    }
}

// ------------------------------------------------------------------ lowering

pub fn merge_text(ns: Vec<N>) -> Vec<N> {
    let mut out: Vec<N> = Vec::with_capacity(ns.len());
    for n in ns {
        if let N::Text(s) = &n {
            if s.is_empty() {
                continue;
            }
            if let Some(N::Text(l)) = out.last_mut() {
                l.push_str(s);
                continue;
            }
        }
        out.push(n);
    }
    out
}

fn lower_args(args: &[Arg], f: fn(&[N]) -> Vec<N>) -> Vec<Arg> {
    args.iter()
        .map(|a| Arg {
            prec: a.prec.clone(),
            k: a.k,
            content: f(&a.content),
        })
        .collect()
}

/// Stage 3 tree -> stage 2 tree (no maths blocks, no paragraph breaks).
pub fn lower32(ns: &[N]) -> Vec<N> {
    let mut out = Vec::new();
    for n in ns {
        match n {
            N::Text(s) | N::Break(s) => out.push(N::Text(s.clone())),
            N::Cmd { label, args } => out.push(N::Cmd {
                label: label.clone(),
                args: lower_args(args, lower32),
            }),
            N::Scope(k, c) => out.push(N::Scope(*k, lower32(c))),
            N::Env {
                label,
                pb,
                args,
                content,
                pe,
            } => out.push(N::Env {
                label: label.clone(),
                pb: pb.clone(),
                args: lower_args(args, lower32),
                content: lower32(content),
                pe: pe.clone(),
            }),
            N::Maths {
                dollars,
                display,
                content,
            } => {
                let d = |s: &str| {
                    if *dollars {
                        N::Text(if *display { "$$".into() } else { "$".into() })
                    } else {
                        N::Cmd {
                            label: s.into(),
                            args: vec![],
                        }
                    }
                };
                out.push(d(if *display { "[" } else { "(" }));
                out.extend(lower32(content));
                out.push(d(if *display { "]" } else { ")" }));
            }
            N::Raw(_) => unreachable!(),
        }
    }
    merge_text(out)
}

/// Stage 2 tree -> stage 1 tree (environments become begin/end commands).
pub fn lower21(ns: &[N]) -> Vec<N> {
    let mut out = Vec::new();
    for n in ns {
        match n {
            N::Text(s) => out.push(N::Text(s.clone())),
            N::Cmd { label, args } => out.push(N::Cmd {
                label: label.clone(),
                args: lower_args(args, lower21),
            }),
            N::Scope(k, c) => out.push(N::Scope(*k, lower21(c))),
            N::Env {
                label,
                pb,
                args,
                content,
                pe,
            } => {
                let lab = crate::refp::parse1(label).expect("environment label parses");
                let mut a = vec![Arg {
                    prec: pb.clone(),
                    k: K::Curly,
                    content: lab.clone(),
                }];
                a.extend(lower_args(args, lower21));
                out.push(N::Cmd {
                    label: "begin".into(),
                    args: a,
                });
                out.extend(lower21(content));
                out.push(N::Cmd {
                    label: "end".into(),
                    args: vec![Arg {
                        prec: pe.clone(),
                        k: K::Curly,
                        content: lab,
                    }],
                });
            }
            _ => unreachable!(),
        }
    }
    merge_text(out)
}

// ------------------------------------------------- building the crate's values

pub fn lines_of(ns: &[N]) -> Vec<u32> {
    let mut l = 1;
    ns.iter()
        .map(|n| {
            let r = l;
            l += nl(n);
            r
        })
        .collect()
}

pub fn scope1(k: K, c: &[N]) -> ast1::Scope {
    ast1::Scope::new_unchecked(build1(c), k.s1())
}
pub fn args1(args: &[Arg]) -> Vec<(String, ast1::Scope)> {
    args.iter()
        .map(|a| (a.prec.clone(), scope1(a.k, &a.content)))
        .collect()
}
pub fn variant1(n: &N) -> ast1::ChunkVariant {
    match n {
        N::Text(s) => ast1::ChunkVariant::Text(s.clone()),
        N::Cmd { label, args } => ast1::ChunkVariant::Command(ast1::Command::new_unchecked(
            label.clone(),
            args1(args),
        )),
        N::Scope(k, c) => ast1::ChunkVariant::Scope(scope1(*k, c)),
        _ => unreachable!("not a stage-1 node"),
    }
}
pub fn build1(ns: &[N]) -> Vec<ast1::Chunk> {
    ns.iter()
        .zip(lines_of(ns))
        .map(|(n, l)| ast1::Chunk::new_unchecked(l, variant1(n)))
        .collect()
}
pub fn doc1(ns: &[N]) -> ast1::Document {
    ast1::Document::new_unchecked(build1(ns))
}

pub fn scope2(k: K, c: &[N]) -> ast2::Scope {
    ast2::Scope::new_unchecked(build2(c), k.s2())
}
pub fn args2(args: &[Arg]) -> Vec<(String, ast2::Scope)> {
    args.iter()
        .map(|a| (a.prec.clone(), scope2(a.k, &a.content)))
        .collect()
}
pub fn variant2(n: &N) -> ast2::ChunkVariant {
    match n {
        N::Text(s) => ast2::ChunkVariant::Text(s.clone()),
        N::Cmd { label, args } => ast2::ChunkVariant::Command(ast2::Command::new_unchecked(
            label.clone(),
            args2(args),
        )),
        N::Scope(k, c) => ast2::ChunkVariant::Scope(scope2(*k, c)),
        N::Env {
            label,
            pb,
            args,
            content,
            pe,
        } => ast2::ChunkVariant::Environment(ast2::Environment::new_unchecked(
            label.clone(),
            args2(args),
            build2(content),
            pb.clone(),
            pe.clone(),
        )),
        _ => unreachable!("not a stage-2 node"),
    }
}
pub fn build2(ns: &[N]) -> Vec<ast2::Chunk> {
    ns.iter()
        .zip(lines_of(ns))
        .map(|(n, l)| ast2::Chunk::new_unchecked(l, variant2(n)))
        .collect()
}
pub fn doc2(ns: &[N]) -> ast2::Document {
    ast2::Document::new_unchecked(build2(ns))
}

pub fn scope3(k: K, c: &[N]) -> ast3::Scope {
    ast3::Scope::new_unchecked(build3(c), k.s3())
}
pub fn args3(args: &[Arg]) -> Vec<(String, ast3::Scope)> {
    args.iter()
        .map(|a| (a.prec.clone(), scope3(a.k, &a.content)))
        .collect()
}
pub fn mv(dollars: bool) -> ast3::MathsVariant {
    if dollars {
        ast3::MathsVariant::Dollars
    } else {
        ast3::MathsVariant::Brackets
    }
}
pub fn mt(display: bool) -> ast3::MathsType {
    if display {
        ast3::MathsType::Outline
    } else {
        ast3::MathsType::Inline
    }
}
pub fn variant3(n: &N) -> ast3::ChunkVariant {
    match n {
        N::Text(s) => ast3::ChunkVariant::Text(s.clone()),
        N::Break(s) => ast3::ChunkVariant::ParagraphBreak(s.clone()),
        N::Cmd { label, args } => ast3::ChunkVariant::Command(ast3::Command::new_unchecked(
            label.clone(),
            args3(args),
        )),
        N::Scope(k, c) => ast3::ChunkVariant::Scope(scope3(*k, c)),
        N::Env {
            label,
            pb,
            args,
            content,
            pe,
        } => ast3::ChunkVariant::Environment(ast3::Environment::new_unchecked(
            label.clone(),
            args3(args),
            build3(content),
            pb.clone(),
            pe.clone(),
        )),
        N::Maths {
            dollars,
            display,
            content,
        } => ast3::ChunkVariant::MathsBlock(ast3::MathsBlock::new_unchecked(
            mv(*dollars),
            mt(*display),
            build3(content),
        )),
        N::Raw(_) => unreachable!(),
    }
}
pub fn build3(ns: &[N]) -> Vec<ast3::Chunk> {
    ns.iter()
        .zip(lines_of(ns))
        .map(|(n, l)| ast3::Chunk::new_unchecked(l, variant3(n)))
        .collect()
}

pub type Opt = (String, String, Option<(String, String, String)>, String);

/// Stage-3 document value for a model document that has a body; the class and
/// options are given by the caller (they duplicate what the preamble holds).
pub fn doc3(d: &Doc3, class: Option<String>, opts: Vec<Opt>) -> ast3::Document {
    let b = d.body.clone().unwrap_or(Body {
        pb: String::new(),
        args: vec![],
        content: vec![],
        pe: String::new(),
    });
    ast3::Document::new_unchecked(
        build3(&d.pre),
        class,
        opts,
        build3(&b.content),
        args3(&b.args),
        b.pb,
        b.pe,
        build3(&d.trail),
    )
}

// ------------------------------------------- reading the crate's values back

/// Stage-1 chunks -> model tree, through the public accessors.
pub fn read1(cs: &[ast1::Chunk]) -> Vec<N> {
    cs.iter()
        .map(|c| match c.variant() {
            ast1::ChunkVariant::Text(s) => N::Text(s.clone()),
            ast1::ChunkVariant::Scope(s) => N::Scope(K::from1(s.variant()), read1(s.chunks())),
            ast1::ChunkVariant::Command(c) => N::Cmd {
                label: c.label().clone(),
                args: c
                    .arguments()
                    .iter()
                    .map(|(p, s)| Arg {
                        prec: p.clone(),
                        k: K::from1(s.variant()),
                        content: read1(s.chunks()),
                    })
                    .collect(),
            },
        })
        .collect()
}
