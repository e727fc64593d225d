//! Generators: canonical stage-3 documents (trees that source text can stand
//! for in exactly one way), malformed noise, mutations, comments.

use crate::dict;
use crate::model::*;
use crate::refp;
use crate::src::Src;

pub const WS: &[char] = &[
    ' ', '\n', '\t', '\r', '\u{a0}', '\u{3000}', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2003}',
];
/// Characters that are neither whitespace nor reserved by any stage.
pub const PLAIN: &[char] = &[
    'a', 'b', 'x', 'Z', '0', '9', '.', ',', ';', ':', '*', '@', '&', '#', '~', '^', '_', '"', '\'',
    '-', '+', '=', '<', '>', '/', '?', '!', '|', '`', 'é', 'ß', '漢', '😀', '\u{301}', '\u{200b}',
    '\u{feff}', '\0', '\u{7f}',
];
const NAMES: &[&str] = &[
    "a", "x", "item", "alpha", "textbf", "section*", "beginx", "ends", "End", "Begin", "begin*", "endb",
    "documentclass", "documentclassx", "document", "verb", "left", "right", "é", "aé漢", "a1", "x@y", "l,",
    "usepackage", "frac", "b%",
];
const ENVS: &[&str] = &[
    "a", "b", "itemize", "align*", "equation", "document*", "ab", "", "a b", "a\nb", "é", " document", "end",
    "begin", "verbatim", "x$y",
];

#[derive(Clone, Copy)]
pub struct Opts {
    /// keep to what the checked constructors accept (plain environment names)
    pub plain_labels: bool,
    /// stage of the canonical tree: 3 allows maths and paragraph breaks
    pub maths: bool,
    pub envs: bool,
    pub max_depth: usize,
}

impl Opts {
    pub const ALL: Opts = Opts {
        plain_labels: false,
        maths: true,
        envs: true,
        max_depth: 6,
    };
    pub const PLAIN: Opts = Opts {
        plain_labels: true,
        ..Opts::ALL
    };
}

#[derive(Clone, Copy, PartialEq)]
enum Att {
    /// anything may follow
    Free,
    /// an opening bracket (even after whitespace) would attach
    Args,
    /// as Args, and plain characters would extend the name
    Name,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ctx {
    Plain,
    Dollars,
    Top,
}

pub fn ws(s: &mut Src, max: usize) -> String {
    let n = s.below(max + 1);
    (0..n)
        .map(|_| match s.weighted(&[6, 6, 3]) {
            0 => ' ',
            1 => '\n',
            _ if s.chance(1, 3) => *s.pick(dict::WS),
            _ => *s.pick(WS),
        })
        .collect()
}

fn word(s: &mut Src) -> String {
    if s.chance(1, 24) {
        return s.pick(&dict::get().words).clone();
    }
    let n = 1 + s.below(4);
    (0..n)
        .map(|_| {
            if s.chance(1, 3) {
                if s.chance(1, 4) {
                    {
                        let v: &[char] = if s.chance(1, 2) { &dict::get().chars } else { dict::ODD };
                        *s.pick(v)
                    }
                } else {
                    *s.pick(PLAIN)
                }
            } else {
                *s.pick(&['a', 'b', 'c', '1'])
            }
        })
        .collect()
}

/// A run of text: words and whitespace; may hold paragraph breaks.
pub fn run(s: &mut Src) -> String {
    let mut o = String::new();
    let n = 1 + s.below(5);
    for _ in 0..n {
        match s.weighted(&[5, 4, 3, 2]) {
            0 => o.push_str(&word(s)),
            1 => o.push_str(&ws(s, 3)),
            2 => o.push('\n'),
            _ => {
                o.push('\n');
                o.push_str(&ws(s, 3));
                o.push('\n');
            }
        }
    }
    o
}

fn name(s: &mut Src) -> String {
    if s.chance(1, 4) {
        let mut o = String::from(*s.pick(&['a', 'z', 'A', 'b', 'e']));
        o.push_str(&word(s));
        o
    } else if s.chance(1, 3) {
        s.pick(&dict::get().commands).clone()
    } else {
        let n = *s.pick(NAMES);
        if !n.as_bytes()[0].is_ascii_alphabetic() || n.contains('%') {
            return "q".into();
        }
        n.to_string()
    }
}

/// One-character command names: anything but an ASCII letter. Brackets that
/// would be maths delimiters are left out (they are generated as maths).
fn symbol(s: &mut Src) -> String {
    let c = match s.below(5) {
        0 => *s.pick(&['\\', '{', '}', '%', '$', '&', '#', '_', ',', ';', '!', '1', '*', '@']),
        1 if s.chance(1, 4) => *s.pick(dict::WS),
        1 => *s.pick(WS),
        2 => *s.pick(&['{', '}', '%', '\\', ' ', '\n', '$']),
        3 => *s.pick(dict::ODD),
        _ => *s.pick(PLAIN),
    };
    if c.is_ascii_alphabetic() {
        ",".into()
    } else {
        c.to_string()
    }
}

pub fn args(s: &mut Src, depth: usize, o: Opts, max: usize) -> Vec<Arg> {
    let n = s.below(max + 1);
    let mut v: Vec<Arg> = (0..n)
        .map(|_| Arg {
            prec: if s.chance(1, 3) { ws(s, 3) } else { String::new() },
            k: *s.pick(&K::ALL),
            content: content(s, depth + 1, o, Ctx::Plain, false),
        })
        .collect();
    if max > 1 && s.chance(1, 250) {
        many(s, &mut v, |a| weight(&a.content), 200);
    }
    v
}

/// Nodes in a list, all levels.
pub fn weight(ns: &[N]) -> usize {
    let args = |a: &[Arg]| a.iter().map(|a| weight(&a.content)).sum::<usize>();
    ns.iter()
        .map(|n| {
            1 + match n {
                N::Text(_) | N::Break(_) | N::Raw(_) => 0,
                N::Cmd { args: a, .. } => args(a),
                N::Scope(_, c) => weight(c),
                N::Env { args: a, content, .. } => args(a) + weight(content),
                N::Maths { content, .. } => weight(content),
            }
        })
        .sum()
}

/// A size worth trying, up to `max`.
pub fn size(s: &mut Src, max: usize) -> usize {
    let v = &dict::get().sizes;
    *s.pick(&v[..v.partition_point(|n| *n <= max)])
}

/// Repeat the items of a list, in order, until there are many of them.
pub fn many<T: Clone>(s: &mut Src, v: &mut Vec<T>, weigh: impl Fn(&T) -> usize, max: usize) {
    let w: usize = v.iter().map(weigh).sum::<usize>() + v.len();
    let max = if s.chance(1, 12) { 5000 } else { max };
    let n = size(s, max);
    if v.is_empty() || w * n / v.len() > max + 2 || n <= v.len() {
        return;
    }
    // the odd one out comes first, last, or not at all
    let one = v.clone();
    let single = s.chance(1, 2).then(|| one[s.below(one.len())].clone());
    while v.len() < n {
        let x = match &single {
            Some(x) => x.clone(),
            None => one[v.len() % one.len()].clone(),
        };
        if s.below(2) == 0 || v.len() % 7 == 0 {
            v.push(x);
        } else {
            v.insert(0, x);
        }
    }
}

/// Levels of a list, all together.
pub fn levels(ns: &[N]) -> usize {
    let args = |a: &[Arg]| a.iter().map(|a| levels(&a.content)).max().unwrap_or(0);
    ns.iter()
        .map(|n| match n {
            N::Text(_) | N::Break(_) | N::Raw(_) => 0,
            N::Cmd { args: a, .. } => 1 + args(a),
            N::Scope(_, c) => 1 + levels(c),
            N::Env { args: a, content, .. } => 1 + args(a).max(levels(content)),
            N::Maths { content, .. } => 1 + levels(content),
        })
        .max()
        .unwrap_or(0)
}

fn env_label(s: &mut Src, o: Opts) -> String {
    if !o.plain_labels && s.chance(1, 12) {
        let c = content(
            s,
            o.max_depth,
            Opts {
                maths: false,
                envs: false,
                ..o
            },
            Ctx::Plain,
            false,
        );
        return print(&lower21(&lower32(&c)));
    }
    if s.chance(1, 3) {
        return s.pick(&dict::get().envs).clone();
    }
    let l = *s.pick(ENVS);
    l.to_string()
}

fn is_attaching(label: &str) -> bool {
    label.starts_with(|c: char| c.is_ascii_alphabetic())
}

fn after(n: &N, old: Att) -> Att {
    match n {
        N::Text(t) if t.chars().all(char::is_whitespace) => {
            if old == Att::Name {
                Att::Args
            } else {
                old
            }
        }
        N::Cmd { label, args } if is_attaching(label) => {
            if args.is_empty() {
                Att::Name
            } else {
                Att::Args
            }
        }
        N::Env { .. } => Att::Args,
        _ => Att::Free,
    }
}

/// Contents of one container. Text runs are first laid down whole, then cut at
/// their paragraph breaks. `after_begin`: the container starts right after an
/// environment's begin, where a bracket would attach.
pub fn content(s: &mut Src, depth: usize, o: Opts, ctx: Ctx, after_begin: bool) -> Vec<N> {
    let mut raw: Vec<N> = Vec::new();
    let mut att = if after_begin { Att::Args } else { Att::Free };
    let n = match depth {
        0 => 1 + s.below(7),
        d if d >= o.max_depth => s.below(3),
        _ => s.below(5),
    };
    let push = |raw: &mut Vec<N>, att: &mut Att, n: N| {
        // separators that keep the tree canonical
        let mut sep = String::new();
        match &n {
            N::Scope(..) => {
                if *att == Att::Name {
                    sep.push_str(" .");
                } else if *att == Att::Args {
                    sep.push('.');
                }
            }
            N::Text(t) => {
                if *att == Att::Name && !t.starts_with(char::is_whitespace) {
                    sep.push(' ');
                }
            }
            _ => {}
        }
        for n in [N::Text(sep), n] {
            if let N::Text(t) = &n {
                if t.is_empty() {
                    continue;
                }
                if let Some(N::Text(l)) = raw.last_mut() {
                    l.push_str(t);
                    *att = after(&n, *att);
                    continue;
                }
            }
            *att = after(&n, *att);
            raw.push(n);
        }
    };
    for _ in 0..n {
        let deep = depth < o.max_depth;
        let w = [
            6,
            4,
            2,
            if deep { 3 } else { 0 },
            if deep { 3 } else { 0 },
            if o.envs && deep { 3 } else { 0 },
            if o.maths && deep { 4 } else { 0 },
        ];
        let node = match s.weighted(&w) {
            0 => N::Text(run(s)),
            1 => N::Cmd {
                label: name(s),
                args: vec![],
            },
            2 => N::Cmd {
                label: symbol(s),
                args: vec![],
            },
            3 => N::Cmd {
                label: name(s),
                args: args(s, depth, o, 3),
            },
            4 => N::Scope(*s.pick(&K::ALL), content(s, depth + 1, o, Ctx::Plain, false)),
            5 => {
                let label = env_label(s, o);
                let a = args(s, depth, o, 2);
                N::Env {
                    label,
                    pb: if s.chance(1, 4) { ws(s, 3) } else { String::new() },
                    args: a,
                    content: content(s, depth + 1, o, Ctx::Plain, true),
                    pe: if s.chance(1, 4) { ws(s, 3) } else { String::new() },
                }
            }
            _ => {
                let dollars = ctx != Ctx::Dollars && s.chance(1, 2);
                let display = s.chance(1, 2);
                let inner = if dollars { Ctx::Dollars } else if ctx == Ctx::Dollars { Ctx::Dollars } else { Ctx::Plain };
                let mut c = content(s, depth + 1, o, inner, false);
                if dollars && !display && c.is_empty() {
                    c.push(N::Text("x".into()));
                }
                N::Maths {
                    dollars,
                    display,
                    content: c,
                }
            }
        };
        push(&mut raw, &mut att, node);
    }
    if !raw.is_empty() && s.chance(1, 120) {
        match s.below(4) {
            // many of the same
            0 | 1 => {
                let mut v = std::mem::take(&mut raw);
                att = if after_begin { Att::Args } else { Att::Free };
                many(s, &mut v, |n| weight(std::slice::from_ref(n)), 300);
                v.into_iter().for_each(|n| push(&mut raw, &mut att, n));
            }
            // one of them deep down
            2 => {
                let at = s.below(raw.len());
                let (k, how) = (*s.pick(&K::ALL), s.below(3));
                let mut n = size(s, 150);
                if n + depth + levels(&raw) > 170 {
                    n = 0;
                }
                let mut x = raw[at].clone();
                for i in 0..n {
                    let content = finish(vec![x]);
                    x = match how {
                        0 => N::Scope(k, content),
                        1 => N::Scope(K::ALL[i % 3], content),
                        _ => N::Cmd {
                            label: "c".into(),
                            args: vec![Arg {
                                prec: String::new(),
                                k,
                                content,
                            }],
                        },
                    };
                }
                let mut v = std::mem::take(&mut raw);
                v[at] = x;
                att = if after_begin { Att::Args } else { Att::Free };
                v.into_iter().for_each(|n| push(&mut raw, &mut att, n));
            }
            // long text
            _ => {
                let mut t = run(s);
                let n = size(s, 3000);
                t = t.repeat(1 + n / t.len().max(1));
                push(&mut raw, &mut att, N::Text(t));
            }
        }
    }
    finish(raw)
}

/// Cut whole text runs at their paragraph breaks.
pub fn finish(raw: Vec<N>) -> Vec<N> {
    raw.into_iter()
        .flat_map(|n| match n {
            N::Text(t) => refp::paragraphs(&t),
            n => vec![n],
        })
        .collect()
}

fn drop_class(ns: Vec<N>) -> Vec<N> {
    ns.into_iter()
        .map(|n| match n {
            N::Cmd { label, args } if label == "documentclass" => N::Cmd {
                label: "documentclas".into(),
                args,
            },
            // lowering puts maths content at the top level of the preamble
            N::Maths {
                dollars,
                display,
                content,
            } => N::Maths {
                dollars,
                display,
                content: drop_class(content),
            },
            n => n,
        })
        .collect()
}

pub fn option_text(s: &mut Src) -> String {
    let n = s.below(4);
    let mut parts = Vec::new();
    for _ in 0..=n {
        let mut p = ws(s, 2);
        if s.chance(9, 10) {
            p.push_str(&word(s).replace([',', '='], "o"));
            if s.chance(1, 4) {
                p.push_str(&ws(s, 2));
                p.push_str(&word(s).replace([',', '='], "o"));
            }
        }
        if s.chance(1, 3) {
            p.push_str(&ws(s, 2));
            p.push('=');
            p.push_str(&ws(s, 2));
            p.push_str(&word(s).replace(',', "v"));
            if s.chance(1, 4) {
                p.push_str(&ws(s, 1));
                p.push_str(&word(s).replace(',', "v"));
            }
        }
        p.push_str(&ws(s, 2));
        parts.push(p);
    }
    parts.join(",")
}

fn class_cmd(s: &mut Src, o: Opts) -> N {
    let mut a = Vec::new();
    let no = s.below(3);
    for _ in 0..no {
        let c = if s.chance(1, 6) {
            content(s, o.max_depth - 1, o, Ctx::Plain, false)
        } else {
            refp::paragraphs(&option_text(s))
        };
        a.push(Arg {
            prec: if s.chance(1, 4) { ws(s, 2) } else { String::new() },
            k: *s.pick(&[K::Square, K::Square, K::Round]),
            content: c,
        });
    }
    if s.chance(7, 8) {
        let at = if s.chance(1, 4) { s.below(a.len() + 1) } else { a.len() };
        let c = if s.chance(1, 8) {
            content(s, o.max_depth - 1, o, Ctx::Plain, false)
        } else {
            refp::paragraphs(&word(s))
        };
        a.insert(
            at,
            Arg {
                prec: if s.chance(1, 4) { ws(s, 2) } else { String::new() },
                k: K::Curly,
                content: c,
            },
        );
    }
    N::Cmd {
        label: "documentclass".into(),
        args: a,
    }
}

/// A canonical stage-3 document.
pub fn doc(s: &mut Src, o: Opts) -> Doc3 {
    let mut pre = Vec::new();
    let mut lead = drop_class(content(s, 1, o, Ctx::Top, false));
    if s.chance(1, 2) {
        if s.chance(1, 2) {
            lead.clear();
        }
        let c = class_cmd(s, o);
        let N::Cmd { args, .. } = &c else { unreachable!() };
        let with_args = !args.is_empty();
        pre.append(&mut lead);
        pre.push(c);
        if with_args || s.chance(1, 2) {
            pre.push(N::Text(" .".into()));
        } else {
            pre.push(N::Text("\n.".into()));
        }
        let rest = drop_class(content(s, 1, o, Ctx::Top, false));
        pre.extend(rest);
        pre = refinish(pre);
    } else {
        pre = lead;
    }
    let body = if s.chance(4, 5) {
        Some(Body {
            pb: if s.chance(1, 5) { ws(s, 3) } else { String::new() },
            args: if s.chance(1, 5) { args(s, 1, o, 2) } else { vec![] },
            content: content(s, 0, o, Ctx::Plain, true),
            pe: if s.chance(1, 5) { ws(s, 3) } else { String::new() },
        })
    } else {
        None
    };
    let trail = if body.is_some() && s.chance(1, 2) {
        trailing(s, o)
    } else {
        vec![]
    };
    Doc3 { pre, body, trail }
}

fn trailing(s: &mut Src, o: Opts) -> Vec<N> {
    let mut t = content(s, 1, o, Ctx::Top, true);
    // a second document environment belongs to the trailing part
    if s.chance(1, 6) {
        t.push(N::Env {
            label: "document".into(),
            pb: String::new(),
            args: vec![],
            content: content(s, 2, o, Ctx::Plain, true),
            pe: String::new(),
        });
        t = refinish(t);
    }
    t
}

/// Merge neighbouring text/break nodes back into runs and cut them again.
pub fn refinish(ns: Vec<N>) -> Vec<N> {
    let v = ns
        .into_iter()
        .map(|n| match n {
            N::Break(s) => N::Text(s),
            n => n,
        })
        .collect();
    finish(merge_text(v))
}

// ---------------------------------------------------------------- noise

pub const TOKENS: &[&str] = &[
    "a", " ", "\n", "{", "}", "[", "]", "(", ")", "\\", "%", "$", "$$", "\\a", "\\b ", "\n\n",
    "\\begin{a}", "\\end{a}", "\\begin{b}", "\\end{b}", "\\(", "\\)", "\\[", "\\]", "\\begin{document}",
    "\\end{document}", "\\documentclass{c}", "\\documentclass[o,p = q]{c}", "\\%", "\\{", "\\}", "\\\\",
    "\\begin", "\\end", "\\ ", "\\\n", "x y", "é", "\u{a0}", "😀", "\r\n", "\t", "%c\n", "% \\x {\n", ",", "=",
    "\\$", "{a}", "[b]", "(c)", "\\c{d}", "\\a[b]{c}", "1", "\u{2028}", "\0", "\\é", "\\1",
];

/// Unstructured token soup.
pub fn soup(s: &mut Src) -> String {
    let mut o = String::new();
    let all = s.chance(3, 4);
    while !s.done() {
        let t = if all && s.chance(1, 8) {
            s.pick(&dict::get().tokens)
        } else if all {
            TOKENS[s.below(TOKENS.len())]
        } else {
            TOKENS[s.below(16)]
        };
        o.push_str(t);
    }
    o
}

const PAIRS: &[(&str, &str)] = &[
    ("{", "}"),
    ("(", ")"),
    ("[", "]"),
    ("\\c{", "}"),
    ("\\c [x] {", "}"),
    ("\\d(", ")"),
    ("\\e[", "]"),
    ("\\begin{a}", "\\end{a}"),
    ("\\begin{b}[o]", "\\end {b}"),
    ("\\begin\n{document}", "\\end{document}"),
    ("\\(", "\\)"),
    ("\\[", "\\]"),
    ("$", "$"),
    ("$$", "$$"),
    ("\\begin{a}{\n}", "\\end{a}"),
];

/// A few kinds of tokens and brackets, drawn once, many times over: the same
/// things meet again and again.
pub fn swarm(s: &mut Src) -> String {
    let found = &dict::get().tokens;
    let nt = 1 + s.below(5);
    let toks: Vec<&str> = (0..nt)
        .map(|_| match s.below(6) {
            5 => found[s.below(found.len())].as_str(),
            4 => *s.pick(&["\n", " ", ".", "\n\n", "a"]),
            _ => TOKENS[s.below(TOKENS.len())],
        })
        .collect();
    let np = s.below(4);
    let pairs: Vec<_> = (0..np).map(|_| *s.pick(PAIRS)).collect();
    let tidy = s.chance(3, 4);
    let mut o = String::new();
    let mut stack: Vec<&str> = Vec::new();
    while !s.done() {
        let r = s.below(8);
        if r >= 6 && !pairs.is_empty() {
            let (a, b) = pairs[s.below(pairs.len())];
            o.push_str(a);
            stack.push(b);
        } else if r >= 4 && !stack.is_empty() {
            o.push_str(stack.pop().unwrap());
        } else {
            o.push_str(toks[s.below(toks.len())]);
        }
    }
    while let (true, Some(b)) = (tidy, stack.pop()) {
        o.push_str(b);
    }
    o
}

/// Token soup whose brackets, environments and maths are mostly closed.
pub fn sloppy(s: &mut Src) -> String {
    let mut o = String::new();
    let mut stack: Vec<&str> = Vec::new();
    while !s.done() {
        let r = s.below(10);
        if r >= 7 {
            let (a, b) = *s.pick(PAIRS);
            o.push_str(a);
            stack.push(b);
        } else if r >= 4 && !stack.is_empty() {
            o.push_str(stack.pop().unwrap());
        } else {
            let t = *s.pick(&[
                "a", " ", "\n", ".", "\\a", "\\b ", "\n\n", " \n \n", "%c\n", "\\{", "\\}", "\\%", "\\\\", "\\\n",
                "\\ ", "\\$", "é", "\u{a0}", "\t", "%\\x{\n", "\n\n\n", "x", "\\d*", "😀",
            ]);
            o.push_str(t);
        }
    }
    while let Some(b) = stack.pop() {
        o.push_str(b);
    }
    o
}

/// A canonical document's source with a few random edits.
pub fn mutated(s: &mut Src) -> String {
    let k = 1 + s.below(3);
    let edits: Vec<(u16, u16, u16)> = (0..k).map(|_| (s.raw(), s.raw(), s.raw())).collect();
    let mut v: Vec<char> = doc(s, Opts::ALL).print().chars().collect();
    for (op, at, what) in edits {
        let at = at as usize % (v.len() + 1);
        match op % 4 {
            0 => {
                let found = &dict::get().tokens;
                let t = match what as usize % (TOKENS.len() + found.len() / 4) {
                    i if i < TOKENS.len() => TOKENS[i],
                    _ => &found[(what / 7) as usize % found.len()],
                };
                for (i, c) in t.chars().enumerate() {
                    v.insert(at + i, c);
                }
            }
            1 => {
                let n = (what as usize % 4).min(v.len() - at);
                v.drain(at..at + n);
            }
            2 => {
                let n = (what as usize % 8).min(v.len() - at);
                let c: Vec<char> = v[at..at + n].to_vec();
                for (i, c) in c.into_iter().enumerate() {
                    v.insert(at + i, c);
                }
            }
            _ => {
                if at + 1 < v.len() {
                    v.swap(at, at + 1);
                }
            }
        }
    }
    v.into_iter().collect()
}

/// Arbitrary Unicode text, biased to the reserved characters.
pub fn unicode(s: &mut Src) -> String {
    let mut o = String::new();
    while !s.done() {
        let c = match s.below(6) {
            0 => char::from_u32(s.raw() as u32 % 0x80).unwrap(),
            4 => *s.pick(dict::ODD),
            5 => *s.pick(dict::WS),
            1 => *s.pick(&['\\', '{', '}', '(', ')', '[', ']', '%', '$', '\n', ' ']),
            2 => char::from_u32(s.raw() as u32).unwrap_or('\u{fffd}'),
            _ => char::from_u32(0x10000 + s.raw() as u32).unwrap_or('z'),
        };
        o.push(c);
    }
    o
}

pub fn junk(s: &mut Src) -> String {
    let n = s.below(5);
    let mut o = String::new();
    for _ in 0..n {
        let t = match s.below(8) {
            6 => s.pick(&dict::get().tokens).clone(),
            7 => {
                let v = if s.chance(1, 2) { dict::WS } else { dict::ODD };
                s.pick(v).to_string()
            }
            _ => TOKENS[s.below(TOKENS.len())].to_string(),
        };
        o.push_str(&t.replace('\n', ""));
    }
    o
}

/// Comments put into a source, each right before a newline or at the end,
/// never where the `%` would be escaped or a newline would be a command name.
pub fn with_comments(s: &mut Src, src: &str) -> (String, usize) {
    let stripped = refp::strip_comments(src);
    let mut o = String::new();
    let mut esc = false;
    let mut n = 0;
    for c in stripped.chars() {
        if c == '\n' && !esc && s.chance(1, 2) {
            o.push('%');
            o.push_str(&junk(s));
            n += 1;
        }
        o.push(c);
        esc = c == '\\' && !esc;
    }
    if !esc && s.chance(1, 2) {
        o.push('%');
        o.push_str(&junk(s));
        n += 1;
    }
    (o, n)
}

/// Long and deep documents: sizes no hand-written test uses. One construct of
/// some size, in a container, between other things that depend on it.
pub fn big(s: &mut Src) -> String {
    let kind = s.below(BIG);
    let n = *s.pick(&dict::get().sizes);
    sized(s, kind, n)
}

/// The same for sizes that are quick to handle.
pub fn sizable(s: &mut Src) -> String {
    let kind = s.below(BIG);
    let v = &dict::get().sizes;
    let n = *s.pick(&v[..v.partition_point(|n| *n <= 260)]);
    sized(s, kind, n)
}

const BIG: usize = 32;

fn sized(s: &mut Src, kind: usize, n: usize) -> String {
    // nesting depth, and numbers of parts that are costly one by one
    let d = n.min(300);
    let p = n.min(5000);
    let cycle = |v: &[&str], n: usize| (0..n).map(|i| v[i % v.len()]).collect::<String>();
    let nest = |v: &[(&str, &str)], inner: &str, n: usize| {
        let mut o = String::new();
        for i in 0..n {
            o.push_str(v[i % v.len()].0);
        }
        o.push_str(inner);
        for i in (0..n).rev() {
            o.push_str(v[i % v.len()].1);
        }
        o
    };
    let inner = *s.pick(&["x", "\n\\x", "", "a\n\nb", "$x$", "\\y{\n}"]);
    let e = n % 100;
    let mid = match kind {
        0 => "l\n".repeat(n),
        1 => "a".repeat(n),
        2 => "é".repeat(n),
        3 => format!("a{}b", "\n".repeat(n)),
        4 => format!("a{}b", " \n".repeat(n)),
        5 => format!("a\n{}\nb", " ".repeat(n)),
        6 => nest(&[*s.pick(&[("{", "}"), ("(", ")"), ("[", "]")])], inner, d),
        7 => nest(&[("{", "}"), ("(", ")"), ("[", "]")], inner, d),
        8 => nest(&[("\\c{", "}")], inner, d),
        9 => nest(&[("\\c{", "}"), ("\\d[\n", "]"), ("\\e{}(", ")")], inner, d),
        10 => nest(&[("\\begin{a}\n", "\\end{a}")], inner, d.min(150)),
        11 => nest(&[("\\begin{a}[", "]\\end{a}")], inner, d.min(120)),
        12 => nest(&[("\\(", "\\)"), ("\\[", "\\]")], inner, d.min(150)),
        13 => nest(&[("\\[", "\\]")], inner, d.min(150)),
        14 => nest(&[("{", "}"), ("\\c[", "]"), ("\\begin{e}(", ")\\end{e}"), ("\\d{}{\n", "}")], inner, d.min(120)),
        15 => format!("\\c{}", cycle(&["{a}", "[b\n]", "\n(c)", " {\\d}"], p)),
        16 => format!("\\c{}{{a}}\n\\d", s.pick(&[" ", "\n", " \n", "\t"]).repeat(n)),
        17 => format!("\\{}{{a}}\n\\d", "ab".repeat(n)),
        18 => cycle(&["$a$", "\\(b\\)", "\n\n", "\\[\n\\]", "\\x ", "$$\n$$"], p),
        19 => format!("${}$", "\\x\n y".repeat(p)),
        20 => format!("$${}$$", cycle(&["a", "\n", "{b}", "\\x{\n}"], p)),
        21 => cycle(&["\\begin{e}\n\\end{e}", "\\begin{f}[\n]a\\end {f}", "b\n"], p),
        22 => format!("\\begin{{{}}}\n\\end{{{}}}", "n".repeat(n), "n".repeat(n)),
        23 => format!("\\begin{{e}}{}a\n\\end{{e}}", cycle(&["{a}", "[b\n]", "\n(c)"], p)),
        24 => cycle(&["%c\n", "% {\\x\n", "a%\n"], p),
        25 => format!("a%{}\nb", "c\\".repeat(n)),
        26 => cycle(&["{a}", ".", "[\n]", "\n", "\\z", "(b)"], p),
        30 => cycle(&["{}", ".", "[\n]", ".", "()", "\n"], n),
        27 => "\\\\".repeat(p) + &"\\\n".repeat(e),
        28 => format!("\\documentclass[{}z]{{{}}}", cycle(&["k=v,", " a b ,", "x =\n y,"], p), "a".repeat(e)),
        29 => format!("\\begin{{document}}{}\\end{{document}}{}", "w \\x\n".repeat(p), "\\t\n".repeat(e)),
        _ => cycle(&["\\,", "."], n),
    };
    let free = !matches!(kind, 28 | 29);
    let (head, tail) = if free {
        *s.pick(&[
            ("", ""),
            ("", ""),
            ("x\n", ""),
            ("\\begin{document}", "\\end{document}"),
            ("{", "}"),
            ("\\c[", "]"),
            ("\\begin{e}", "\\end{e}"),
            ("\\[", "\\]"),
            ("\\begin{document}\\end{document}", ""),
            ("\\begin{e}{", "}\\end{e}"),
        ])
    } else {
        ("", "")
    };
    let probe = *s.pick(&[
        "",
        "\n\\z{\n\\y}$a\n$ \\begin{g}\n.\\end{g}\n\n.\\w",
        ".{\n}\\z",
        "\\z\n\n\\(\n\\)",
        "\n\\end{h}",
        "\\w\n\\[{",
    ]);
    let last = *s.pick(&["", "\n\\z{\n\\y}.", "\n\n$a$\n\n\\x", "\n\\)"]);
    format!("{head}{mid}{probe}{tail}{last}")
}
