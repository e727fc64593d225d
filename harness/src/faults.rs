//! C14: one fault put into a well-formed document; the kind and the absolute
//! line of the error are known by construction.

use crate::engine::{Case, R};
use crate::gen;
use crate::model::*;
use crate::refp;
use crate::src::Src;
use latex_ast::{ast1, ast2, ast3, Error, ErrorType};

/// Marks the offending construct in the printed source; removed before parsing.
pub const MARK: char = '\u{E000}';

#[derive(Clone, Debug, Default)]
pub struct Cx {
    /// kinds of all enclosing brackets
    brackets: Vec<K>,
    /// depth of enclosing constructs
    depth: usize,
    /// the container, maths aside, is the content of an environment
    in_env: bool,
    /// maths delimiters around, up to the nearest other container
    maths: Vec<(bool, bool)>,
    /// 0 preamble, 1 body, 2 trailing; only set on the outermost containers
    top: Option<u8>,
    /// names of the environments around, up to the nearest bracket
    envs: Vec<String>,
    /// the container is the content of an environment, no maths in between
    env_content: bool,
}

type F<'a> = dyn FnMut(&mut Vec<N>, &Cx) + 'a;

fn args(a: &mut [Arg], cx: &Cx, f: &mut F) {
    for a in a {
        let mut c = cx.clone();
        c.brackets.push(a.k);
        c.in_env = false;
        c.maths.clear();
        c.top = None;
        c.depth += 1;
        c.envs.clear();
        c.env_content = false;
        container(&mut a.content, &c, f);
    }
}

fn container(ns: &mut Vec<N>, cx: &Cx, f: &mut F) {
    f(ns, cx);
    for n in ns.iter_mut() {
        let mut c = cx.clone();
        c.top = None;
        c.depth += 1;
        c.env_content = false;
        match n {
            N::Cmd { args: a, .. } => args(a, cx, f),
            N::Scope(k, content) => {
                c.brackets.push(*k);
                c.in_env = false;
                c.envs.clear();
                c.maths.clear();
                container(content, &c, f);
            }
            N::Env {
                label,
                args: a,
                content,
                ..
            } => {
                args(a, cx, f);
                c.in_env = true;
                c.env_content = true;
                c.envs.push(label.clone());
                c.maths.clear();
                container(content, &c, f);
            }
            N::Maths {
                dollars,
                display,
                content,
            } => {
                c.maths.push((*dollars, *display));
                container(content, &c, f);
            }
            _ => {}
        }
    }
}

pub fn containers(d: &mut Doc3, f: &mut F) {
    let cx = Cx {
        top: Some(0),
        ..Default::default()
    };
    container(&mut d.pre, &cx, f);
    if let Some(b) = &mut d.body {
        let cx = Cx::default();
        args(&mut b.args, &cx, f);
        let cx = Cx {
            top: Some(1),
            in_env: true,
            env_content: true,
            envs: vec!["document".into()],
            ..Default::default()
        };
        container(&mut b.content, &cx, f);
    }
    let cx = Cx {
        top: Some(2),
        ..Default::default()
    };
    container(&mut d.trail, &cx, f);
}

fn has_dollars(ns: &[N]) -> bool {
    ns.iter().any(|n| match n {
        N::Maths { dollars, content, .. } => *dollars || has_dollars(content),
        N::Text(t) => t.contains('$'),
        _ => false,
    })
}

/// The fault: source text (with MARK), the error, and the first stage to see it.
struct Fault {
    raw: String,
    error: ErrorType,
    stage: u8,
    name: &'static str,
    /// the offending construct is what follows the container
    at_end: bool,
}

fn free_kind(s: &mut Src, cx: &Cx) -> Option<K> {
    let v: Vec<K> = K::ALL.into_iter().filter(|k| !cx.brackets.contains(k)).collect();
    if v.is_empty() {
        None
    } else {
        Some(*s.pick(&v))
    }
}

/// Whitespace and newlines that may stand between parts of a fault.
fn gap(s: &mut Src) -> String {
    if s.chance(1, 3) {
        gen::ws(s, 3)
    } else {
        String::new()
    }
}

fn some_args(s: &mut Src) -> String {
    let n = s.below(3);
    let mut o = String::new();
    for _ in 0..n {
        let g = gap(s);
        o.push_str(&g);
        o.push_str(s.pick(&["{x}", "[y\n]", "(z)", "{}", "{\\q\n}", "{{a}\n(b)}"]));
    }
    o
}

fn fault(s: &mut Src, which: usize, cx: &Cx, later: &[N], class_free: bool) -> Option<Fault> {
    let m = MARK;
    let f = |raw: String, error, stage, name| {
        Some(Fault {
            raw: format!(" .{raw}"),
            error,
            stage,
            name,
            at_end: false,
        })
    };
    match which {
        0 => {
            let k = free_kind(s, cx)?;
            let g = gap(s);
            f(
                format!("{m}{}{g}x", k.open()),
                ErrorType::UnclosedScope(k.s1()),
                1,
                "unclosed scope",
            )
        }
        1 => {
            let k = free_kind(s, cx)?;
            let (a, g, h) = (some_args(s), gap(s), gap(s));
            f(
                format!("{m}\\c{a}{g}{}{h}x", k.open()),
                ErrorType::UnclosedArgument(k.s1()),
                1,
                "unclosed argument",
            )
        }
        2 => {
            let k = free_kind(s, cx)?;
            let a = some_args(s);
            f(
                format!("\\c{a}{m}{}", k.close()),
                ErrorType::UnexpectedClosing(k.s1()),
                1,
                "unexpected closing",
            )
        }
        3 => {
            let c = *s.pick(&["begin", "end"]);
            let g = gap(s);
            let t = match s.below(3) {
                0 => ".".to_string(),
                1 => "[a]".to_string(),
                _ => "(a)\n{b}".to_string(),
            };
            f(
                format!("{m}\\{c}{g} {t} ."),
                ErrorType::NoEnvironmentLabel,
                2,
                "no environment label",
            )
        }
        4 => {
            let (name, g) = (*s.pick(&["zz", "z\\q z", "z{y}\n", ""]), gap(s));
            if name.is_empty() && cx.in_env {
                return None;
            }
            f(
                format!("{m}\\end{g}{{{name}}} ."),
                ErrorType::UnexpectedEnd(name.into()),
                2,
                "unexpected end",
            )
        }
        5 => {
            if cx.in_env {
                return None;
            }
            let (name, g, a) = (*s.pick(&["zz", "z\\q z", "z{y}\n"]), gap(s), some_args(s));
            f(
                format!("{m}\\begin{g}{{{name}}}{a} ."),
                ErrorType::UnclosedEnvironment(name.into()),
                2,
                "unclosed environment",
            )
        }
        6 => {
            let (g, h, a) = (gap(s), gap(s), some_args(s));
            let inner = *s.pick(&["", ".", "\n.", "\\x{\n}", "\\begin{y}\n.\\end{y}"]);
            f(
                format!("\\begin{g}{{zz}}{a}.{inner}{m}\\end{h}{{zz}}{h}[x]{a}."),
                ErrorType::TooManyArgsEnd,
                2,
                "too many arguments of end",
            )
        }
        7 => {
            let open: Vec<bool> = [false, true]
                .into_iter()
                .filter(|d| !cx.maths.contains(&(false, *d)))
                .collect();
            if open.is_empty() {
                return None;
            }
            let d = *s.pick(&open);
            f(
                format!("{m}\\{}", if d { "]" } else { ")" }),
                ErrorType::UnexpectedMathsEnd,
                3,
                "maths closed but not opened",
            )
        }
        8 => {
            let open: Vec<bool> = [false, true]
                .into_iter()
                .filter(|d| !cx.maths.contains(&(false, *d)))
                .collect();
            if open.is_empty() {
                return None;
            }
            let d = *s.pick(&open);
            f(
                format!("{m}\\{}", if d { "[" } else { "(" }),
                ErrorType::UnclosedMaths,
                3,
                "bracket maths opened but not closed",
            )
        }
        9 => {
            if cx.maths.iter().any(|x| x.0) || has_dollars(later) {
                return None;
            }
            let g = gap(s);
            let t = match s.below(5) {
                0 => format!("$ {g}."),
                1 => format!("$$ {g}."),
                2 => format!("$$a{g}$b{g}$$ ."),
                3 => format!("$a{g}\\x{{y}}{g} ."),
                _ => format!("$$a{g}\\x{{y}}{g}$ ."),
            };
            f(format!("{m}{t}"), ErrorType::UnclosedMaths, 3, "dollar maths opened but not closed")
        }
        10 => {
            if cx.top != Some(0) || !class_free {
                return None;
            }
            let (g, h, a) = (gap(s), gap(s), gap(s));
            f(
                format!("\\documentclass{g}{{a{h}}} .{h}{m}\\documentclass{a}{{b}}."),
                ErrorType::DoubleDocumentClass,
                3,
                "second documentclass",
            )
        }
        12 => {
            // the end of an outer environment stands inside an inner one
            let (inner, outer) = cx.envs.split_last()?;
            let names: Vec<&String> = outer.iter().filter(|n| *n != inner).collect();
            if names.is_empty() {
                return None;
            }
            let (name, g) = (*s.pick(&names), gap(s));
            f(
                format!("{m}\\end{g}{{{name}}} ."),
                ErrorType::UnexpectedEnd(name.clone()),
                2,
                "end of an outer environment",
            )
        }
        13 => {
            // an environment left open inside another one: the end of that is unexpected
            if !cx.env_content {
                return None;
            }
            let (g, a) = (gap(s), some_args(s));
            let name = cx.envs.last()?.clone();
            let open = *s.pick(&["zz", "zz", "z\\q z", "z{y}\n"]);
            let mut x = f(
                format!("\\begin{g}{{{open}}}{a} ."),
                ErrorType::UnexpectedEnd(name),
                2,
                "environment left open inside another",
            )?;
            x.at_end = true;
            Some(x)
        }
        14 => {
            // two environments overlap
            let (g, h, a) = (gap(s), gap(s), some_args(s));
            f(
                format!("\\begin{g}{{zz}}{a}.\\begin{{zy}}{h}.{m}\\end{h}{{zz}}.\\end{{zy}} ."),
                ErrorType::UnexpectedEnd("zz".into()),
                2,
                "overlapping environments",
            )
        }
        15 => {
            // maths closed by the other notation
            let (g, d, e) = (gap(s), s.chance(1, 2), s.chance(1, 2));
            let (o, c) = if d { ("\\[", "\\]") } else { ("\\(", "\\)") };
            let wrong = match (e, d) {
                (true, _) => "$",
                (_, true) => "\\)",
                _ => "\\]",
            };
            if e && (cx.maths.iter().any(|x| x.0) || has_dollars(later)) {
                return None;
            }
            if !e && cx.maths.contains(&(false, !d)) {
                return None;
            }
            if e {
                // the dollar opens, the bracket closing it is inside
                f(
                    format!("{o}a{g}{m}{wrong}b{c} ."),
                    ErrorType::UnclosedMaths,
                    3,
                    "maths overlapping dollars",
                )
            } else {
                f(
                    format!("{o}a{g}{m}{wrong}b{c} ."),
                    ErrorType::UnexpectedMathsEnd,
                    3,
                    "maths closed by the other kind",
                )
            }
        }
        _ => {
            if cx.top != Some(0) || !class_free {
                return None;
            }
            let (g, h) = (gap(s), gap(s));
            let o = *s.pick(&["", "[x]", "(\n)", "[\n=,]"]);
            f(
                format!("{m}\\documentclass{g}{{a}}{h}{o}{h}{{b}}."),
                ErrorType::TooManyArgsDocumentClass,
                3,
                "second class name",
            )
        }
    }
}

pub const FAULTS: usize = 17;

fn has_class(ns: &[N]) -> bool {
    ns.iter().any(|n| match n {
        N::Cmd { label, .. } => label == "documentclass",
        N::Maths { content, .. } => has_class(content),
        _ => false,
    })
}

pub fn inject(s: &mut Src) -> R {
    let which = s.below(FAULTS);
    let (want_at, want_index) = (s.raw() as usize, s.raw() as usize);
    let comments = s.chance(1, 3);
    let lead = *s.pick(&[0usize, 0, 0, 1, 7, 300]);
    let fr: Vec<u16> = (0..24).map(|_| s.raw()).collect();
    let mut d = gen::doc(s, gen::Opts::ALL);
    let class_free = !has_class(&lower32(&d.pre));
    let mut total = 0;
    containers(&mut d, &mut |_, cx| {
        if cx.top != Some(2) {
            total += 1
        }
    });
    // the trailing part only counts when there is a body
    let trail = d.body.is_some();
    if trail {
        total += 1;
    }
    let mut made = None;
    for attempt in 0..total {
        let at = (want_at + attempt) % total;
        let mut i = 0;
        containers(&mut d, &mut |ns, cx| {
            if cx.top == Some(2) && !trail {
                return;
            }
            if i == at && made.is_none() {
                let ix = want_index % (ns.len() + 1);
                if let Some(f) = fault(&mut Src::new(&fr), which, cx, &ns[ix..], class_free) {
                    ns.insert(ix, N::Raw(f.raw.clone()));
                    if f.at_end {
                        ns.push(N::Raw(MARK.into()));
                    }
                    made = Some((f, cx.clone()));
                }
            }
            i += 1;
        });
        if made.is_some() {
            break;
        }
    }
    let Some((f, cx)) = made else {
        return Ok(Case::new("", false).label(true, "no place for the fault"));
    };
    let mut text = "l\n".repeat(lead);
    text.push_str(&d.print());
    if comments {
        text = gen::with_comments(s, &text).0;
    }
    let at = text.find(MARK).expect("mark");
    let line = newlines(&text[..at]) + 1;
    let text = text.replace(MARK, "");
    let want = Error::new(line, f.error);
    let judge = |stage: u8, r: Result<(), Error>| -> Result<(), String> {
        if let Err(e) = &r {
            tells(e)?;
        }
        match r {
            Ok(()) if f.stage <= stage => Err(format!(
                "stage {stage} accepts a document with a fault ({}) on line {line}: {text:?}",
                f.name
            )),
            Err(e) if f.stage > stage => Err(format!(
                "stage {stage} rejects with {e:?} a document whose only fault ({}) is a matter of stage {}: {text:?}",
                f.name, f.stage
            )),
            Err(e) if e != want => Err(format!(
                "stage {stage} reports {e:?}, the fault ({}) is {want:?}: {text:?}",
                f.name
            )),
            _ => Ok(()),
        }
    };
    judge(1, text.parse::<ast1::Document>().map(|_| ()))?;
    judge(2, text.parse::<ast2::Document>().map(|_| ()))?;
    judge(3, text.parse::<ast3::Document>().map(|_| ()))?;
    Ok(Case::new(text, true)
        .label(true, f.name)
        .label(line > 1, "not on the first line")
        .label(cx.depth >= 2, "two or more levels deep")
        .label(!cx.maths.is_empty(), "inside maths"))
}

/// Acceptance agrees with the reference reader at every stage.
pub fn agreement(src: &str) -> R {
    let w1 = refp::parse1(src);
    let w2 = w1.clone().and_then(|n| refp::stage2(&n));
    let w3 = w2.clone().and_then(|n| refp::sections(&n));
    let one = |stage: u8, got: &Option<Error>, want: Option<&refp::Bad>| match (got, want) {
        (None, Some(b)) => Err(format!("stage {stage} accepts {src:?}, which breaks a rule: {b:?}")),
        (Some(e), None) => Err(format!("stage {stage} rejects the well-formed {src:?} with {e:?}")),
        _ => Ok(()),
    };
    let plain = refp::strip_comments(src);
    let errs = errors(src);
    one(1, &errs[0], w1.as_ref().err())?;
    one(2, &errs[1], w2.as_ref().err())?;
    one(3, &errs[2], w3.as_ref().err())?;
    for (i, e) in errs.iter().enumerate() {
        if let Some(e) = e {
            tells(e)?;
            offending(&plain, e).map_err(|m| format!("stage {} reports {e:?} for {src:?}: {m}", i + 1))?;
            if i > 0 && errs[i - 1].is_some() && errs[i - 1].as_ref() != Some(e) {
                return Err(format!("stage {} reports {e:?} for {src:?}, the stage before {:?}", i + 1, errs[i - 1]));
            }
        }
    }
    if errs[2].is_some() {
        // the same fault further down is reported there
        let lead = ["x\n", ".\n\n  y\n", "\r\n{a\n}\n"][src.len() % 3];
        let n = newlines(lead);
        for (i, (a, b)) in errs.iter().zip(errors(&format!("{lead}{src}"))).enumerate() {
            let same = match (a, &b) {
                (None, None) => true,
                (Some(a), Some(b)) => a.line + n == b.line && a.r#type == b.r#type,
                _ => false,
            };
            if !same {
                return Err(format!("stage {} reports {a:?} for {src:?}, but {b:?} with {lead:?} in front of it", i + 1));
            }
        }
    }
    let nt = src.chars().any(|c| matches!(c, '\\' | '$' | '{' | '(' | '['));
    Ok(Case::new(src, nt)
        .label(w1.is_err(), "rejected at stage 1")
        .label(w1.is_ok() && w2.is_err(), "rejected at stage 2")
        .label(w2.is_ok() && w3.is_err(), "rejected at stage 3")
        .label(w3.is_ok(), "accepted at every stage"))
}

fn k1(k: &ast1::ScopeVariant) -> K {
    K::ALL.into_iter().find(|x| x.s1() == *k).unwrap()
}

fn errors(src: &str) -> [Option<Error>; 3] {
    [
        src.parse::<ast1::Document>().err(),
        src.parse::<ast2::Document>().err(),
        src.parse::<ast3::Document>().err(),
    ]
}

/// The message of an error holds the number of its line.
fn tells(e: &Error) -> Result<(), String> {
    let message = e.to_string();
    if message.split(|c: char| !c.is_ascii_digit()).any(|n| n == e.line.to_string()) {
        Ok(())
    } else {
        Err(format!("the message {message:?} of the error {e:?} does not tell its line"))
    }
}

/// The line an error names exists and holds the beginning of something the
/// error can be about.
fn offending(plain: &str, e: &Error) -> Result<(), String> {
    let Some(line) = (e.line as usize).checked_sub(1).and_then(|l| plain.split('\n').nth(l)) else {
        return Err("there is no such line".into());
    };
    let holds = |s: &str| line.contains(s);
    let ok = match &e.r#type {
        ErrorType::UnclosedScope(k) => line.contains(k1(k).open()),
        ErrorType::UnclosedArgument(_) => holds("\\"),
        ErrorType::UnexpectedClosing(k) => line.contains(k1(k).close()),
        ErrorType::NoEnvironmentLabel => holds("\\begin") || holds("\\end"),
        ErrorType::UnexpectedEnd(_) | ErrorType::TooManyArgsEnd => holds("\\end"),
        ErrorType::UnclosedEnvironment(_) => holds("\\begin"),
        ErrorType::UnexpectedMathsEnd => holds("\\)") || holds("\\]"),
        ErrorType::UnclosedMaths => holds("$") || holds("\\(") || holds("\\["),
        ErrorType::DoubleDocumentClass | ErrorType::TooManyArgsDocumentClass => holds("\\documentclass"),
        ErrorType::Internal(_) => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("nothing of the kind is on that line, {line:?}"))
    }
}
