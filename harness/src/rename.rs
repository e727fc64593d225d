//! Relations between a text and a rewritten one: other names and characters
//! give the same tree with those names (C29), more whitespace beside whitespace
//! gives the same tree with that whitespace (C30).

use crate::engine::{Case, R};
use crate::gen;
use crate::equality::{s1, s2, s3, shown, P, T};
use crate::model::newlines;
use crate::relations::any_text;
use crate::src::Src;
use latex_ast::{ast1, ast2, ast3, Error, ErrorType};

/// Whitespace that is no line end.
const BLANK: &[char] = &[
    ' ', '\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}',
    '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}',
    '\u{202f}', '\u{205f}', '\u{3000}',
];
/// Characters no stage names: neither letters, whitespace nor reserved.
const PLAIN: &str = "0123456789.;:!?*+-/<>|@#&^_~'\"`éßŁдЖ漢語ﬁ°¹½→∑😀\u{0}\u{1}\u{7f}\u{ad}\u{200b}\u{200d}\u{feff}\u{301}\u{fffd}\u{10ffff}\u{e000}\u{661}İıſ\u{212a}";

const KEPT: &[&str] = &["begin", "end", "document", "documentclass"];

struct Map {
    letters: (usize, usize),
    blanks: (usize, usize),
    plain: (usize, usize),
    pool: Vec<char>,
}

impl Map {
    fn pick(s: &mut Src) -> Map {
        let pool: Vec<char> = PLAIN.chars().collect();
        let lb = *s.pick(&[1usize, 1, 3, 5, 7, 9, 11, 15]);
        let la = s.below(52);
        let ba = s.below(BLANK.len());
        let bb = *s.pick(&[1usize, 1, 5, 7, 11]);
        let pa = s.below(pool.len());
        let mut pb = 1 + s.below(pool.len() - 1);
        while gcd(pb, pool.len()) != 1 {
            pb = pb % pool.len() + 1;
        }
        Map { letters: (la, lb), blanks: (ba, bb), plain: (pa, pb), pool }
    }
    fn letter(&self, c: char) -> char {
        let i = if c.is_ascii_lowercase() { c as usize - 'a' as usize } else { 26 + c as usize - 'A' as usize };
        let j = (i * self.letters.1 + self.letters.0) % 52;
        (if j < 26 { b'a' + j as u8 } else { b'A' + (j - 26) as u8 }) as char
    }
    /// None: a name would turn into one of those that mean something.
    fn text(&self, t: &str) -> Option<String> {
        let mut o = String::with_capacity(t.len());
        let v: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < v.len() {
            let c = v[i];
            if c.is_ascii_alphabetic() {
                let mut j = i;
                while j < v.len() && v[j].is_ascii_alphabetic() {
                    j += 1;
                }
                let run: String = v[i..j].iter().collect();
                if KEPT.contains(&run.as_str()) {
                    o.push_str(&run);
                } else {
                    let to: String = run.chars().map(|c| self.letter(c)).collect();
                    if KEPT.contains(&to.as_str()) {
                        return None;
                    }
                    o.push_str(&to);
                }
                i = j;
                continue;
            }
            i += 1;
            if let Some(k) = BLANK.iter().position(|b| *b == c) {
                o.push(BLANK[(k * self.blanks.1 + self.blanks.0) % BLANK.len()]);
            } else if let Some(k) = self.pool.iter().position(|b| *b == c) {
                o.push(self.pool[(k * self.plain.1 + self.plain.0) % self.pool.len()]);
            } else {
                o.push(c);
            }
        }
        Some(o)
    }
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Every string of a tree, through `f`.
fn through(ts: &[T], f: &dyn Fn(&str) -> String) -> Vec<T> {
    let args = |a: &[crate::equality::A]| a.iter().map(|(p, k, c)| (f(p), *k, through(c, f))).collect();
    ts.iter()
        .map(|t| T {
            line: t.line,
            v: match &t.v {
                P::Text(x) => P::Text(f(x)),
                P::Break(x) => P::Break(f(x)),
                P::Cmd(l, a) => P::Cmd(f(l), args(a)),
                P::Scope(k, c) => P::Scope(*k, through(c, f)),
                P::Env(l, a, c, b, e) => P::Env(f(l), args(a), through(c, f), f(b), f(e)),
                P::Maths(d, o, c) => P::Maths(*d, *o, through(c, f)),
            },
        })
        .filter(|t| !matches!(&t.v, P::Text(x) if x.is_empty()))
        .collect()
}

/// What a parse gives, in one shape for all stages.
#[derive(PartialEq, Debug)]
enum Seen {
    Tree { parts: Vec<Vec<T>>, words: Vec<Vec<String>> },
    Refused { line: u32, kind: String, name: String },
}

fn refused(e: Error) -> Seen {
    let (kind, name) = match e.r#type {
        ErrorType::UnexpectedEnd(n) => ("UnexpectedEnd".to_string(), n),
        ErrorType::UnclosedEnvironment(n) => ("UnclosedEnvironment".to_string(), n),
        other => (format!("{other:?}"), String::new()),
    };
    Seen::Refused { line: e.line, kind, name }
}

fn seen(t: &str) -> [Seen; 3] {
    let one = |v: Vec<T>, text: String| Seen::Tree { parts: vec![v], words: vec![vec![text]] };
    [
        match t.parse::<ast1::Document>() {
            Ok(d) => one(s1::look(d.chunks()), d.to_string()),
            Err(e) => refused(e),
        },
        match t.parse::<ast2::Document>() {
            Ok(d) => one(s2::look(d.chunks()), d.to_string()),
            Err(e) => refused(e),
        },
        match t.parse::<ast3::Document>() {
            Ok(d) => {
                let text = d.to_string();
                let (class, options, pre, body, args, b, e, trailing) = d.decompose();
                let args = P::Cmd(String::new(), s3::look_args(&args));
                let mut words = vec![vec![b, e, text], class.into_iter().collect()];
                for (k, v, rest, end) in options {
                    let mut w = vec![k, v];
                    if let Some((x, y, z)) = rest {
                        w.extend([x, y, z]);
                    }
                    w.push(end);
                    words.push(w);
                }
                let args = vec![T { line: 0, v: args }];
                Seen::Tree { parts: vec![s3::look(&pre), s3::look(&body), args, s3::look(&trailing)], words }
            }
            Err(e) => refused(e),
        },
    ]
}

fn changed(x: &Seen, f: &dyn Fn(&str) -> String) -> Seen {
    match x {
        Seen::Tree { parts, words } => Seen::Tree {
            parts: parts.iter().map(|p| through(p, f)).collect(),
            words: words.iter().map(|w| w.iter().map(|w| f(w)).collect()).collect(),
        },
        Seen::Refused { line, kind, name } => Seen::Refused { line: *line, kind: kind.clone(), name: f(name) },
    }
}

/// `old`, rewritten by `f`, is `new` at every stage; both compared through `g`.
fn alike(old: &str, new: &str, f: &dyn Fn(&str) -> String, g: &dyn Fn(&str) -> String) -> Result<bool, String> {
    let mut any = false;
    for (k, (a, b)) in seen(old).iter().zip(seen(new).iter()).enumerate() {
        let (want, got) = (changed(a, f), changed(b, g));
        any |= matches!(a, Seen::Tree { .. });
        if want != got {
            return Err(format!(
                "stage {}: {old:?} gives {a:?}, but rewritten as {new:?} it gives {b:?}",
                k + 1
            ));
        }
    }
    Ok(any)
}

/// C29
pub fn names(s: &mut Src) -> R {
    let m = Map::pick(s);
    let old = any_text(s);
    let Some(new) = m.text(&old) else {
        return Ok(Case::new(&old, false).label(true, "a name became a meaningful one: left out"));
    };
    let f = |t: &str| m.text(t).unwrap_or_else(|| format!("a name of the source, and yet not: {t}"));
    let any = alike(&old, &new, &f, &|t| t.to_string())?;
    let nt = new != old && old.chars().any(|c| matches!(c, '\\' | '{' | '(' | '[' | '$'));
    Ok(Case::new(format!("{old}\u{1f}{new}"), nt)
        .label(any, "accepted at some stage")
        .label(old.chars().map(char::len_utf8).ne(new.chars().map(char::len_utf8)), "other lengths in bytes"))
}

/// A begin or end whose name holds whitespace: there, more of it is another name.
fn blank_names(ts: &[T]) -> bool {
    ts.iter().any(|t| match &t.v {
        P::Cmd(l, a) => {
            let name = matches!(l.as_str(), "begin" | "end")
                && a.first().is_some_and(|a| shown(&a.2).contains(char::is_whitespace));
            name || a.iter().any(|a| blank_names(&a.2))
        }
        P::Scope(_, c) => blank_names(c),
        _ => false,
    })
}

/// C30
pub fn blanks(s: &mut Src) -> R {
    let windows = s.chance(1, 2);
    let which = s.below(BLANK.len());
    let (dense, times) = (s.chance(1, 3), 1 + s.below(3));
    let bits: Vec<u16> = (0..8).map(|_| s.raw()).collect();
    let bit = |k: usize| dense || bits[k / 16 % 8] >> (k % 16) & 1 == 1;
    let old = any_text(s);
    let Some(mark) = (if windows { vec!['\r'] } else { BLANK.to_vec() })
        .into_iter()
        .cycle()
        .skip(which)
        .take(BLANK.len())
        .find(|b| !old.contains(*b))
    else {
        return Ok(Case::new(&old, false));
    };
    if old.parse::<ast1::Document>().is_ok_and(|d| blank_names(&s1::look(d.chunks()))) {
        return Ok(Case::new(&old, false).label(true, "an environment's name holds whitespace: left out"));
    }
    let mut new = String::new();
    let (mut back, mut put) = (false, 0);
    for (k, c) in old.chars().enumerate() {
        let here = !back && if windows { c == '\n' } else { c.is_whitespace() && bit(k) };
        let n = if !here { 0 } else if windows { 1 } else { times };
        let before = windows || k % 3 < 2;
        put += usize::from(here);
        let extra: String = std::iter::repeat(mark).take(n).collect();
        new.push_str(if before { &extra } else { "" });
        new.push(c);
        new.push_str(if before { "" } else { &extra });
        back = c == '\\' && !back;
    }
    let strip = |t: &str| t.replace(mark, "");
    let any = alike(&old, &new, &|t| t.to_string(), &strip)?;
    Ok(Case::new(&new, put > 0 && old.chars().any(|c| matches!(c, '\\' | '{' | '(' | '[' | '$')))
        .label(windows, "Windows line ends")
        .label(any, "accepted at some stage")
        .label(put > 3, "more than three places"))
}

/// Every node of a list starts where what is before it ends.
fn in_line(ts: &[T]) -> Result<(), String> {
    let mut at = None;
    for t in ts {
        if at.is_some_and(|a| a != t.line as usize) {
            return Err(format!("a node is on line {} after nodes that end on line {at:?}", t.line));
        }
        at = Some(t.line as usize + newlines(&shown(std::slice::from_ref(t))) as usize);
        let args: &[_] = match &t.v {
            P::Cmd(_, a) => a,
            P::Env(_, a, c, _, _) => {
                in_line(c)?;
                a
            }
            P::Scope(_, c) => {
                in_line(c)?;
                &[]
            }
            _ => &[],
        };
        for a in args {
            in_line(&a.2)?;
        }
    }
    Ok(())
}

/// The same tree without its line numbers.
fn unlined(ts: &[T]) -> Vec<T> {
    let args = |a: &[crate::equality::A]| a.iter().map(|(p, k, c)| (p.clone(), *k, unlined(c))).collect();
    ts.iter()
        .map(|t| T {
            line: 0,
            v: match &t.v {
                P::Cmd(l, a) => P::Cmd(l.clone(), args(a)),
                P::Scope(k, c) => P::Scope(*k, unlined(c)),
                P::Env(l, a, c, b, e) => P::Env(l.clone(), args(a), unlined(c), b.clone(), e.clone()),
                v => v.clone(),
            },
        })
        .collect()
}

/// C31
pub fn blank_lines(s: &mut Src) -> R {
    let (how, little, some, special, much) =
        (s.below(24), 1 + s.below(4), 1 + s.below(300), gen::size(s, 5000), *s.pick(&[32_766, 65_534, 65_536]));
    let which = s.below(64);
    // some end in the middle of something
    let tail = match s.below(3) {
        0 => *s.pick(&[
            "\\", "\n\n\\", "\n\n\\a", "\n\n\\a{", "\n\n{", "\n\n$", "\n\n\\(", "\n\n\\begin{a}", "\n\n%\\", "\\a\n\n",
            "\n\n\\end", "\n\n)\\ ", "\n\n\\a[b] ", "\\a{\n\n}",
        ]),
        _ => "",
    };
    let old = any_text(s) + tail;
    // blank lines: two newlines with nothing but whitespace in between, the
    // first of them not the name of a command
    let v: Vec<char> = old.chars().collect();
    let mut spots = vec![];
    let (mut back, mut open) = (false, None);
    for (i, c) in v.iter().enumerate() {
        if *c == '\n' {
            match open {
                Some(_) => spots.push(i),
                None => open = Some(()).filter(|_| !back),
            }
        } else if !c.is_whitespace() {
            open = None;
        }
        back = *c == '\\' && !back;
    }
    if spots.is_empty() || old.parse::<ast1::Document>().is_ok_and(|d| blank_names(&s1::look(d.chunks()))) {
        return Ok(Case::new(&old, false));
    }
    let at = spots[which % spots.len()];
    let last = newlines(&old) as usize + 1;
    let k: usize = match how {
        0..=7 => little,
        8..=10 => some,
        11..=14 => special.max(1),
        // the text ends on a special line
        15..=22 if special > last => special - last,
        23 => much,
        _ => little,
    };
    let mut new: String = v[..at].iter().collect();
    // the line the added lines begin on
    let line = newlines(&new) + 1;
    new.extend(std::iter::repeat('\n').take(k));
    new.extend(&v[at..]);
    // more than one newline in a stretch of whitespace: two
    let few = |t: &str| {
        let (mut o, mut n) = (String::new(), 0);
        for c in t.chars() {
            n = if c == '\n' { n + 1 } else if c.is_whitespace() { n } else { 0 };
            if c != '\n' || n <= 2 {
                o.push(c);
            }
        }
        o
    };
    let say = |t: &str| if k > 20 { format!("({k} newlines put on line {line})") } else { format!("{t:?}") };
    let mut any = false;
    for (n, (a, b)) in seen(&old).iter().zip(seen(&new).iter()).enumerate() {
        let stage = n + 1;
        match (a, b) {
            (Seen::Tree { parts: p, words: w }, Seen::Tree { parts: q, words: x }) => {
                any = true;
                let all = |v: &Vec<Vec<T>>| v.iter().map(|t| unlined(&through(t, &few))).collect::<Vec<_>>();
                let text = |w: &Vec<Vec<String>>| w.iter().map(|v| v.iter().map(|t| few(t)).collect()).collect::<Vec<Vec<_>>>();
                if all(p) != all(q) || text(w) != text(x) {
                    return Err(format!("stage {stage}: {old:?} gives another tree with more blank lines, {}", say(&new)));
                }
                let count = |v: &Vec<Vec<String>>| v[0].last().map_or(0, |t| newlines(t) as usize);
                if count(w) + k != count(x) {
                    return Err(format!("stage {stage}: of {old:?} with more blank lines, {}, some are lost", say(&new)));
                }
                for t in q {
                    in_line(t).map_err(|e| format!("stage {stage}: {old:?} with more blank lines, {}: {e}", say(&new)))?;
                }
            }
            (
                Seen::Refused { line: l, kind: e, name: f },
                Seen::Refused { line: m, kind: g, name: h },
            ) => {
                let (l, m, k) = (*l as usize, *m as usize, k as usize);
                let moved = if l < line as usize {
                    l == m
                } else if l > line as usize {
                    l + k == m
                } else {
                    l == m || l + k == m
                };
                if e != g || few(f) != few(h) || !moved {
                    return Err(format!(
                        "stage {stage}: {old:?} is refused as {a:?}, with {k} more newlines on line {line} as {b:?}"
                    ));
                }
            }
            _ => {
                return Err(format!(
                    "stage {stage}: {old:?} is accepted or not, with more blank lines, {}, it is the other way",
                    say(&new)
                ))
            }
        }
    }
    let nt = old.chars().any(|c| matches!(c, '\\' | '{' | '(' | '[' | '$'));
    Ok(Case::new(format!("{k} newlines at {at} of {old}"), nt)
        .label(any, "accepted at some stage")
        .label(!any, "refused at every stage")
        .label(k > 255, "more than 255 lines")
        .label(k > 30_000, "more than 30 000 lines"))
}
