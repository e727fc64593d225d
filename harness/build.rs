//! A fuzzing dictionary: the literals of the crate under test (its tests
//! aside). A value the code treats specially is thereby a value the
//! generators know. Only inputs depend on it, never a verdict.

use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            if p.file_name().is_some_and(|n| n != "tests") {
                files(&p, out);
            }
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

#[derive(Default)]
struct Dict {
    strs: BTreeSet<String>,
    chars: BTreeSet<char>,
    nums: BTreeSet<u64>,
}

/// An escape sequence, just after its backslash: the character and what follows.
fn escape(v: &[char], i: usize) -> (Option<char>, usize) {
    match v.get(i) {
        Some('n') => (Some('\n'), i + 1),
        Some('t') => (Some('\t'), i + 1),
        Some('r') => (Some('\r'), i + 1),
        Some('0') => (Some('\0'), i + 1),
        Some('x') => {
            let h: String = v[i + 1..].iter().take(2).collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), i + 3)
        }
        Some('u') => {
            let h: String = v[i + 1..].iter().skip(1).take_while(|c| **c != '}').collect();
            let n = h.chars().count();
            (u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32), i + 3 + n)
        }
        Some('\n') => (None, i + 1),
        Some(c) => (Some(*c), i + 1),
        None => (None, i + 1),
    }
}

fn scan(text: &str, d: &mut Dict) {
    let v: Vec<char> = text.chars().collect();
    let at = |i: usize| v.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        let before = if i == 0 { ' ' } else { v[i - 1] };
        let ident = before.is_alphanumeric() || before == '_';
        if c == '/' && at(i + 1) == '/' {
            while i < v.len() && v[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < v.len() && !(v[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if c == 'r' && !ident && (at(i + 1) == '"' || at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')) {
            let mut h = 0;
            while at(i + 1 + h) == '#' {
                h += 1;
            }
            if at(i + 1 + h) != '"' {
                i += 1;
                continue;
            }
            i += 2 + h;
            let mut s = String::new();
            while i < v.len() && !(v[i] == '"' && (1..=h).all(|k| at(i + k) == '#')) {
                s.push(v[i]);
                i += 1;
            }
            i += 1 + h;
            d.strs.insert(s);
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < v.len() && v[i] != '"' {
                if v[i] == '\\' {
                    let (e, n) = escape(&v, i + 1);
                    s.extend(e);
                    i = n;
                } else {
                    s.push(v[i]);
                    i += 1;
                }
            }
            i += 1;
            d.strs.insert(s);
        } else if c == '\'' {
            if at(i + 1) == '\\' {
                let (e, n) = escape(&v, i + 2);
                d.chars.extend(e);
                i = n + 1;
            } else if at(i + 2) == '\'' {
                d.chars.insert(at(i + 1));
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && !ident {
            let mut s = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                s.push(v[i]);
                i += 1;
            }
            let s = s.replace('_', "");
            let n = if let Some(h) = s.strip_prefix("0x") {
                let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                u64::from_str_radix(&h, 16).ok()
            } else {
                let h: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                h.parse().ok()
            };
            d.nums.extend(n);
        } else {
            i += 1;
        }
    }
}

fn main() {
    let toml = std::fs::read_to_string("Cargo.toml").unwrap();
    let line = toml.lines().find(|l| l.trim_start().starts_with("latex-ast")).unwrap();
    let repo = line.split("path = \"").nth(1).unwrap().split('"').next().unwrap();
    let src = Path::new(repo).join("src");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=Cargo.toml");
    println!("cargo:rerun-if-changed={}", src.display());
    let mut v = Vec::new();
    files(&src, &mut v);
    v.sort();
    let mut d = Dict::default();
    for f in v {
        println!("cargo:rerun-if-changed={}", f.display());
        scan(&std::fs::read_to_string(&f).unwrap_or_default(), &mut d);
    }
    // pieces of strings too: what a format or a path check is made of
    for s in d.strs.clone() {
        if s.chars().count() > 24 || s.is_empty() {
            d.strs.remove(&s);
        }
    }
    let out = Path::new(&std::env::var("OUT_DIR").unwrap()).join("dict.rs");
    std::fs::write(
        out,
        format!(
            "pub const STRS: &[&str] = &{:?};\npub const CHARS: &[char] = &{:?};\npub const NUMS: &[u64] = &{:?};\n",
            d.strs.iter().collect::<Vec<_>>(),
            d.chars.iter().collect::<Vec<_>>(),
            d.nums.iter().collect::<Vec<_>>()
        ),
    )
    .unwrap();
}
