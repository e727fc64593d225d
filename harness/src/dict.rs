//! Words the generators know: LaTeX vocabulary, odd characters, sizes, and the
//! literals found in the crate (see build.rs).

use std::sync::OnceLock;

mod found {
    include!(concat!(env!("OUT_DIR"), "/dict.rs"));
}

const COMMANDS: &[&str] = &[
    "section", "subsection", "chapter", "paragraph", "par", "label", "ref", "cite", "footnote", "emph", "textit",
    "texttt", "sum", "int", "sqrt", "left", "right", "big", "Big", "mathbb", "mathrm", "text", "mbox", "item",
    "newcommand", "renewcommand", "def", "let", "input", "include", "includegraphics", "usepackage", "title",
    "author", "date", "maketitle", "tableofcontents", "caption", "centering", "hline", "newline", "newpage",
    "hspace", "vspace", "noindent", "verb", "lstinline", "makeatletter", "iffalse", "fi", "else", "relax",
    "beginning", "ending", "endgroup", "begingroup", "bgroup", "documentstyle", "documentclasses", "ensuremath",
    "cline", "multicolumn", "color", "href", "url", "quad", "dots", "cdot", "frac", "bibliography", "nocomment",
];
const ENVS: &[&str] = &[
    "abstract", "array", "center", "comment", "cases", "description", "displaymath", "math", "enumerate", "eqnarray",
    "eqnarray*", "align", "gather", "multline", "split", "figure", "figure*", "table", "tabular", "tabular*",
    "tabularx", "longtable", "flushleft", "flushright", "lstlisting", "minted", "matrix", "pmatrix", "minipage",
    "picture", "tikzpicture", "proof", "theorem", "lemma", "quote", "quotation", "tabbing", "thebibliography",
    "titlepage", "verse", "Verbatim", "verbatim*", "filecontents", "frame", "documents", "Document", "scope",
];
/// Neither whitespace nor reserved, but easily taken for one of these: low
/// bytes of reserved characters, full-width forms, zero-width characters.
pub const ODD: &[char] = &[
    '\u{1}', '\u{1b}', '\u{7f}', '\u{ad}', '\u{a7}', '\u{120}', '\u{10a}', '\u{124}', '\u{125}', '\u{128}', '\u{129}',
    '\u{15b}', '\u{15c}', '\u{15d}', '\u{17b}', '\u{17d}', '\u{130}', '\u{131}', '\u{17f}', '\u{212a}', '\u{663}',
    '\u{2167}', '\u{180e}', '\u{200b}', '\u{200d}', '\u{202e}', '\u{2060}', '\u{feff}', '\u{fffd}', '\u{ff04}',
    '\u{ff05}', '\u{ff08}', '\u{ff3b}', '\u{ff3c}', '\u{ff5b}', '\u{10ffff}', '\u{1f468}', '\u{5c5c}',
    '\u{308}', '\u{2d}', '\u{27}', '\u{60}', '\u{2f}', '\u{7e}', '\u{e9}', '\u{c9}', '\u{3b1}', '\u{416}', '\u{5d0}',
];
/// Every character Unicode calls whitespace.
pub const WS: &[char] = &[
    ' ', '\n', '\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}',
    '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}',
    '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];

fn reserved(c: char) -> bool {
    matches!(c, '\\' | '%' | '$' | '{' | '}' | '(' | ')' | '[' | ']')
}

pub struct Dict {
    /// command names: letter first, nothing reserved, no whitespace
    pub commands: Vec<String>,
    /// environment names: nothing reserved
    pub envs: Vec<String>,
    /// words of text: nothing reserved, no whitespace
    pub words: Vec<String>,
    /// any pieces of source
    pub tokens: Vec<String>,
    /// characters of text
    pub chars: Vec<char>,
    pub sizes: Vec<usize>,
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let mut d = Dict {
            commands: own(COMMANDS),
            envs: own(ENVS),
            words: vec![],
            tokens: vec![],
            chars: vec![],
            sizes: vec![],
        };
        let plain = |s: &str| !s.is_empty() && !s.chars().any(|c| reserved(c) || c.is_whitespace());
        // found words count for more than the general vocabulary
        let mut found: Vec<String> = Vec::new();
        for s in found::STRS {
            found.push(s.to_string());
            let t = s.trim_matches(|c: char| reserved(c) || c.is_whitespace());
            if t != *s {
                found.push(t.to_string());
            }
        }
        for s in found {
            if s.is_empty() {
                continue;
            }
            d.tokens.push(s.clone());
            if matches!(s.as_str(), "begin" | "end" | "document" | "documentclass") {
                continue;
            }
            if plain(&s) && s.starts_with(|c: char| c.is_ascii_alphabetic()) {
                for _ in 0..4 {
                    d.commands.push(s.clone());
                }
            }
            if !s.chars().any(reserved) {
                for _ in 0..4 {
                    d.envs.push(s.clone());
                }
            }
            if plain(&s) {
                d.words.push(s);
            }
        }
        for c in found::CHARS {
            d.tokens.push(c.to_string());
            if !reserved(*c) && !c.is_whitespace() {
                d.chars.push(*c);
            }
        }
        d.tokens.extend(d.envs.iter().map(|e| format!("\\begin{{{e}}}")));
        d.tokens.extend(d.envs.iter().map(|e| format!("\\end{{{e}}}")));
        d.tokens.extend(d.commands.iter().map(|e| format!("\\{e}")));
        if d.chars.is_empty() {
            d.chars.push('a');
        }
        if d.words.is_empty() {
            d.words.push("a".into());
        }
        let mut s: Vec<usize> = vec![
            2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200,
            255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 10_000, 65_535, 65_536,
            65_537,
        ];
        for n in found::NUMS {
            if (2..=70_000).contains(n) {
                let n = *n as usize;
                s.extend([n - 1, n, n + 1, 2 * n, n, n + 1]);
            }
        }
        s.retain(|n| *n <= 70_000);
        s.sort();
        d.sizes = s;
        d
    })
}
