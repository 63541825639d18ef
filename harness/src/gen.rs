//! Workload generators: hostile text, entries, catalogues, metadata.

use crate::src::Src;
use rspolib::{MOEntry, POEntry};
use std::collections::HashMap;
use std::sync::OnceLock;

/// Literals harvested from the library's sources. They only enrich the
/// workload (texts, lengths, widths near constants used by the code); no
/// verdict depends on them.
#[derive(Default)]
pub struct Dict {
    pub strs: Vec<String>,
    pub chars: Vec<char>,
    pub ints: Vec<usize>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        let mut files = vec![];
        for root in ["/repo/rust/src", "/repo/python/src"] {
            walk(std::path::Path::new(root), &mut files);
        }
        files.sort();
        for f in files {
            if let Ok(t) = std::fs::read_to_string(&f) {
                let t = match t.find("#[cfg(test)]") {
                    Some(i) => t[..i].to_string(),
                    None => t,
                };
                harvest(&t, &mut d);
            }
        }
        d.strs.sort();
        d.strs.dedup();
        d.strs.retain(|s| !s.is_empty() && s.len() < 80);
        d.chars.sort();
        d.chars.dedup();
        d.ints.sort();
        d.ints.dedup();
        if d.strs.is_empty() {
            d.strs.push("fuzzy".into());
        }
        if d.chars.is_empty() {
            d.chars.push('"');
        }
        if d.ints.is_empty() {
            d.ints.push(78);
        }
        d
    })
}

fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out)
            } else if p.extension().is_some_and(|x| x == "rs") {
                out.push(p)
            }
        }
    }
}

fn harvest(t: &str, d: &mut Dict) {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' && i + 1 < c.len() {
                        i += 1;
                        match c[i] {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            '0' => s.push('\0'),
                            'u' => {
                                let (ch, j) = uni(&c, i + 1);
                                if let Some(ch) = ch {
                                    s.push(ch);
                                    i = j;
                                }
                            }
                            x => s.push(x),
                        }
                    } else {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                d.strs.push(s);
            }
            '\'' => {
                // char literal (or lifetime, which does not close)
                if c.get(i + 1) == Some(&'\\') {
                    match c.get(i + 2) {
                        Some('u') => {
                            let (ch, j) = uni(&c, i + 3);
                            if let Some(ch) = ch {
                                d.chars.push(ch);
                            }
                            i = j.max(i + 2);
                        }
                        Some('x') => {
                            let h: String = c[(i + 3).min(c.len())..(i + 5).min(c.len())].iter().collect();
                            if let Ok(v) = u8::from_str_radix(&h, 16) {
                                d.chars.push(v as char);
                            }
                            i += 4;
                        }
                        Some(x) => {
                            d.chars.push(match x {
                                'n' => '\n',
                                't' => '\t',
                                'r' => '\r',
                                '0' => '\0',
                                x => *x,
                            });
                            i += 2;
                        }
                        None => {}
                    }
                    i += 1;
                } else if c.get(i + 2) == Some(&'\'') {
                    d.chars.push(c[i + 1]);
                    i += 2;
                }
            }
            x if x.is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) => {
                let mut s = String::new();
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    if c[i] != '_' {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                i -= 1;
                let v = if let Some(h) = s.strip_prefix("0x") {
                    let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                    usize::from_str_radix(&h, 16).ok()
                } else {
                    let h: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                    h.parse().ok()
                };
                if let Some(v) = v {
                    d.ints.push(v);
                }
            }
            _ => {}
        }
        i += 1;
    }
}

fn uni(c: &[char], i: usize) -> (Option<char>, usize) {
    if c.get(i) != Some(&'{') {
        return (None, i);
    }
    let mut j = i + 1;
    let mut h = String::new();
    while j < c.len() && c[j] != '}' {
        h.push(c[j]);
        j += 1;
    }
    (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), j)
}

/// What a text may contain.
#[derive(Clone, Copy)]
pub struct T {
    pub nul: bool,
    pub eot: bool,
    pub nl: bool,
    pub max: usize,
}

pub const FREE: T = T { nul: true, eot: true, nl: true, max: 80_000 };
/// For MO keys: no NUL, no EOT.
pub const KEY: T = T { nul: false, eot: false, nl: true, max: 80_000 };
/// For MO translations: no NUL.
pub const STR: T = T { nul: false, eot: true, nl: true, max: 80_000 };
/// One physical line of a comment.
pub const LINE: T = T { nul: true, eot: true, nl: false, max: 20_000 };

const WORDS: &[&str] = &[
    "a", "the", "file", "message", "translation", "error", "open", "Save", "hello", "world",
    "user", "windows", "gettext", "catalogue", "plural", "some", "of", "to", "in", "Unicode",
];
const LETTERS: &[char] = &['a', 'b', 'c', 'd', 'e', 'n', 't', 'r', 'v', 'f', 'x', 'z', 'A', 'Z', 'm', 's', 'g', 'i'];
const ESC: &[char] = &['\\', '"', '\n', '\t', '\r', '\u{8}', '\u{b}', '\u{c}', '\u{11}', '\u{12}', '\u{7}', '\u{1b}', '\u{7f}', '\u{0}', '\u{1}', '\u{4}'];
const SPACES: &[char] = &[' ', ' ', ' ', '\t', '\u{a0}', '\u{2003}', '\u{200b}', '\u{3000}', '\u{2028}', '\u{2029}', '\u{85}', '\u{feff}', '\u{202f}', '\u{2060}', '\u{1680}'];
const LATIN: &[char] = &['á', 'é', 'ñ', 'ß', 'ø', 'Ž', 'ł', 'ı', 'İ', 'Å', 'ü', 'ç'];
const WIDE: &[char] = &['中', '文', '字', '日', '本', '語', '한', '국', '어', 'あ', 'ア', '、', '。', '「', '」', '！', 'Ａ'];
const ASTRAL: &[char] = &['😀', '🎉', '👩', '👍', '🇪', '🇸', '𝒳', '𠀀', '🏽', '\u{1f9d1}', '\u{10ffff}', '\u{e000}'];
const MARKS: &[char] = &['\u{301}', '\u{308}', '\u{20dd}', '\u{200d}', '\u{fe0f}', '\u{fe0e}', '\u{ad}', '\u{200c}', '\u{200e}', '\u{202e}', '\u{fffd}', '\u{ffff}', '\u{1ab0}'];
const SCRIPTS: &[char] = &['Ж', 'и', 'ш', 'α', 'Ω', 'ع', 'ر', 'ب', 'ש', 'ל', 'ก', '่', 'า', 'क', '्', 'ष', 'ि', 'ສ', 'ម', 'က'];
const PUNCT: &[&str] = &[
    "-", "--", "/", "://", ".", ",", ";", ":", ": ", "!", "?", "(", ")", "[", "]", "{", "}", "%", "$", "€", "%s", "%d", "%(n)d",
    "{0}", "{name}", "&amp;", "<b>", "</b>", "…", "—", "'", "`", "~", "|", "#", "@", "+", "=", "*", "^", "_",
];
const POISH: &[&str] = &[
    "#", "# ", "#~", "#~ ", "#| ", "#~|", "#, ", "#, fuzzy", "#: ", "#. ", "##", "msgid", "msgstr", "msgid \"", "msgstr \"\"", "msgctxt",
    "msgid_plural", "msgstr[0]", "msgstr[1] \"x\"", "msgid \"a\"\nmsgstr \"b\"", "\n\n", "\"\n\"", "\\n", "\\\"", "\\\\", "\\t", "\" \"", "fuzzy",
    "Content-Type: text/plain; charset=UTF-8\n",
];
pub const COUNTS: &[usize] = &[
    2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 127, 128, 129,
    255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097,
];

/// Sizes beyond the everyday ones, near powers of two and buffer sizes.
const MANY: &[usize] = &[17, 20, 32, 33, 50, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400, 512, 513, 1000, 1024, 1025];
const HUGE: &[usize] = &[5000, 8189, 8190, 8191, 8192, 8193, 8200, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 70000];

/// Usually `usual`; once in `den` times one of the large counts, up to `max`.
fn rarely(s: &mut Src, den: u64, max: usize, usual: usize) -> usize {
    if s.chance(1, den) {
        let n = *s.pick(MANY);
        known(s, 8, max).unwrap_or(n).min(max)
    } else {
        usual
    }
}

/// A number written in the sources, or one beside it, if there is one
/// between `lo` and `hi`.
fn known(s: &mut Src, lo: usize, hi: usize) -> Option<usize> {
    let v = *s.pick(&dict().ints);
    let k = s.us(3);
    (lo..=hi).contains(&v).then(|| v + k - 1)
}

/// A large number of lines.
pub fn lines(s: &mut Src) -> usize {
    let n = *s.pick(&[300, 5_000, 33_000, 66_000, 70_000]);
    known(s, 100, 200_000).unwrap_or(n)
}

/// Seldom (once in `den` times) a very large number of entries, otherwise 0.
pub fn bulk(s: &mut Src, den: u64) -> usize {
    if !s.chance(1, den) {
        return 0;
    }
    let n = *s.pick(&[2_000, 4_097, 10_000, 20_001, 33_000, 66_000]);
    known(s, 1_000, 80_000).unwrap_or(n)
}

/// That many small messages, some of them with plural forms.
pub fn bulk_mo(s: &mut Src, den: u64) -> Vec<MOEntry> {
    let n = bulk(s, den);
    let pad = if n > 0 && s.chance(1, 3) { "é".repeat(150) } else { String::new() };
    (0..n)
        .map(|i| {
            let plural = (i % 7 == 3).then(|| format!("{i} plural"));
            let forms = if plural.is_some() { vec![format!("{i}a"), format!("{i}b{pad}")] } else { vec![] };
            let text = plural.is_none().then(|| format!("{pad}{i}t"));
            MOEntry::new(format!("{i}"), text, plural, forms, (i % 5 == 2).then(|| "bulk".to_string()))
        })
        .collect()
}

/// A text of thousands of characters, with or without places to break it.
fn huge(s: &mut Src) -> String {
    let n = *s.pick(HUGE);
    let n = known(s, 1_000, 100_000).unwrap_or(n);
    let mut out = String::new();
    let k = s.us(5);
    let c = one_char(s);
    let every = s.range(2, 90);
    while out.len() < n {
        match k {
            0 => out.push(c),
            1 => out.push_str(s.pick(WORDS)),
            2 => unit(s, &mut out),
            3 => out.push(if out.len() % every == every - 1 { c } else { 'x' }),
            _ => out.push('x'),
        }
        if (k == 1 || k == 2) && s.chance(3, 4) {
            out.push(' ');
        }
    }
    out
}

fn one_char(s: &mut Src) -> char {
    match s.weighted(&[30, 12, 22, 8, 10, 6, 6, 6, 4, 4]) {
        0 => *s.pick(LETTERS),
        1 => ' ',
        2 => *s.pick(ESC),
        3 => *s.pick(LATIN),
        4 => *s.pick(WIDE),
        5 => *s.pick(ASTRAL),
        6 => *s.pick(MARKS),
        7 => *s.pick(SCRIPTS),
        8 => *s.pick(SPACES),
        _ => match s.us(3) {
            0 => *s.pick(&dict().chars),
            1 => char::from_u32(s.below(0x250) as u32).unwrap_or('?'),
            _ => {
                let v = s.below(0x110000) as u32;
                char::from_u32(v).unwrap_or('\u{fffd}')
            }
        },
    }
}

fn unit(s: &mut Src, out: &mut String) {
    match s.weighted(&[30, 18, 12, 10, 8, 6, 4]) {
        0 => {
            out.push_str(s.pick(WORDS));
        }
        1 => out.push(one_char(s)),
        2 => {
            out.push_str(s.pick(PUNCT));
        }
        3 => {
            // run of backslashes / quotes / newlines mixed
            let n = s.range(1, 6);
            for _ in 0..n {
                out.push(*s.pick(&['\\', '\\', '\\', '"', 'n', '\n', '\t', 't', '\r', 'v', '\u{8}']));
            }
        }
        4 => {
            out.push_str(s.pick(POISH));
        }
        5 => {
            let d = dict();
            out.push_str(s.pick(&d.strs));
        }
        _ => {
            let c = one_char(s);
            let n = s.range(1, 12);
            for _ in 0..n {
                out.push(c);
            }
        }
    }
}

fn count(s: &mut Src, max: usize) -> usize {
    let n = match s.weighted(&[8, 2]) {
        0 => *s.pick(COUNTS),
        _ => {
            let d = dict();
            let v = *s.pick(&d.ints);
            (v % 5000 + s.us(3)).saturating_sub(1)
        }
    };
    n.min(max)
}

/// Arbitrary text within the limits of `t`. May be empty.
pub fn text(s: &mut Src, t: T) -> String {
    if t.max > 4000 && s.chance(1, 4000) {
        return clean(huge(s), t);
    }
    let mut out = String::new();
    match s.weighted(&[28, 8, 10, 18, 14, 8, 6, 4, 4, 4]) {
        0 => {
            // plain words
            let n = s.range(1, 6);
            for i in 0..n {
                if i > 0 {
                    out.push(' ');
                }
                out.push_str(s.pick(WORDS));
            }
        }
        1 => {}
        2 => out.push(one_char(s)),
        3 => {
            let n = s.range(1, 8);
            for _ in 0..n {
                unit(s, &mut out);
                if s.chance(1, 2) {
                    out.push(' ');
                }
            }
        }
        4 => {
            // prose long enough to wrap, interspersed with odd units
            let target = s.range(40, 400).min(t.max);
            while out.len() < target {
                if s.chance(1, 4) {
                    unit(s, &mut out);
                } else {
                    out.push_str(s.pick(WORDS));
                }
                if s.chance(3, 4) {
                    out.push(' ');
                }
            }
        }
        5 => {
            // one class, boundary length
            let n = count(s, t.max);
            let k = s.us(4);
            let c = one_char(s);
            for i in 0..n {
                match k {
                    0 => out.push(c),
                    1 => out.push(*s.pick(LETTERS)),
                    2 => out.push(if i % 2 == 0 { c } else { ' ' }),
                    _ => {
                        out.push_str(if i % 7 == 6 { " " } else { "x" });
                    }
                }
            }
        }
        6 => {
            // dense special characters
            let n = s.range(1, 40);
            for _ in 0..n {
                out.push(one_char(s));
            }
        }
        7 => {
            let d = dict();
            out.push_str(s.pick(&d.strs));
            if s.chance(1, 2) {
                unit(s, &mut out);
            }
        }
        8 => {
            // prose full of the same odd character
            let c = one_char(s);
            let n = s.range(4, 40);
            for _ in 0..n {
                for _ in 0..s.range(1, 9) {
                    out.push(if s.chance(1, 2) { c } else { *s.pick(LETTERS) });
                }
                out.push(' ');
            }
        }
        _ => {
            // several lines
            let n = s.range(1, 6);
            for _ in 0..n {
                let m = s.range(0, 8);
                for _ in 0..m {
                    out.push_str(s.pick(WORDS));
                    out.push(' ');
                }
                out.push_str(s.pick(&["\n", "\r\n", "\n\n", "\t", "\\n"]));
            }
        }
    }
    match s.weighted(&[16, 1, 1, 1, 1]) {
        0 => {}
        1 => out.insert(0, *s.pick(&[' ', '\n', '\t', '"', '\\', '\u{a0}', '\u{feff}', '\r', '\u{301}', '#'])),
        2 => out.push(*s.pick(&[' ', '\n', '\t', '"', '\\', '\u{a0}', '\u{2003}', '\r', '\u{200b}', '\u{c}'])),
        3 => {
            out.insert(0, ' ');
            out.push_str("  ");
        }
        _ => out.push('\n'),
    }
    clean(out, t)
}

fn clean(mut out: String, t: T) -> String {
    if !t.nul || !t.eot || !t.nl {
        out.retain(|c| (t.nul || c != '\0') && (t.eot || c != '\u{4}') && (t.nl || c != '\n'));
    }
    if out.len() > t.max {
        let mut k = t.max;
        while !out.is_char_boundary(k) {
            k -= 1;
        }
        out.truncate(k);
    }
    out
}

pub fn nonempty(s: &mut Src, t: T) -> String {
    let v = text(s, t);
    if v.is_empty() {
        "x".into()
    } else {
        v
    }
}

pub fn opt(s: &mut Src, num: u64, den: u64, t: T) -> Option<String> {
    if s.chance(num, den) {
        Some(text(s, t))
    } else {
        None
    }
}

pub fn wrapwidth(s: &mut Src) -> usize {
    match s.weighted(&[4, 4, 3, 3, 1, 1]) {
        0 => 78,
        1 => s.range(8, 100),
        2 => s.range(0, 12),
        3 => s.range(70, 85),
        4 => {
            let d = dict();
            (*s.pick(&d.ints) + s.us(3)).saturating_sub(1)
        }
        _ => *s.pick(&[0usize, 1, 2, 1000, 10000, usize::MAX, usize::MAX - 1, u32::MAX as usize]),
    }
}

/// A text that will be close to the width boundary for a keyword line.
pub fn text_near(s: &mut Src, t: T, w: usize) -> String {
    if w > 4000 || s.chance(2, 3) {
        return text(s, t);
    }
    let target = (w + 4).saturating_sub(s.us(24));
    let mut out = String::new();
    let mut width = 0;
    while width < target {
        let c = match s.weighted(&[10, 3, 2, 2, 1]) {
            0 => *s.pick(LETTERS),
            1 => ' ',
            2 => *s.pick(&['\\', '"', '\n', '\t']),
            3 => *s.pick(WIDE),
            _ => one_char(s),
        };
        out.push(c);
        width += esc_width(c);
    }
    clean(out, t)
}

fn esc_width(c: char) -> usize {
    match c {
        '\\' | '"' | '\n' | '\t' | '\r' | '\u{8}' | '\u{11}' | '\u{12}' => 2,
        c => unicode_width::UnicodeWidthChar::width(c).unwrap_or(0).max(1),
    }
}

/// A comment of one or more lines, each without trailing white space; no
/// line is blank when `blank` is false.
pub fn comment(s: &mut Src, blank: bool) -> String {
    let n = [1, 1, 1, 2, 3, 5][s.us(6)];
    let n = rarely(s, 600, 130, n);
    let mut lines: Vec<String> = vec![];
    for _ in 0..n {
        let mut l = text(s, LINE);
        if s.chance(1, 30) {
            l.insert_str(0, s.pick(&["\t", " ", "  ", " \t", "\t\t", "~ ", "| ", ".", ": "]));
        }
        let l = l.trim_end().to_string();
        if l.is_empty() && !blank {
            lines.push("c".into());
        } else {
            lines.push(l);
        }
    }
    // blank lines at the end are lines too
    if blank && s.chance(1, 8) {
        lines.extend(vec![String::new(); 1 + s.us(2)]);
    }
    lines.join("\n")
}

pub fn flag(s: &mut Src) -> String {
    match s.weighted(&[6, 3, 1]) {
        0 => s
            .pick(&[
                "fuzzy", "c-format", "no-c-format", "python-format", "python-brace-format", "no-wrap", "wrap", "javascript-format",
                "range: 0..10", "Fuzzy", "fuzzy2", "FUZZY", "qt-format", "unfuzzy", "fuzz", "not fuzzy", "fuzzy-match",
            ])
            .to_string(),
        1 => {
            let mut f = nonempty(s, LINE);
            f.retain(|c| c != ',');
            let f = f.trim().to_string();
            if f.is_empty() {
                "f".into()
            } else {
                f
            }
        }
        _ => {
            let mut f = String::new();
            let n = s.range(1, 90);
            for _ in 0..n {
                f.push(*s.pick(LETTERS));
            }
            f
        }
    }
}

pub fn flags(s: &mut Src) -> Vec<String> {
    let n = [0, 0, 1, 1, 2, 3][s.us(6)];
    let n = rarely(s, 600, 130, n);
    (0..n).map(|_| flag(s)).collect()
}

/// A source reference as it survives a round trip: the file name has no
/// white space, the line is digits or absent.
pub fn occurrence(s: &mut Src) -> (String, String) {
    let mut f = match s.weighted(&[6, 2, 1, 1]) {
        0 => {
            let mut f = String::new();
            let n = s.range(1, 4);
            for i in 0..n {
                if i > 0 {
                    f.push('/');
                }
                f.push_str(s.pick(WORDS));
            }
            f.push_str(s.pick(&[".rs", ".py", ".c", "", ".html", "-", ".", "#"]));
            f
        }
        1 => {
            let mut f = nonempty(s, LINE);
            f.retain(|c| !c.is_whitespace());
            f
        }
        2 => {
            let n = count(s, 400);
            "p".repeat(n)
        }
        _ => s.pick(&["#", "\"q\"", "C:\\src\\a.c:12", "http://x/y:80", "a:b:3", "::", "a\\b", "a:１２", "b:٣", "c:²", "d:4５", "e:-6", "f:+7", "g:0x8", "h:9a", "i:10:", "j:11:12", "ñandú/日本語.py", "a,b", "~", "|", "[0]", "msgid"]).to_string(),
    };
    if f.is_empty() {
        f.push('f');
    }
    if s.chance(1, if f.contains(':') { 2 } else { 5 }) {
        // no line number; keep the name unambiguous
        if let Some((_, rest)) = f.split_once(':') {
            if !rest.is_empty() && rest.chars().all(|c| c.is_ascii_digit()) {
                f = f.replace(':', "_");
            }
        }
        (f, String::new())
    } else {
        f = f.replace(':', "_");
        let l = match s.us(4) {
            0 => s.range(1, 9).to_string(),
            1 => s.range(0, 5000).to_string(),
            2 => "007".to_string(),
            _ => {
                let n = s.range(1, 30);
                "9".repeat(n)
            }
        };
        (f, l)
    }
}

pub fn occurrences(s: &mut Src) -> Vec<(String, String)> {
    let n = match s.weighted(&[6, 3, 2, 1]) {
        0 => s.us(3),
        1 => s.range(1, 8),
        2 => s.range(4, 20),
        _ => s.range(20, 60),
    };
    let n = rarely(s, 600, 520, n);
    let mut v: Vec<_> = (0..n).map(|_| occurrence(s)).collect();
    if n > 1 && s.chance(1, 5) {
        v[n - 1] = v[0].clone();
    }
    v
}

/// Header comment: lines without trailing blanks, first line not blank.
pub fn header(s: &mut Src) -> Option<String> {
    if s.chance(1, 3) {
        return None;
    }
    let n = s.range(1, 5);
    let n = rarely(s, 300, 130, n);
    let mut lines: Vec<String> = vec![];
    for i in 0..n {
        let l = text(s, LINE).trim_end().to_string();
        let l = if i == 0 && l.is_empty() { "Header.".to_string() } else { l };
        lines.push(l);
    }
    Some(lines.join("\n"))
}

const MKEYS: &[&str] = &[
    "Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language",
    "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms",
];
const XKEYS: &[&str] = &[
    "X-Generator", "X-Poedit-SearchPath-0", "X-Poedit-SearchPath-1", "X-Poedit-SearchPath-2", "X-Poedit-SearchPath-10", "X-Poedit-SearchPath-9",
    "X-Poedit-Basepath", "A", "B", "a", "X-A1B2", "X-A10B1", "X-A02", "X-A2", "x", "Zeta", "language", "Content-type", "X 1", "X1", "X  1", "Ñ",
];

pub fn meta_key(s: &mut Src) -> String {
    match s.weighted(&[6, 4, 1]) {
        0 => s.pick(MKEYS).to_string(),
        1 => s.pick(XKEYS).to_string(),
        _ => {
            let mut k = nonempty(s, KEY);
            k.retain(|c| c != ':' && c != '\n');
            if k.is_empty() {
                k.push('K');
            }
            k
        }
    }
}

pub fn meta_value(s: &mut Src) -> String {
    let v = match s.weighted(&[5, 3, 1, 1]) {
        0 => s
            .pick(&[
                "text/plain; charset=UTF-8", "8bit", "1.0", "nplurals=2; plural=(n != 1);", "es", "2020-01-01 10:00+0000", "Team <team@example.org>",
                "proj 1.0", "a: b: c", "", "\"quoted\" \\ value",
            ])
            .to_string(),
        1 => text(s, T { nul: false, eot: true, nl: false, max: 400 }),
        2 => "v".repeat(count(s, 400)),
        _ => "line with words ".repeat(s.range(1, 12)),
    };
    v.trim().to_string()
}

pub fn metadata(s: &mut Src) -> HashMap<String, String> {
    let n = match s.weighted(&[2, 4, 3, 1]) {
        0 => 0,
        1 => s.range(1, 4),
        2 => s.range(3, 12),
        _ => s.range(10, 30),
    };
    let n = rarely(s, 300, 300, n);
    let mut m = HashMap::new();
    for i in 0..n {
        let k = if n > 30 && s.chance(1, 2) { format!("X-Field-{i}") } else { meta_key(s) };
        let v = meta_value(s);
        m.insert(k, v);
    }
    m
}

/// Blanks where a reader would drop them: around metadata values, in the header.
pub fn loose(s: &mut Src, f: &mut rspolib::POFile) {
    const BLANKS: &[&str] = &[" ", "  ", "\t", "\u{3000}", "\u{a0} "];
    let mut keys: Vec<String> = f.metadata.keys().cloned().collect();
    keys.sort();
    for k in keys {
        if s.chance(1, 6) {
            let v = f.metadata[&k].clone();
            let b = *s.pick(BLANKS);
            let v = match s.us(3) {
                0 => b.to_string(),
                1 => format!("{b}{v}"),
                _ => format!("{v}{b}"),
            };
            f.metadata.insert(k, v);
        }
    }
    if let Some(h) = &f.header {
        if s.chance(1, 3) {
            let mut lines: Vec<String> = h.split('\n').map(|l| l.to_string()).collect();
            for _ in 0..s.range(1, 3) {
                let i = s.us(lines.len() + 1);
                let b = *s.pick(BLANKS);
                match s.us(4) {
                    0 => lines.insert(i, String::new()),
                    1 => lines.insert(i, b.to_string()),
                    _ if i == lines.len() => lines.push(b.to_string()),
                    2 => lines[i].push_str(b),
                    _ => lines[i].insert_str(0, b),
                }
            }
            f.header = Some(lines.join("\n"));
        }
    }
}

pub struct EntryOpts {
    pub key: T,
    pub val: T,
    pub annotations: bool,
    pub width: usize,
}

/// A PO entry; plural entries have no singular translation.
pub fn po_entry(s: &mut Src, o: &EntryOpts) -> POEntry {
    let mut e = POEntry::new(0);
    let w = o.width;
    e.msgctxt = if s.chance(1, 3) {
        Some(if s.chance(1, 8) { String::new() } else { text_near(s, o.key, w) })
    } else {
        None
    };
    e.msgid = text_near(s, o.key, w);
    if e.msgid.is_empty() && e.msgctxt.is_none() {
        e.msgid = "m".into();
    }
    if s.chance(1, 3) {
        e.msgid_plural = Some(text_near(s, o.val, w));
        let n = match s.weighted(&[6, 3, 1]) {
            0 => 2,
            1 => s.range(1, 6),
            _ => s.range(6, 14),
        };
        let n = rarely(s, 600, 300, n);
        for _ in 0..n {
            e.msgstr_plural.push(if s.chance(1, 8) { String::new() } else { text_near(s, o.val, w) });
        }
    } else {
        e.msgstr = match s.weighted(&[10, 1, 1]) {
            0 => Some(text_near(s, o.val, w)),
            1 => None,
            _ => Some(String::new()),
        };
    }
    e.obsolete = s.chance(1, 6);
    if o.annotations {
        if s.chance(1, 3) {
            e.tcomment = Some(comment(s, true));
        }
        if s.chance(1, 3) {
            e.comment = Some(comment(s, true));
        }
        if s.chance(1, 2) {
            e.occurrences = occurrences(s);
        }
        e.flags = flags(s);
        if s.chance(1, 3) {
            e.previous_msgctxt = opt(s, 1, 2, o.val);
            e.previous_msgid = opt(s, 1, 2, o.val);
            e.previous_msgid_plural = opt(s, 1, 2, o.val);
        }
    } else if s.chance(1, 4) {
        e.flags = vec!["fuzzy".into()];
    }
    e
}

pub fn nentries(s: &mut Src) -> usize {
    let n = match s.weighted(&[10, 6, 3, 1]) {
        0 => s.range(1, 3),
        1 => s.range(0, 6),
        2 => s.range(5, 12),
        _ => s.range(12, 40),
    };
    rarely(s, 1500, 1025, n)
}

/// MO entry with an NUL/EOT free key.
pub fn mo_entry(s: &mut Src) -> MOEntry {
    let mut e = MOEntry::new(String::new(), None, None, vec![], None);
    if s.chance(1, 3) {
        e.msgctxt = Some(if s.chance(1, 6) { String::new() } else { text(s, KEY) });
    }
    e.msgid = text(s, KEY);
    if e.msgid.is_empty() && e.msgctxt.is_none() {
        e.msgid = "m".into();
    }
    if s.chance(1, 3) {
        e.msgid_plural = Some(text(s, STR));
        let n = [2, 2, 1, 3, 4, 6][s.us(6)];
        let n = rarely(s, 600, 300, n);
        for _ in 0..n {
            e.msgstr_plural.push(if s.chance(1, 6) { String::new() } else { text(s, STR) });
        }
    } else {
        e.msgstr = Some(text(s, STR));
    }
    e
}

pub fn mo_key(e: &MOEntry) -> Vec<u8> {
    let mut k = vec![];
    if let Some(c) = &e.msgctxt {
        k.extend(c.as_bytes());
        k.push(4);
    }
    k.extend(e.msgid.as_bytes());
    k
}

/// Distinct-key MO entries in random order, with near-colliding keys.
pub fn mo_entries(s: &mut Src) -> Vec<MOEntry> {
    let n = nentries(s);
    let mut v: Vec<MOEntry> = vec![];
    let mut seen = std::collections::HashSet::new();
    for _ in 0..n {
        let mut e = mo_entry(s);
        if !v.is_empty() && s.chance(1, 4) {
            // a key related to an earlier one
            let b = v[s.us(v.len())].clone();
            match s.us(5) {
                0 => {
                    e.msgid = b.msgid.clone();
                    e.msgctxt = Some("ctx".into());
                }
                1 => e.msgid = format!("{}x", b.msgid),
                2 => {
                    e.msgid = b.msgid.chars().skip(1).collect();
                    if e.msgid.is_empty() {
                        e.msgid = "é".into();
                    }
                }
                3 => {
                    // context and id swapped
                    e.msgid = b.msgctxt.clone().unwrap_or("sw".into());
                    e.msgctxt = Some(b.msgid.clone());
                }
                _ => e.msgid = format!("{}\u{1}", b.msgid),
            }
            if e.msgid.is_empty() && e.msgctxt.is_none() {
                e.msgid = "m".into();
            }
        }
        if seen.insert(mo_key(&e)) {
            v.push(e);
        }
    }
    v
}
