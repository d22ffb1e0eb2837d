//! F01: File.fnmatch / Dir.glob pattern matching (monoruby/src/builtins/fnmatch.rs), against a
//! matcher written from the rules in that file's header.
use crate::v::*;

#[path = "/repo/monoruby/src/builtins/fnmatch.rs"]
mod fnm;
use fnm::*;

struct Flags {
    noescape: bool,
    pathname: bool,
    dot: bool,
    fold: bool,
    word: u32,
}

fn flags(mask: u32) -> Flags {
    let w = sym(5) as u32 & mask;
    Flags {
        noescape: w & 1 != 0,
        pathname: w & 2 != 0,
        dot: w & 4 != 0,
        fold: w & 8 != 0,
        word: w,
    }
}

fn low(c: u8, f: &Flags) -> u8 {
    if f.fold && c >= b'A' && c <= b'Z' { c + 32 } else { c }
}

/// The set between brackets: `p` starts after the `[`.  None when it is not closed, else whether
/// `c` is in it and what follows.
fn set<'a>(p: &'a [u8], c: u8, f: &Flags) -> Option<(bool, &'a [u8])> {
    let c = low(c, f);
    let (mut p, neg) = match p {
        [b'!' | b'^', r @ ..] => (r, true),
        _ => (p, false),
    };
    let mut hit = false;
    fn one<'a>(p: &'a [u8], f: &Flags) -> (u8, &'a [u8]) {
        if p[0] == b'\\' && !f.noescape && p.len() > 1 {
            (p[1], &p[2..])
        } else {
            (p[0], &p[1..])
        }
    }
    loop {
        if p.is_empty() {
            return None;
        }
        if p[0] == b']' {
            return Some((hit != neg, &p[1..]));
        }
        let (a, r) = one(p, f);
        p = r;
        if p.len() >= 2 && p[0] == b'-' && p[1] != b']' {
            let (b, r) = one(&p[1..], f);
            p = r;
            hit |= low(a, f) <= c && c <= low(b, f);
        } else {
            hit |= low(a, f) == c;
        }
    }
}

/// Matches a whole segment; `first`: at its start.
fn seg(p: &[u8], s: &[u8], f: &Flags, first: bool) -> bool {
    let Some(&c) = p.first() else {
        return s.is_empty();
    };
    // a wildcard never takes a period at the start
    let hidden = first && !f.dot && !s.is_empty() && s[0] == b'.';
    match c {
        b'*' => seg(&p[1..], s, f, first) || (!s.is_empty() && !hidden && seg(p, &s[1..], f, false)),
        b'?' => !s.is_empty() && !hidden && seg(&p[1..], &s[1..], f, false),
        b'[' => {
            if s.is_empty() || hidden {
                return false;
            }
            match set(&p[1..], s[0], f) {
                Some((true, rest)) => seg(rest, &s[1..], f, false),
                _ => false,
            }
        }
        _ => {
            let (lit, rest) = if c == b'\\' && !f.noescape && p.len() > 1 { (p[1], &p[2..]) } else { (c, &p[1..]) };
            !s.is_empty() && low(lit, f) == low(s[0], f) && seg(rest, &s[1..], f, false)
        }
    }
}

fn split(s: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut b = 0;
    for i in 0..s.len() {
        if s[i] == b'/' {
            v.push(&s[b..i]);
            b = i + 1;
        }
    }
    v.push(&s[b..]);
    v
}

fn segs(p: &[&[u8]], s: &[&[u8]], f: &Flags) -> bool {
    if p.is_empty() {
        return s.is_empty();
    }
    if p.len() > 1 && p[0] == b"**" {
        // zero or more segments, hidden ones excepted
        return segs(&p[1..], s, f) || (!s.is_empty() && (f.dot || s[0].is_empty() || s[0][0] != b'.') && segs(p, &s[1..], f));
    }
    !s.is_empty() && seg(p[0], s[0], f, true) && segs(&p[1..], &s[1..], f)
}

fn spec(p: &[u8], s: &[u8], f: &Flags) -> bool {
    if f.pathname { segs(&split(p), &split(s), f) } else { seg(p, s, f, true) }
}

fn chars(n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let c = sym8();
            assume(c < 0x80);
            c
        })
        .collect()
}
fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

/// Both readings of "a wildcard never takes the leading period" agree unless the pattern starts
/// with stars followed by a literal period.
fn disputed(p: &[u8], s: &[u8], f: &Flags) -> bool {
    if f.dot {
        return false;
    }
    let (ps, ss) = if f.pathname { (split(p), split(s)) } else { (vec![p], vec![s]) };
    let starts = ps.iter().any(|p| {
        let n = p.iter().take_while(|c| **c == b'*').count();
        n > 0 && (p.get(n) == Some(&b'.') || (p.get(n) == Some(&b'\\') && p.get(n + 1) == Some(&b'.')))
    });
    starts && ss.iter().any(|s| s.first() == Some(&b'.'))
}

fn compare(p: &[u8], s: &[u8], f: &Flags) {
    let got = fnmatch(text(p), text(s), f.word);
    let want = spec(p, s, f);
    if got != want {
        check(disputed(p, s, f), 1);
    }
    if got {
        cover(1);
    } else {
        cover(2);
    }
    obs(got as u64);
}

fn free(np: usize, ns: usize, mask: u32) {
    let (p, s) = (chars(np), chars(ns));
    let f = flags(mask);
    compare(&p, &s, &f);
}

/// A pattern of a given shape: `*`, `?`, `[`, ... stand for themselves, `.` for an unknown
/// character.
fn shaped(shape: &[u8], ns: usize, mask: u32) {
    let p: Vec<u8> = shape.iter().map(|c| if *c == b'.' { chars(1)[0] } else { *c }).collect();
    let s = chars(ns);
    let f = flags(mask);
    compare(&p, &s, &f);
}

/// Segments: the pieces are wildcards or literals, the string has known slashes.
fn paths(np: usize, ns: usize) {
    // a segment of the pattern: a wildcard, a literal, a hidden name, nothing
    let mut p = vec![];
    for i in 0..np {
        if i > 0 {
            p.push(b'/');
        }
        match pick(5) {
            0 => p.extend_from_slice(b"**"),
            1 => p.push(b'*'),
            2 => p.push(b'?'),
            3 => p.push(letter()),
            _ => {}
        }
    }
    let mut s = vec![];
    for i in 0..ns {
        if i > 0 {
            s.push(b'/');
        }
        if pick(2) > 0 {
            s.push(letter());
        }
        if s.last().is_some_and(|c| *c == b'.') && pick(2) == 1 {
            s.push(b'a');
        }
    }
    let f = flags(FNM_PATHNAME | FNM_DOTMATCH);
    compare(&p, &s, &f);
}

/// Any character that is not special to a pattern.
fn letter() -> u8 {
    let c = chars(1)[0];
    assume(c != b'/' && c != b'*' && c != b'?' && c != b'[' && c != b'\\');
    c
}

/// Braces: the alternatives are tried in turn, each as if written out.
fn braces(shape: &[u8], alts: &[&[u8]], ns: usize) {
    // letters stand for unknown characters that are not braces, commas or backslashes
    let mut sub = [0u8; 26];
    for c in shape {
        if c.is_ascii_lowercase() {
            let x = chars(1)[0];
            assume(x != b'{' && x != b'}' && x != b',' && x != b'\\');
            sub[(c - b'a') as usize] = x;
        }
    }
    let put = |t: &[u8]| -> Vec<u8> { t.iter().map(|c| if c.is_ascii_lowercase() { sub[(c - b'a') as usize] } else { *c }).collect() };
    let p = put(shape);
    let s = chars(ns);
    let f = flags(FNM_NOESCAPE | FNM_PATHNAME | FNM_DOTMATCH);
    let got = fnmatch(text(&p), text(&s), f.word | FNM_EXTGLOB);
    let mut want = false;
    let mut odd = false;
    for a in alts {
        let a = put(a);
        want |= spec(&a, &s, &f);
        odd |= disputed(&a, &s, &f);
    }
    if got != want {
        check(odd, 2);
    }
    if got {
        cover(1);
    }
    obs(got as u64);
    // without the flag braces are ordinary characters
    check(fnmatch(text(&p), text(&s), f.word) == spec(&p, &s, &f) || disputed(&p, &s, &f), 3);
    let e = expand_braces(text(&p), f.noescape);
    check(e.len() == alts.len(), 4);
    for (i, a) in alts.iter().enumerate() {
        let a = put(a);
        let g = e[i].as_bytes();
        let mut same = g.len() == a.len();
        if same {
            for k in 0..a.len() {
                same &= g[k] == a[k];
            }
        }
        check(same, 5);
    }
}

entries! {
    f01_1x2 => free(1, 2, 15);
    f01_2x2 => free(2, 2, 15);
    f01_3x2 => free(3, 2, 13);
    f01_3x3 => free(3, 3, 4);
    f01_4x2 => free(4, 2, 5);
    f01_4x3 => free(4, 3, 15);
    f01_star => shaped(b"*.*.", 4, 4);
    f01_star2 => shaped(b".*.*.", 5, 4);
    f01_q => shaped(b"?*.?", 4, 6);
    f01_set4 => shaped(b"[...]", 1, 13);
    f01_set5 => shaped(b"[....]", 1, 1);
    f01_set5f => shaped(b"[....]", 1, 9);
    f01_setn => shaped(b"[!..].", 2, 5);
    f01_setr => shaped(b"[.-.]", 1, 13);
    f01_setr2 => shaped(b".[.-..]", 2, 13);
    f01_esc => shaped(b"\\.\\.", 2, 15);
    f01_path22 => paths(2, 2);
    f01_path33 => paths(3, 3);
    f01_5x3 => free(5, 3, 5);
    f01_5x4 => free(5, 4, 4);
    f01_star3 => shaped(b"*.*.*", 6, 4);
    f01_path34 => paths(3, 4);
    f01_brace1 => braces(b"a{b,c}d", &[b"abd", b"acd"], 2);
    f01_brace2 => braces(b"{a,}{,b}", &[b"a", b"ab", b"", b"b"], 2);
    f01_brace3 => braces(b"a{b,c{d,e}}", &[b"ab", b"acd", b"ace"], 3);
    f01_brace4 => braces(b"{a", &[b"{a"], 2);
    f01_brace5 => braces(b"{{a,b}c,d}", &[b"ac", b"bc", b"d"], 2);
}
