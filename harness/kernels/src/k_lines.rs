//! L01: line numbers of source positions (monoruby/src/ast/source_info.rs) behind backtraces,
//! __LINE__, warnings and error messages.
use crate::v::*;

mod shim {
    /// The terminal: its width is unknown.
    pub mod console {
        pub static mut WIDTH: u16 = 80;
        pub struct Term;
        impl Term {
            pub fn stdout() -> Term {
                Term
            }
            pub fn size(&self) -> (u16, u16) {
                (24, unsafe { WIDTH })
            }
        }
        /// columns of a text without escape sequences and wide characters
        pub fn measure_text_width(s: &str) -> usize {
            s.chars().filter(|c| *c >= ' ').count()
        }
    }
    pub mod info {
        use super::console;
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/lines.rs"));
    }
}
use shim::info::{Loc, SourceInfo};

/// Any UTF-8 text of `n` bytes, ASCII or with one two- or three-byte character in it.
fn code(n: usize) -> Vec<u8> {
    let mut b: Vec<u8> = (0..n)
        .map(|_| {
            let c = sym8();
            assume(c < 0x80);
            c
        })
        .collect();
    match pick(3) {
        1 if n >= 2 => {
            let at = pick(n - 1);
            let (x, y) = (sym(5) as u8, sym(6) as u8);
            assume(x >= 2);
            b[at] = 0xc0 | x;
            b[at + 1] = 0x80 | y;
        }
        2 if n >= 3 => {
            let at = pick(n - 2);
            b[at] = 0xe3;
            b[at + 1] = 0x80 | sym(6) as u8;
            b[at + 2] = 0x80 | sym(6) as u8;
        }
        _ => {}
    }
    b
}

fn text(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}

/// Newlines before `pos`.
fn newlines(b: &[u8], pos: u64) -> u64 {
    let mut n = 0;
    for (i, c) in b.iter().enumerate() {
        n += (*c == b'\n' && (i as u64) < pos) as u64;
    }
    n
}

fn line(n: usize) {
    let b = code(n);
    let off = sym(64) as i64;
    assume(off > -(1 << 40) && off < 1 << 40);
    let info = if pick(2) == 0 { SourceInfo::new("f", text(&b)) } else { SourceInfo::new_eval("f", text(&b), off) };
    let off = info.line_offset;
    // the text is kept, with a newline at its end
    let mut full = b.clone();
    if b.last() != Some(&b'\n') {
        full.push(b'\n');
    }
    check(info.code.len() == full.len(), 1);
    let mut same = true;
    for i in 0..full.len() {
        same &= info.code.as_bytes()[i] == full[i];
    }
    check(same, 2);
    let (pos, end) = (sym(64), sym(64));
    let got = info.get_line(&Loc(pos as usize, end as usize));
    let total = newlines(&full, full.len() as u64);
    let want = if pos >= full.len() as u64 { total } else { 1 + newlines(&full, pos) };
    check(got == want as i64 + off, 3);
    // the answer does not depend on where the construct ends
    let end2 = sym(64);
    check(info.get_line(&Loc(pos as usize, end2 as usize)) == got, 4);
    cover(1);
    obs(got as u64);
}

/// A location shown to the user: names the line, never fails for a position in the text.
fn shown(n: usize, width: u16) {
    let b = code(n);
    let info = SourceInfo::new("f", text(&b));
    let len = info.code.len();
    let from = pick(len);
    let to = from + pick(len - from);
    assume(info.code.is_char_boundary(from) && info.code.is_char_boundary(to));
    unsafe { shim::console::WIDTH = width };
    let s = info.get_location(&Loc(from, to));
    let want = info.get_line(&Loc(from, to));
    let s = s.as_bytes();
    check(s.len() > 4 && s[0] == b'f' && s[1] == b':' && s[2] == b'0' + want as u8 && s[3] == b'\n', 10);
    // something is underlined
    let mut mark = false;
    for c in &s[4..] {
        mark |= *c == b'^';
    }
    let mut plain = true;
    for i in from..=to.min(len - 1) {
        plain &= info.code.as_bytes()[i] >= b' ' && info.code.as_bytes()[i] != 127;
    }
    check(mark || !plain, 11);
    cover(1);
    obs(s.len() as u64);
}

fn merged() {
    let (a, b) = (Loc(sym(64) as usize, sym(64) as usize), Loc(sym(64) as usize, sym(64) as usize));
    let m = a.merge(b);
    check(m.0 <= a.0 && m.0 <= b.0 && (m.0 == a.0 || m.0 == b.0), 20);
    check(m.1 >= a.1 && m.1 >= b.1 && (m.1 == a.1 || m.1 == b.1), 21);
    cover(1);
}

entries! {
    l01_0 => line(0);
    l01_1 => line(1);
    l01_3 => line(3);
    l01_5 => line(5);
    l01_6 => line(6);
    l01_8 => line(8);
    l01_show2 => shown(2, 80);
    l01_show3 => shown(3, 80);
    l01_show3w => shown(3, 2);
    l01_show4 => shown(4, 80);
    l01_merge => merged();
}
