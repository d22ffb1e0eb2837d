//! T05: group scanning, from the control module itself.
use crate::control::{Group, Tag};
use crate::v::*;

const W: usize = Group::WIDTH;

fn tag(b: u8) -> Tag {
    unsafe { std::mem::transmute::<u8, Tag>(b) }
}
fn byte(t: Tag) -> u8 {
    unsafe { std::mem::transmute::<Tag, u8>(t) }
}
/// any control byte: full, deleted or empty
fn any() -> u8 {
    let b = sym8();
    assume((b < 0x80) | (b == 0x80) | (b == 0xff));
    b
}
#[repr(align(16))]
struct Ctl([Tag; W]);
fn group(b: &[u8; W]) -> (Group, Ctl) {
    let mut c = Ctl([Tag::EMPTY; W]);
    let mut i = 0;
    while i < W {
        c.0[i] = tag(b[i]);
        i += 1;
    }
    let g = unsafe { Group::load(c.0.as_ptr()) };
    (g, c)
}
/// first position where `f` holds (W: none), without branching on the contents
fn first(b: &[u8; W], f: impl Fn(u8) -> bool) -> u64 {
    let mut r = W as u64;
    let mut i = W;
    while i > 0 {
        i -= 1;
        let m = (f(b[i]) as u64).wrapping_neg();
        r = (i as u64 & m) | (r & !m);
    }
    r
}
fn run_len_back(b: &[u8; W], f: impl Fn(u8) -> bool) -> u64 {
    let mut r = W as u64;
    let mut i = 0;
    while i < W {
        let m = (f(b[i]) as u64).wrapping_neg();
        r = ((W - 1 - i) as u64 & m) | (r & !m);
        i += 1;
    }
    r
}
/// every byte unknown: first match, emptiness and run lengths
fn whole(what: usize) {
    let mut b = [0; W];
    let mut i = 0;
    while i < W {
        b[i] = any();
        i += 1;
    }
    let (g, _c) = group(&b);
    let empty = |x: u8| x == 0xff;
    let special = |x: u8| x >= 0x80;
    match what {
        0 => {
            let m = g.match_empty();
            check(m.any_bit_set() == (first(&b, empty) != W as u64), 1);
            check(m.trailing_zeros() as u64 == first(&b, empty), 2);
            check(m.leading_zeros() as u64 == run_len_back(&b, empty), 3);
        }
        1 => {
            let m = g.match_empty_or_deleted();
            check(m.any_bit_set() == (first(&b, special) != W as u64), 4);
            check(m.trailing_zeros() as u64 == first(&b, special), 5);
            check(m.leading_zeros() as u64 == run_len_back(&b, special), 6);
        }
        2 => {
            let m = g.match_full();
            let full = |x: u8| x < 0x80;
            check(m.any_bit_set() == (first(&b, full) != W as u64), 7);
            check(m.trailing_zeros() as u64 == first(&b, full), 8);
        }
        3 => {
            // EMPTY and DELETED become EMPTY, FULL becomes DELETED
            let mut o = Ctl([Tag::EMPTY; W]);
            unsafe { g.convert_special_to_empty_and_full_to_deleted().store_aligned(o.0.as_mut_ptr()) };
            let mut i = 0;
            while i < W {
                check(byte(o.0[i]) == if b[i] >= 0x80 { 0xff } else { 0x80 }, 9);
                i += 1;
            }
        }
        4 => {
            let t = sym(7) as u8;
            let m = g.match_tag(tag(t));
            let f = first(&b, |x| x == t);
            // a tag present is never missed, and the first report is real
            check(m.any_bit_set() == (f != W as u64), 10);
            check(m.trailing_zeros() as u64 == f, 11);
        }
        _ => {
            // aligned load, and a tag's own predicates
            let c = Ctl(unsafe { std::mem::transmute::<[u8; W], [Tag; W]>(b) });
            let g = unsafe { Group::load_aligned(c.0.as_ptr()) };
            check(g.match_empty().any_bit_set() == (first(&b, empty) != W as u64), 12);
            let mut i = 0;
            while i < W {
                check(c.0[i].is_full() == (b[i] < 0x80) && c.0[i].is_special() == (b[i] >= 0x80), 13);
                i += 1;
            }
            let h = sym(64);
            check(byte(Tag::full(h)) == (h >> 57) as u8, 14);
            check(Tag::full(h).is_full(), 15);
        }
    }
    cover(1);
}
/// three unknown bytes at any positions: the complete list of reports
fn listing(what: usize) {
    let mut b = [[0xffu8, 0x80, 5][pick(3)]; W];
    let p = pick(W);
    let q = pick(W);
    b[p] = any();
    b[q] = any();
    b[W - 1 - p] = any();
    let (g, _c) = group(&b);
    let t = if what == 3 { sym(7) as u8 } else { 0 };
    let m = match what {
        0 => g.match_empty(),
        1 => g.match_empty_or_deleted(),
        2 => g.match_full(),
        _ => g.match_tag(tag(t)),
    };
    let mut seen = [false; W];
    let mut last = 0;
    let mut n = 0;
    for i in m {
        check(i < W && (n == 0 || i > last), 20);
        last = i;
        n += 1;
        seen[i] = true;
    }
    let mut i = 0;
    let mut before = false;
    while i < W {
        let x = b[i];
        let hit = match what {
            0 => x == 0xff,
            1 => x >= 0x80,
            2 => x < 0x80,
            _ => x == t,
        };
        if hit {
            check(seen[i], 21);
            before = true;
        } else if seen[i] {
            // documented: a full byte differing in the lowest bit only, above a real match
            check(what == 3 && W == 8 && before && x == t ^ 1, 22);
        }
        i += 1;
    }
    cover(1);
}
fn empty_group() {
    let s = Group::static_empty();
    let mut i = 0;
    while i < W {
        check(byte(s[i]) == 0xff, 30);
        i += 1;
    }
    check(s.as_ptr() as usize % std::mem::align_of::<Group>() == 0, 31);
    cover(1);
}
entries! {
    t05_empty => whole(0);
    t05_special => whole(1);
    t05_full => whole(2);
    t05_convert => whole(3);
    t05_tag => whole(4);
    t05_aligned => whole(5);
    t05_list0 => listing(0);
    t05_list1 => listing(1);
    t05_list2 => listing(2);
    t05_list3 => listing(3);
    t05_static => empty_group();
}
