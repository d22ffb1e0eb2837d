//! B01, B02: the interpreter's own stream buffers (monoruby/src/value/rvalue/io/buf.rs), compiled
//! from the file itself.  The stream below the buffer is an environment that may do anything a
//! kernel may: take part of the bytes, refuse, be interrupted, fail.
use crate::v::*;
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Error, ErrorKind, Read, Seek, SeekFrom, Write};

#[path = "/repo/monoruby/src/value/rvalue/io/buf.rs"]
mod buf;
use buf::*;

const CAPA: usize = 8192;

// ---------------------------------------------------------------- B01: write side

/// What the environment did at its most recent calls.
struct Env {
    out: RefCell<Vec<u8>>,
    /// the last poll said no signal is pending and no kernel entry happened since
    clear: Cell<bool>,
    /// the last answer of the poll
    pending: Cell<bool>,
    /// 0 took bytes, 1 interrupted, 2 would block, 3 hard error, 4 took nothing
    last: Cell<u8>,
    left: Cell<u32>,
    polls: Cell<u32>,
}

impl Env {
    fn new(calls: u32, polls: u32) -> Env {
        Env {
            out: RefCell::new(Vec::new()),
            clear: Cell::new(false),
            pending: Cell::new(false),
            last: Cell::new(0),
            left: Cell::new(calls),
            polls: Cell::new(polls),
        }
    }
    fn poll(&self) -> bool {
        let p = self.polls.get();
        let r = p > 0 && sym_bool();
        if p > 0 {
            self.polls.set(p - 1);
        }
        self.pending.set(r);
        self.clear.set(!r);
        r
    }
}

struct Sink<'a>(&'a Env);

impl Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let e = self.0;
        // the signal poll comes before every kernel entry
        check(e.clear.get(), 1);
        e.clear.set(false);
        // and the kernel is not asked to take nothing
        check(!b.is_empty(), 2);
        let left = e.left.get();
        // after the budget of misbehaviours the environment takes everything
        let kind = if left == 0 { 0 } else { pick(5) };
        if left > 0 {
            e.left.set(left - 1);
        }
        e.last.set(kind as u8);
        match kind {
            0 => {
                let n = if left == 0 {
                    b.len()
                } else if b.len() <= 4 {
                    1 + pick(b.len())
                } else {
                    [1, 2, b.len() - 1, b.len()][pick(4)]
                };
                e.out.borrow_mut().extend_from_slice(&b[..n]);
                Ok(n)
            }
            1 => Err(ErrorKind::Interrupted.into()),
            2 => Err(ErrorKind::WouldBlock.into()),
            3 => Err(ErrorKind::BrokenPipe.into()),
            _ => Ok(0),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// `accepted` is everything handed in and reported as accepted, in order: it must be what the
/// kernel has taken followed by what is still buffered.
fn conserved(w: &WriteBuf, e: &Env, accepted: &[u8]) {
    let out = e.out.borrow();
    check(out.len() + w.buffered_len() == accepted.len(), 10);
    check(out.len() <= accepted.len(), 11);
    let mut same = true;
    for i in 0..out.len() {
        same &= out[i] == accepted[i];
    }
    check(same, 12);
}

/// The error a call may end with, given what the environment did last.
fn verdict(r: &Result<(), DrainErr>, e: &Env) {
    match r {
        Ok(()) => {}
        Err(DrainErr::Signal) => {
            cover(2);
            check(e.pending.get(), 20)
        }
        Err(DrainErr::WouldBlock) => {
            cover(3);
            check(e.last.get() == 2, 21)
        }
        Err(DrainErr::Io(_)) => {
            cover(4);
            check(e.last.get() == 3 || e.last.get() == 4, 22)
        }
    }
}

/// A caller's loop: retries after a signal or a park, gives up on an error (then the stream's
/// remaining bytes must still be exactly what was not taken).
fn drain_all(w: &mut WriteBuf, e: &Env, accepted: &[u8], tries: usize) -> bool {
    for _ in 0..tries {
        let r = w.drain(&mut Sink(e), &|| e.poll());
        verdict(&r, e);
        conserved(w, e, accepted);
        if r.is_ok() {
            check(w.buffered_len() == 0, 30);
            return true;
        }
        if matches!(r, Err(DrainErr::Io(_))) {
            return false;
        }
    }
    false
}

fn write_all(w: &mut WriteBuf, e: &Env, accepted: &mut Vec<u8>, data: &[u8], tries: usize) -> bool {
    let mut progress = 0;
    let through = w.writes_through();
    let had = w.buffered_len();
    for _ in 0..tries {
        let before = progress;
        let calls = e.out.borrow().len();
        let r = w.write(&mut Sink(e), data, &mut progress, &|| e.poll());
        verdict(&r, e);
        check(progress >= before && progress <= data.len(), 40);
        accepted.extend_from_slice(&data[before..progress]);
        conserved(w, e, accepted);
        match r {
            Ok(()) => {
                check(progress == data.len(), 41);
                if through {
                    // a write-through stream holds nothing back
                    check(w.buffered_len() == 0, 42);
                } else if had + data.len() < 64 {
                    // small writes stay in the buffer
                    check(w.buffered_len() == had + data.len(), 43);
                    check(e.out.borrow().len() == calls, 44);
                }
                return true;
            }
            Err(DrainErr::Io(_)) => {
                if through && before == 0 {
                    // nothing new is left behind for a later flush to trip over
                    check(w.buffered_len() <= had, 45);
                }
                return false;
            }
            _ => {}
        }
    }
    false
}

fn some_bytes(n: usize) -> Vec<u8> {
    let mut d = Vec::with_capacity(n);
    for i in 0..n {
        // the ends are unknown, a long middle is a pattern
        d.push(if i < 2 || i + 2 >= n { sym8() } else { (i % 251) as u8 });
    }
    d
}

/// Histories of small writes, flushes and mode changes.
fn small(ops: usize, calls: u32, polls: u32) {
    let e = Env::new(calls, polls);
    let mut w = WriteBuf::new(sym_bool(), sym_bool());
    let mut acc = Vec::new();
    for _ in 0..ops {
        match pick(3) {
            0 => {
                let n = pick(4);
                let d = some_bytes(n);
                if !write_all(&mut w, &e, &mut acc, &d, 3) {
                    return;
                }
            }
            1 => {
                if !drain_all(&mut w, &e, &acc, 3) {
                    return;
                }
            }
            _ => {
                let s = sym_bool();
                w.set_sync(s);
                check(w.sync() == s, 50);
                conserved(&w, &e, &acc);
            }
        }
        obs(w.buffered_len() as u64);
        obs(e.out.borrow().len() as u64);
    }
    if drain_all(&mut w, &e, &acc, 3) {
        check(e.out.borrow().len() == acc.len(), 51);
        cover(1);
    }
}

/// Around the capacity: what is buffered plus what comes is CAPA-2 .. CAPA+1 or far more.
fn edge() {
    let e = Env::new(2, 1);
    let mut w = WriteBuf::new(false, false);
    let mut acc = Vec::new();
    let first = pick(3);
    let d = some_bytes(first);
    if !write_all(&mut w, &e, &mut acc, &d, 2) {
        return;
    }
    let n = [CAPA - 2 - first, CAPA - 1 - first, CAPA - first, CAPA + 1 - first, CAPA - 1, CAPA, 2 * CAPA + 1][pick(7)];
    let d = some_bytes(n);
    if !write_all(&mut w, &e, &mut acc, &d, 3) {
        return;
    }
    let d = some_bytes(2);
    if !write_all(&mut w, &e, &mut acc, &d, 3) {
        return;
    }
    if drain_all(&mut w, &e, &acc, 3) {
        cover(1);
    }
    obs(acc.len() as u64);
}

/// The paired writer is the same buffer with its sink.
fn paired() {
    let e = Env::new(2, 2);
    let (sync, tty) = (sym_bool(), sym_bool());
    let mut w = IoWriter::new(Sink(&e), sync, tty);
    check(w.sync() == sync, 60);
    let d = some_bytes(3);
    let mut progress = 0;
    let r = w.write(&d, &mut progress, &|| e.poll());
    verdict(&r, &e);
    let mut acc = d[..progress].to_vec();
    let s = sym_bool();
    w.set_sync(s);
    check(w.sync() == s, 61);
    if r.is_ok() {
        check(progress == 3, 62);
        if !(sync || tty) {
            check(e.out.borrow().is_empty(), 63);
        }
        let d = some_bytes(1);
        let mut p = 0;
        let r = w.write(&d, &mut p, &|| e.poll());
        acc.extend_from_slice(&d[..p]);
        verdict(&r, &e);
    }
    let r = w.drain(&|| e.poll());
    verdict(&r, &e);
    let out = e.out.borrow();
    check(out.len() <= acc.len(), 64);
    let mut same = true;
    for i in 0..out.len() {
        same &= out[i] == acc[i];
    }
    check(same, 65);
    if r.is_ok() {
        check(out.len() == acc.len(), 66);
        cover(1);
    }
}

// ---------------------------------------------------------------- B02: read side

/// A seekable file of fixed content.  Reads may be short, interrupted or refused.
struct File<'a> {
    data: &'a [u8],
    pos: u64,
    quirks: u32,
    failed: &'a Cell<bool>,
}

impl Read for File<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        check(!out.is_empty(), 101);
        let kind = if self.quirks == 0 { 0 } else { pick(3) };
        if kind == 2 {
            self.quirks -= 1;
            self.failed.set(true);
            return Err(ErrorKind::Interrupted.into());
        }
        if self.pos >= self.data.len() as u64 {
            return Ok(0);
        }
        let pos = conc(self.pos) as usize;
        let max = (self.data.len() - pos).min(out.len());
        let n = if kind == 0 {
            max
        } else {
            self.quirks -= 1;
            if max <= 3 { 1 + pick(max) } else { [1, 2, max - 1][pick(3)] }
        };
        out[..n].copy_from_slice(&self.data[pos..pos + n]);
        self.pos = (pos + n) as u64;
        Ok(n)
    }
}

impl Seek for File<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let to = match p {
            SeekFrom::Start(n) => (n <= i64::MAX as u64).then_some(n),
            SeekFrom::Current(d) => (self.pos as i64).checked_add(d).filter(|x| *x >= 0).map(|x| x as u64),
            SeekFrom::End(d) => (self.data.len() as i64).checked_add(d).filter(|x| *x >= 0).map(|x| x as u64),
        };
        match to {
            Some(t) => {
                self.pos = t;
                Ok(t)
            }
            None => {
                self.failed.set(true);
                Err(ErrorKind::InvalidInput.into())
            }
        }
    }
}

struct Logical<'a> {
    data: &'a [u8],
    pos: u64,
}
impl Logical<'_> {
    /// the bytes from the logical position on
    fn rest(&self) -> &[u8] {
        if self.pos >= self.data.len() as u64 {
            return &[];
        }
        &self.data[conc(self.pos) as usize..]
    }
}

fn prefix(a: &[u8], of: &[u8]) -> bool {
    if a.len() > of.len() {
        return false;
    }
    let mut same = true;
    for i in 0..a.len() {
        same &= a[i] == of[i];
    }
    same
}

fn read_step(r: &mut IoReader<File>, l: &mut Logical, failed: &Cell<bool>, n: usize) {
    let mut out = vec![0x5au8; n];
    failed.set(false);
    let res = r.read(&mut out);
    match res {
        Ok(k) => {
            check(!failed.get(), 110);
            check(k <= n, 111);
            check(prefix(&out[..k], l.rest()), 112);
            // nothing is returned only at the end of the file
            check(k > 0 || n == 0 || l.rest().is_empty(), 113);
            l.pos += k as u64;
        }
        Err(_) => {
            cover(2);
            check(failed.get(), 114)
        }
    }
    check(prefix(r.buffer(), l.rest()), 115);
}

fn seek_step(r: &mut IoReader<File>, l: &mut Logical, failed: &Cell<bool>, p: SeekFrom) {
    let want = match p {
        SeekFrom::Start(n) => (n <= i64::MAX as u64).then_some(n),
        SeekFrom::Current(d) => (l.pos as i64).checked_add(d).filter(|x| *x >= 0).map(|x| x as u64),
        SeekFrom::End(d) => (l.data.len() as i64).checked_add(d).filter(|x| *x >= 0).map(|x| x as u64),
    };
    failed.set(false);
    match r.seek(p) {
        Ok(t) => {
            check(want == Some(t), 120);
            l.pos = t;
            check(r.buffer().is_empty(), 121);
            check(r.get_ref().pos == t, 122);
        }
        Err(_) => {
            cover(3);
            check(want.is_none(), 123);
        }
    }
    check(r.buffer().is_empty() || prefix(r.buffer(), l.rest()), 124);
}

fn read_hist(len: usize, ops: usize, quirks: u32) {
    let mut data = Vec::with_capacity(len);
    for _ in 0..len {
        data.push(sym8());
    }
    let failed = Cell::new(false);
    let mut r = IoReader::new(File { data: &data, pos: 0, quirks, failed: &failed });
    let mut l = Logical { data: &data, pos: 0 };
    check(r.buffer().is_empty(), 130);
    for i in 0..ops {
        // distances: any 64-bit number in the last step, near ones before
        let dist = || if i + 1 == ops { sym(64) as i64 } else { sym(4) as i64 - 8 };
        match pick(6) {
            0 => read_step(&mut r, &mut l, &failed, pick(len + 2)),
            1 => {
                failed.set(false);
                let n = match r.fill_buf() {
                    Ok(b) => {
                        check(prefix(b, l.rest()), 131);
                        check(!b.is_empty() || l.rest().is_empty(), 132);
                        Some(b.len())
                    }
                    Err(_) => {
                        check(failed.get(), 133);
                        None
                    }
                };
                if let Some(n) = n {
                    // consuming more than there is stops at the end of the buffer
                    let k = conc(sym(3)) as usize;
                    r.consume(k);
                    l.pos += k.min(n) as u64;
                    check(prefix(r.buffer(), l.rest()), 134);
                    check(r.buffer().len() == n - k.min(n), 135);
                }
            }
            2 => seek_step(&mut r, &mut l, &failed, SeekFrom::Start(dist() as u64)),
            3 => seek_step(&mut r, &mut l, &failed, SeekFrom::Current(dist())),
            4 => seek_step(&mut r, &mut l, &failed, SeekFrom::End(dist())),
            _ => {
                // a request of the buffer's size goes around it
                let before = r.buffer().len();
                read_step(&mut r, &mut l, &failed, CAPA);
                obs(before as u64);
            }
        }
        obs(l.pos);
        obs(r.buffer().len() as u64);
    }
    cover(1);
    check(r.into_inner().data.len() == len, 136);
}

/// A file longer than the buffer, read in pieces around its capacity.
fn read_long() {
    let len = CAPA + 3;
    let mut data = Vec::with_capacity(len);
    for i in 0..len {
        data.push(if i % 2048 < 2 || i + 3 >= len { sym8() } else { (i % 253) as u8 });
    }
    let failed = Cell::new(false);
    let mut r = IoReader::new(File { data: &data, pos: 0, quirks: 1, failed: &failed });
    let mut l = Logical { data: &data, pos: 0 };
    for _ in 0..3 {
        let n = [2, CAPA - 1, CAPA, CAPA + 1, CAPA + 5][pick(5)];
        read_step(&mut r, &mut l, &failed, n);
        obs(l.pos);
    }
    let d = sym(64) as i64;
    seek_step(&mut r, &mut l, &failed, SeekFrom::Current(d));
    cover(1);
}

entries! {
    b01_hist2 => small(2, 2, 2);
    b01_hist3 => small(3, 2, 1);
    b01_hist3q => small(3, 1, 3);
    b01_hist4 => small(4, 2, 2);
    b01_edge => edge();
    b01_paired => paired();
    b02_hist2 => read_hist(2, 2, 2);
    b02_hist3 => read_hist(3, 3, 1);
    b02_hist3e => read_hist(0, 3, 1);
    b02_hist4 => read_hist(3, 4, 1);
    b02_long => read_long();
}
