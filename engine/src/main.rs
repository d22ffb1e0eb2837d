mod dbg;
mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    ev: i16,
    rev: i16,
}

#[derive(Default)]
struct Res {
    st: BTreeMap<String, f64>,
    covers: BTreeMap<u64, u64>,
    viols: Vec<Viol>,
    inc: BTreeSet<String>,
    samples: Vec<String>,
    vis: BTreeMap<usize, BTreeSet<u32>>,
    fns: BTreeSet<String>,
}
fn esc(s: &str) -> String {
    s.replace(['\t', '\n'], " ")
}
impl Res {
    fn add(&mut self, k: &str, v: f64) {
        let e = self.st.entry(k.into()).or_insert(0.0);
        if k.starts_with("max_") {
            *e = e.max(v)
        } else {
            *e += v
        }
    }
    fn from(e: &mut Eng, base: &BTreeMap<String, f64>) -> Res {
        let mut r = Res::default();
        for (k, v) in stats(e) {
            let b = if k.starts_with("max_") { 0.0 } else { base.get(k).copied().unwrap_or(0.0) };
            r.add(k, v - b);
        }
        r.covers = e.covers.clone();
        r.viols = e.viols.clone();
        r.inc = e.incomplete.iter().cloned().collect();
        for (i, o) in &e.samples {
            let a: Vec<String> = i.iter().map(|x| format!("{x:x}")).collect();
            let b: Vec<String> = o.iter().map(|(t, x)| format!("{}{x:x}", if *t == 0 { "c" } else { "o" })).collect();
            r.samples.push(format!("{}\t{}", a.join(","), b.join(" ")));
        }
        for (m, _n, p, d) in e.visited() {
            r.fns.insert(esc(&p));
            r.vis.entry(m).or_default().extend(d);
        }
        r
    }
    fn text(&self) -> String {
        let mut s = String::new();
        for (k, v) in &self.st {
            s += &format!("stat\t{k}\t{v}\n");
        }
        for (k, v) in &self.covers {
            s += &format!("cover\t{k}\t{v}\n");
        }
        for v in &self.viols {
            let i: Vec<String> = v.inputs.iter().map(|x| format!("{x:x}")).collect();
            s += &format!("viol\t{}\t{}\t{}\t{}\t{}\n", v.kind, esc(&v.msg), esc(&v.at), i.join(","), esc(&v.trace.join(" <- ")));
        }
        for i in &self.inc {
            s += &format!("inc\t{}\n", esc(i));
        }
        for x in &self.samples {
            s += &format!("sample\t{x}\n");
        }
        for f in &self.fns {
            s += &format!("fn\t{f}\n");
        }
        for (m, d) in &self.vis {
            let d: Vec<String> = d.iter().map(|x| x.to_string()).collect();
            s += &format!("vis\t{m}\t{}\n", d.join(","));
        }
        s
    }
    fn merge(&mut self, t: &str) {
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "stat" => self.add(f[1], f[2].parse().unwrap_or(0.0)),
                "cover" => *self.covers.entry(f[1].parse().unwrap()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "viol" => {
                    if !self.viols.iter().any(|v| v.kind == f[1] && v.msg == f[2]) {
                        self.viols.push(Viol {
                            kind: f[1].into(),
                            msg: f[2].into(),
                            at: f[3].into(),
                            inputs: f[4].split(',').filter(|x| !x.is_empty()).map(|x| u128::from_str_radix(x, 16).unwrap()).collect(),
                            trace: vec![f[5].to_string()],
                        })
                    }
                }
                "inc" => {
                    self.inc.insert(f[1].into());
                }
                "sample" => self.samples.push(l[7..].to_string()),
                "fn" => {
                    self.fns.insert(f[1].into());
                }
                "vis" => {
                    self.vis.entry(f[1].parse().unwrap()).or_default().extend(f[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u32>().unwrap()));
                }
                _ => {}
            }
        }
    }
}
fn stats(e: &Eng) -> Vec<(&'static str, f64)> {
    vec![
        ("paths", e.paths_done as f64),
        ("paths_assumed_away", e.paths_assumed as f64),
        ("steps", e.steps as f64),
        ("forks", e.forks as f64),
        ("asserts", e.asserts as f64),
        ("asserts_solver", e.asserts_sym as f64),
        ("queries", e.z.queries as f64),
        ("query_cache_hits", e.z.cache_hits as f64),
        ("queries_sat", e.z.sat as f64),
        ("queries_unsat", e.z.unsat as f64),
        ("queries_unknown", e.z.unknown as f64),
        ("solver_s", e.z.time),
        ("max_query_s", e.z.max_time),
        ("concretizations", e.concretizations as f64),
        ("processes", 1.0),
    ]
}

struct Jobs {
    r: i32,
    w: i32,
}
impl Jobs {
    fn take(&self, pend: &mut Vec<(i32, String)>) {
        let mut b = 0u8;
        unsafe { while read(self.r, &mut b as *mut u8 as *mut _, 1) != 1 {
            let mut p = PollFd { fd: self.r, ev: 1, rev: 0 };
            poll(&mut p, 1, 1000);
            self.reap(pend);
        } }
    }
    /// A worker that died (memory, crash) never gave its job slot back.
    fn reap(&self, pend: &mut Vec<(i32, String)>) {
        pend.retain(|(pid, _)| {
            let mut s = 0;
            if unsafe { waitpid(*pid, &mut s, 1) } == *pid {
                if s != 0 {
                    self.give();
                }
                return false;
            }
            true
        });
    }
    fn try_take(&self) -> bool {
        let mut b = 0u8;
        unsafe { read(self.r, &mut b as *mut u8 as *mut _, 1) == 1 }
    }
    fn give(&self) {
        let b = 1u8;
        unsafe { write(self.w, &b as *const u8 as *const _, 1) };
    }
}

fn explore(e: &mut Eng, jobs: &Jobs, stop: &str, tmp: &str, deadline: Instant, base: BTreeMap<String, f64>) -> Res {
    let mut kids: Vec<(i32, String)> = vec![];
    let mut last = Instant::now();
    let mut base = base;
    let mut nkid = 0;
    while let Some(st) = e.work.pop() {
        e.run_one(st);
        if e.viols.len() >= e.max_viol {
            let _ = std::fs::write(stop, "x");
            break;
        }
        if last.elapsed() > Duration::from_millis(60) {
            last = Instant::now();
            if Instant::now() > deadline {
                e.incomplete.push("time limit".into());
                break;
            }
            if std::path::Path::new(stop).exists() {
                e.incomplete.push("stopped: violation found elsewhere".into());
                break;
            }
            while e.work.len() >= 2 && jobs.try_take() {
                let all = std::mem::take(&mut e.work);
                let (mut a, mut b) = (vec![], vec![]);
                for (i, s) in all.into_iter().enumerate() {
                    if i % 2 == 0 {
                        a.push(s)
                    } else {
                        b.push(s)
                    }
                }
                nkid += 1;
                let f = format!("{tmp}.{nkid}");
                let pid = unsafe { fork() };
                if pid == 0 {
                    e.work = a;
                    kids.clear();
                    base = stats(e).into_iter().map(|(k, v)| (k.to_string(), v)).collect();
                    base.insert("processes".into(), 0.0);
                    e.covers.clear();
                    e.viols.clear();
                    e.incomplete.clear();
                    e.samples.clear();
                    e.sample_cap = 2;
                    let r = explore(e, jobs, stop, &f, deadline, base.clone());
                    let _ = std::fs::write(&f, r.text());
                    unsafe { _exit(0) };
                }
                if pid < 0 {
                    e.work = a;
                    e.work.extend(b);
                    jobs.give();
                    break;
                }
                kids.push((pid, f));
                e.work = b;
            }
        }
    }
    if !e.viols.is_empty() {
        let _ = std::fs::write(stop, "x");
    }
    if e.fork_dbg {
        let mut v: Vec<_> = e.fork_at.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("fork {n} {k}");
        }
    }
    let mut r = Res::from(e, &base);
    e.work.clear();
    jobs.give();
    for (pid, f) in kids {
        let mut s = 0;
        unsafe { waitpid(pid, &mut s, 0) };
        match std::fs::read_to_string(&f) {
            Ok(t) if s == 0 => r.merge(&t),
            _ => {
                jobs.give();
                r.inc.insert(format!("worker process failed (status {s})"));
            }
        }
        let _ = std::fs::remove_file(&f);
    }
    r
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut lls = vec![];
    let mut entries = vec![];
    let mut jobs = 8;
    let mut time = 600.0f64;
    let mut out = String::from("/tmp/irsym-out");
    let mut max_steps = 3_000_000u64;
    let mut rlimit = 40_000_000u32;
    let mut keep = String::from("/repo/");
    let mut i = 0;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => lls.extend(nx().split(',').map(|s| s.to_string())),
            "--entry" => entries.extend(nx().split(',').map(|s| s.to_string())),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--time" => time = nx().parse().unwrap(),
            "--out" => out = nx(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--rlimit" => rlimit = nx().parse().unwrap(),
            "--keep" => keep = nx(),
            x => panic!("arg {x}"),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let mut e = Eng::new(&lls, rlimit);
    e.max_steps = max_steps;
    e.deadline = Some(Instant::now() + Duration::from_secs_f64(time));
    eprintln!("loaded {} modules in {:.2}s", lls.len(), t0.elapsed().as_secs_f64());
    let mut fds = [0i32; 2];
    unsafe {
        pipe(fds.as_mut_ptr());
        fcntl(fds[0], 4, 0o4000); // F_SETFL O_NONBLOCK
    }
    let j = Jobs { r: fds[0], w: fds[1] };
    for _ in 0..jobs {
        j.give();
    }
    let deadline = Instant::now() + Duration::from_secs_f64(time);
    let mut pend: Vec<(i32, String)> = vec![];
    for en in &entries {
        j.take(&mut pend);
        let f = format!("{out}.{en}");
        let _ = std::fs::remove_file(&f);
        let pid = unsafe { fork() };
        if pid == 0 {
            let t = Instant::now();
            let stop = format!("{f}.stop");
            let _ = std::fs::remove_file(&stop);
            let mut r;
            match e.start(en) {
                Ok(()) => r = explore(&mut e, &j, &stop, &format!("{f}.w"), deadline, BTreeMap::new()),
                Err(x) => {
                    j.give();
                    r = Res::default();
                    r.inc.insert(x);
                }
            }
            let _ = std::fs::remove_file(&stop);
            let mut s = r.text();
            // source lines
            let mut fl: BTreeMap<(String, String), BTreeSet<u32>> = BTreeMap::new();
            for (m, ds) in &r.vis {
                for d in ds {
                    for (file, func, line) in dbg::chain(&e.mods[*m], *d) {
                        if keep.split(',').any(|k| file.contains(k)) {
                            fl.entry((file, func)).or_default().insert(line);
                        }
                    }
                }
            }
            for ((file, func), lines) in fl {
                let l: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
                s += &format!("src\t{file}\t{}\t{}\n", esc(&func), l.join(","));
            }
            s += &format!("stat\twall_s\t{:.3}\n", t.elapsed().as_secs_f64());
            let status = if !r.viols.is_empty() {
                "violation"
            } else if !r.inc.is_empty() {
                "incomplete"
            } else {
                "ok"
            };
            s += &format!("status\t{status}\n");
            let s: String = s.lines().filter(|l| !l.starts_with("vis\t")).map(|l| format!("{l}\n")).collect();
            let tmpf = format!("{f}.tmp");
            let mut h = std::fs::File::create(&tmpf).unwrap();
            h.write_all(s.as_bytes()).unwrap();
            let _ = std::fs::rename(&tmpf, &f);
            eprintln!(
                "{en}: {status} paths={} assumed={} forks={} steps={} queries={} solver={:.2}s wall={:.2}s procs={} {}",
                r.st["paths"], r.st["paths_assumed_away"], r.st["forks"], r.st["steps"], r.st["queries"], r.st["solver_s"], t.elapsed().as_secs_f64(), r.st["processes"],
                r.viols.iter().map(|v| format!("[{} {}]", v.kind, v.msg)).chain(r.inc.iter().take(3).map(|x| format!("<{x}>"))).collect::<Vec<_>>().join(" ")
            );
            unsafe { _exit(0) };
        }
        pend.push((pid, f));
    }
    for (pid, _f) in pend {
        let mut s = 0;
        unsafe { waitpid(pid, &mut s, 0) };
    }
}
