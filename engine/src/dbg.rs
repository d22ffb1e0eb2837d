//! Debug-location lookup in the textual metadata (file, function, line).
use crate::ir::Module;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local! {
    static IX: RefCell<HashMap<String, Rc<HashMap<u32, (usize, usize)>>>> = RefCell::new(HashMap::new());
}

fn index(m: &Module) -> Rc<HashMap<u32, (usize, usize)>> {
    IX.with(|ix| {
        if let Some(r) = ix.borrow().get(&m.path) {
            return r.clone();
        }
        let mut map = HashMap::new();
        let t: &str = &m.text;
        // metadata comes last
        let mut pos = t.find("\n!").map(|x| x + 1).unwrap_or(t.len());
        while pos < t.len() {
            let end = t[pos..].find('\n').map(|e| pos + e).unwrap_or(t.len());
            let l = &t[pos..end];
            if let Some(r) = l.strip_prefix('!') {
                let n = r.bytes().take_while(|c| c.is_ascii_digit()).count();
                if n > 0 {
                    if let Ok(k) = r[..n].parse() {
                        map.insert(k, (pos + 1 + n, end));
                    }
                }
            }
            pos = end + 1;
        }
        let r = Rc::new(map);
        ix.borrow_mut().insert(m.path.clone(), r.clone());
        r
    })
}
fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let key = format!("{k}: ");
    let mut from = 0;
    while let Some(p) = l[from..].find(&key) {
        let p = from + p;
        let pre = l.as_bytes()[p - 1];
        if pre == b'(' || pre == b' ' {
            let r = &l[p + key.len()..];
            if let Some(q) = r.strip_prefix('"') {
                let e = q.find('"')?;
                return Some(&q[..e]);
            }
            let e = r.find([',', ')']).unwrap_or(r.len());
            return Some(&r[..e]);
        }
        from = p + 1;
    }
    None
}
fn mref(l: &str, k: &str) -> Option<u32> {
    field(l, k)?.strip_prefix('!')?.parse().ok()
}

/// (file, function, line) of a DILocation, innermost first through the inline chain
pub fn chain(m: &Module, d: u32) -> Vec<(String, String, u32)> {
    let ix = index(m);
    let get = |k: u32| ix.get(&k).map(|(a, b)| &m.text[*a..*b]);
    let mut out = vec![];
    let mut cur = Some(d);
    while let Some(c) = cur {
        let Some(l) = get(c) else { break };
        if !l.contains("DILocation(") {
            break;
        }
        let line: u32 = field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut sc = mref(l, "scope");
        let mut name = String::new();
        let mut file = String::new();
        let mut guard = 0;
        while let Some(s) = sc {
            guard += 1;
            if guard > 50 {
                break;
            }
            let Some(sl) = get(s) else { break };
            if sl.contains("DISubprogram(") {
                name = field(sl, "linkageName").or(field(sl, "name")).unwrap_or("").to_string();
                let short = field(sl, "name").unwrap_or("").to_string();
                // qualify with enclosing namespaces
                let mut q = vec![short.clone()];
                let mut ns = mref(sl, "scope");
                while let Some(n) = ns {
                    let Some(nl) = get(n) else { break };
                    if let Some(x) = field(nl, "name") {
                        q.push(x.to_string());
                    }
                    ns = mref(nl, "scope");
                }
                q.reverse();
                if q.len() > 1 {
                    name = q.join("::");
                }
                if let Some(f) = mref(sl, "file").and_then(get) {
                    let fname = field(f, "filename").unwrap_or("");
                    let dir = field(f, "directory").unwrap_or("");
                    file = if fname.starts_with('/') { fname.to_string() } else { format!("{dir}/{fname}") };
                }
                break;
            }
            sc = mref(sl, "scope");
        }
        out.push((file, name, line));
        cur = mref(l, "inlinedAt");
    }
    out
}
pub fn loc(m: &Module, d: u32) -> String {
    if d == 0 {
        return "?".into();
    }
    chain(m, d).into_iter().take(4).map(|(f, _, l)| format!("{}:{}", f.rsplit("/repo/").next().unwrap_or(&f), l)).collect::<Vec<_>>().join(" < ")
}
