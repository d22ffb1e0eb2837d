"""Cuts the parts that need nothing else of the interpreter out of /repo/monoruby's sources.

The monoruby crate itself cannot be compiled here (its dependencies are not available offline), so
its self-contained pieces are compiled from the current source text: files that use only std are
included as they are, from others the items naming unavailable types are left out.  What is cut is
decided by the text of an item (a list of names it must not mention), never by a list of items to
keep, so new private helpers and renamed ones come along by themselves.
"""
import os
import re


def _skip(s, i):
    """Index after the string, char literal, comment or lifetime starting at i, or i."""
    c = s[i]
    if s.startswith("//", i):
        j = s.find("\n", i)
        return len(s) if j < 0 else j
    if s.startswith("/*", i):
        d, j = 1, i + 2
        while d and j < len(s):
            if s.startswith("/*", j):
                d, j = d + 1, j + 2
            elif s.startswith("*/", j):
                d, j = d - 1, j + 2
            else:
                j += 1
        return j
    m = re.compile(r'(?:b|c)?r(#*)"').match(s, i)
    if m and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
        j = s.find('"' + m.group(1), m.end())
        return j + 1 + len(m.group(1))
    if c == '"':
        j = i + 1
        while s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j + 1
    if c == "'":
        m = re.compile(r"'(?:\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'").match(s, i)
        if m:
            return m.end()
        return i + 1
    return i


def strip(s):
    """The text without comments (strings kept)."""
    out, i = [], 0
    while i < len(s):
        j = _skip(s, i)
        if j > i:
            if s[i] != "/":
                out.append(s[i:j])
            i = j
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


_SEMI = re.compile(r"\s*(?:#!?\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:use|const(?!\s+(?:unsafe\s+|extern\s+|async\s+)*fn)|static|type|extern\s+crate)\b")


def items(s):
    """Splits a module body (or an impl body) into items, attributes and comments included."""
    res, start, i, depth = [], 0, 0, 0
    head = ""
    while i < len(s):
        j = _skip(s, i)
        if j > i:
            if s[i] != "/":
                head += s[i:j]
            i = j
            continue
        c = s[i]
        head += c
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if c == "}" and depth == 0 and not _SEMI.match(head):
                # a macro invocation with braces may be followed by ';'
                k = i + 1
                res.append(s[start:k])
                start, head = k, ""
        elif c == ";" and depth == 0:
            res.append(s[start:i + 1])
            start, head = i + 1, ""
        i += 1
    if s[start:].strip():
        res.append(s[start:])
    return res


def is_impl(it):
    t = re.sub(r"^\s*(?:#\[[^\]]*\]\s*)*", "", strip(it))
    return re.match(r"(?:unsafe\s+)?impl\b", t) is not None


def fn_name(it):
    m = re.search(r"\bfn\s+(\w+)", strip(it))
    return m.group(1) if m else None


def tests(it):
    """Is the item compiled for tests only?"""
    return re.match(r"\s*(?:#\[[^\]]*\]\s*)*#\[(?:cfg\(test\)|test)\]", strip(it)) is not None


def cut(s, deny, drop=(), trans=True):
    """Leaves out test modules, items whose text matches `deny` and functions named in `drop`;
    with `trans`, also functions calling a free function that was left out."""
    deny = re.compile(deny)
    parts = []  # (kind, text or (head, members))
    for it in items(s):
        if tests(it):
            continue
        if is_impl(it):
            b = _open(it)
            parts.append(["impl", it[:b + 1], [m for m in items(it[b + 1:it.rindex("}")]) if not tests(m)]])
        else:
            parts.append(["item", it, None])
    gone = set(drop)
    while True:
        n = len(gone)
        new = []
        bad = lambda t: deny.search(t) or (trans and gone and re.search(
            r"(?<![\w.])(?:%s)\s*(?:::<[^>]*>)?\(" % "|".join(map(re.escape, sorted(gone))),
            re.sub(r"\bfn\s+\w+", "fn", t)))
        for k, a, m in parts:
            if k == "item":
                t = strip(a)
                nm = fn_name(a) if re.search(r"^\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:const\s+|unsafe\s+|extern\s+\"[^\"]*\"\s+)*fn\b", t) else None
                if bad(t) or nm in gone:
                    if nm:
                        gone.add(nm)
                    continue
                new.append([k, a, m])
            else:
                if deny.search(strip(a)):
                    continue
                ms = [x for x in m if not bad(strip(x)) and fn_name(x) not in gone]
                new.append([k, a, ms])
        parts = new
        if len(gone) == n:
            break
    out = []
    for k, a, m in parts:
        out.append(a if k == "item" else a + "".join(m) + "\n}\n")
    return "".join(out)


def _open(it):
    """Index of the brace opening an impl body."""
    i, par = 0, 0
    while i < len(it):
        j = _skip(it, i)
        if j > i:
            i = j
            continue
        if it[i] in "([":
            par += 1
        elif it[i] in ")]":
            par -= 1
        elif it[i] == "{" and par == 0:
            return i
        i += 1
    raise ValueError("no body")


def write(build, name, text):
    d = os.path.join(build, "gen")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    # inner doc comments and attributes are only allowed at the top of a file
    text = re.sub(r"(?m)^\s*//!.*$", "", text)
    text = re.sub(r"(?m)^#!\[.*\]$", "", text)
    if not os.path.exists(p) or open(p).read() != text:
        with open(p + ".tmp", "w") as f:
            f.write(text)
        os.replace(p + ".tmp", p)


def several(*fs):
    def f(repo, build):
        for g in fs:
            g(repo, build)
    return f


def slicer(src, name, deny, drop=(), subst=(), trans=True):
    def f(repo, build):
        with open(os.path.join(repo, src)) as fh:
            t = cut(fh.read(), deny, drop, trans)
        for a, b in subst:
            t = re.sub(a, b, t)
        write(build, name, t)
    return f


def names(f):
    """Functions of a file that stand-ins replace or that are not wanted; one that is new there is
    taken along when something reaches it."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/kernels", f)) as fh:
        return fh.read().split()


def reach(s, roots, deny, keep=r"$^", drop=()):
    """For files that mix a little self-contained code with much that is not: keeps the functions
    named in `roots` ("*": all) and whatever functions of the file they call, the types, constants, macros and
    trait impls not matching `deny`, and nothing else.  Functions matching `deny` are left out
    unless they match `keep`."""
    deny, keep = re.compile(deny), re.compile(keep)
    bad = lambda t: deny.search(t) and not keep.search(t)
    fns, fixed, order = {}, [], []
    isfn = re.compile(r"^\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:const\s+|unsafe\s+|extern\s+\"[^\"]*\"\s+)*fn\b")
    for it in items(s):
        t = strip(it)
        if tests(it):
            continue
        if is_impl(it):
            b = _open(it)
            head = strip(it[:b])
            body = [m for m in items(it[b + 1:it.rindex("}")]) if not tests(m)]
            if re.search(r"\bfor\b", re.sub(r"for\s*<", "", head)):
                if not bad(t):
                    fixed.append(t)
                    order.append(("item", it, None, None))
            elif not deny.search(head):
                ms = []
                for m in body:
                    if isfn.search(strip(m)):
                        fns.setdefault(fn_name(m), []).append(strip(m))
                        ms.append((fn_name(m), m))
                    elif not bad(strip(m)):
                        ms.append((None, m))
                order.append(("impl", it[:b + 1], ms, None))
        elif isfn.search(t):
            fns.setdefault(fn_name(it), []).append(t)
            order.append(("fn", it, None, fn_name(it)))
        elif not bad(t):
            fixed.append(t)
            order.append(("item", it, None, None))
    gone = {n for n in fns if n in drop or all(bad(t) for t in fns[n])}
    seen, todo = set(), [r for r in fns if roots == "*" or r in roots]
    text = list(fixed)
    called = lambda t: {m for m in re.findall(r"(\w+)\s*(?:::<[^>]*>)?\(", t)} | set(re.findall(r"::(\w+)\b", t))
    for t in text:
        macro = re.match(r"\s*(?:#\[[^\]]*\]\s*)*\w+!", t)
        todo += [n for n in (re.findall(r"\w+", t) if macro else called(t)) if n in fns]
    while todo:
        n = todo.pop()
        if n in seen or n in gone:
            continue
        seen.add(n)
        for t in fns[n]:
            todo += [x for x in called(t) if x in fns]
    out = []
    for k, a, ms, n in order:
        if k == "impl":
            m = "".join(x for nm, x in ms if nm is None or nm in seen and not bad(strip(x)))
            if m.strip():
                out.append(a + m + "\n}\n")
        elif k == "fn":
            if n in seen and not bad(strip(a)):
                out.append(a)
        else:
            out.append(a)
    return "".join(out)


def reacher(files):
    """files: (source, name, arguments of `reach`, substitutions)"""
    def f(repo, build):
        for src, name, args, subst in files:
            with open(os.path.join(repo, src)) as fh:
                t = reach(fh.read(), **args)
            for a, b in subst:
                t = re.sub(a, b, t)
            write(build, name, t)
    return f
