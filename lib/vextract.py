"""Mechanical extraction of real functions into a Verus file, with contracts put in.

A .vspec file says what to take from which source file and which contracts, invariants and proof
hints to attach.  The executable text is taken verbatim from /repo on every run; what happens to it:
  * attributes and doc comments in front of items and inside them are dropped (inline, allow, derive,
    cfg(test) items are dropped whole), and so is `pub` (the unit is one module);
  * `-> T` becomes `-> (r: T)`, contract clauses go between signature and body;
  * loop invariants go between a loop's header and body (`for x in e` becomes `for x in it: e` if named);
  * proof blocks (ghost code) go at the start of a body, at the start/end of a loop body, or before the
    n-th top-level statement / before the tail expression;
  * `subst` lines replace one exact piece of text by another: each is listed in the evidence.
Anything the spec names that isn't found raises Lost.
"""
import os, re, threading


class Lost(Exception):
    pass


def mask(s):
    """same length as s, with comments, string and char literals blanked"""
    out = list(s)
    i, n = 0, len(s)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith("/*", j):
                    d += 1
                    j += 2
                elif s.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == '"' or (c in "rb" and re.match(r'b?r?#*"', s[i:i + 6]) and not (i and (s[i - 1].isalnum() or s[i - 1] == "_"))):
            m = re.match(r'(b?)(r?)(#*)"', s[i:])
            j = i + m.end()
            if m.group(2):
                j = s.find('"' + m.group(3), j)
                j += 1 + len(m.group(3))
            else:
                while s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
                j += 1
            blank(i + 1, j - 1)
            if out[i] not in '"':
                blank(i, i + 1)
            i = j
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:])
            if m:
                blank(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


OPEN = {"(": ")", "[": "]", "{": "}"}


def match_close(m, i):
    """index after the bracket closing the one at i (in masked text)"""
    st = []
    n = len(m)
    while i < n:
        c = m[i]
        if c in OPEN:
            st.append(OPEN[c])
        elif c in ")]}":
            if not st or st.pop() != c:
                raise Lost("unbalanced brackets")
            if not st:
                return i + 1
        i += 1
    raise Lost("unbalanced brackets")


class Item:
    def __init__(self, kind, key, text, head_end, body):
        self.kind, self.key, self.text, self.head_end, self.body = kind, key, text, head_end, body


def strip_generics(t):
    out, d = [], 0
    t = t.replace("->", "\0\0")
    for c in t:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out).replace("\0\0", "->")


def items(src):
    """top-level items of a piece of Rust: (kind, key, text) with attributes removed"""
    m = mask(src)
    i, n = 0, len(src)
    res = []
    while True:
        while i < n and m[i].isspace():
            i += 1
        if i >= n:
            return res
        attrs = ""
        while m.startswith("#", i):
            j = m.index("[", i)
            e = match_close(m, j)
            attrs += src[i:e] + " "
            i = e
            while i < n and m[i].isspace():
                i += 1
        a = i
        # up to `;` or a `{...}` block at depth 0
        j = i
        angle = 0
        while j < n and m[j] not in "{;":
            j = match_close(m, j) if m[j] in "([" else j + 1
        if j >= n:
            return res
        eq = re.match(r"(pub(\([^)]*\))?\s+)?(const|static|type|use)\b", m[a:j])
        if m[j] == "{" and not (eq and eq.group(3) in ("const", "static") and "fn" not in m[a:j]) and not (eq and eq.group(3) == "use"):
            e = match_close(m, j)
            body = (j - a, e - a)
        else:
            e = j
            while m[e] != ";":
                e = match_close(m, e) if m[e] in OPEN else e + 1
            e += 1
            body = None
        text = src[a:e]
        head = " ".join(m[a:j].split())
        kind, key = classify(head)
        if not re.search(r"cfg\s*\(\s*test\s*\)|#\s*\[\s*test\s*\]", attrs):
            it = Item(kind, key, text, j - a, body)
            it.attrs = attrs
            res.append(it)
        i = e


def classify(head):
    h = re.sub(r"^(pub(\([^)]*\))?\s+)", "", head)
    m = re.match(r"(unsafe\s+|async\s+|extern\s+)*(const\s+)?fn\s+(\w+)", h)
    if m and not re.match(r"const\s+\w+\s*:", h):
        return "fn", m.group(3)
    m = re.match(r"(struct|enum|trait|mod|union)\s+(\w+)", h)
    if m:
        return m.group(1), m.group(2)
    m = re.match(r"(const|static|type)\s+(\w+)", h)
    if m:
        return m.group(1), m.group(2)
    if h.startswith("impl"):
        g = strip_generics(h[4:]).split(" where ")[0]
        return "impl", " ".join(re.sub(r"[&']\w*\s*", "", g).split())
    if h.startswith("use"):
        return "use", h[3:].strip()
    return "other", h[:40]


def drop_attrs(text):
    """remove #[...] and #![...] anywhere in a piece of code"""
    m = mask(text)
    out, i = [], 0
    for mm in re.finditer(r"#!?\s*\[", m):
        if mm.start() < i:
            continue
        e = match_close(m, mm.end() - 1)
        out.append(text[i:mm.start()])
        i = e
    out.append(text[i:])
    return "".join(out)


def drop_pub(text):
    m = mask(text)
    out, i = [], 0
    for mm in re.finditer(r"\bpub(\([^)]*\))?\s+", m):
        out.append(text[i:mm.start()])
        i = mm.end()
    out.append(text[i:])
    return "".join(out)


def loops(body, m):
    """(keyword position, header end = position of `{`, end of block) of each loop, in source order"""
    res = []
    for mm in re.finditer(r"\b(while|for|loop)\b", m):
        k = mm.group(1)
        if k == "for" and re.match(r"\s*<", m[mm.end():]):
            continue
        j = mm.end()
        while m[j] != "{":
            j = match_close(m, j) if m[j] in "([" else j + 1
            if j >= len(m) or m[j] == ";":
                break
        if j < len(m) and m[j] == "{":
            res.append((mm.start(), j, match_close(m, j), k))
    return res


def statements(body, m):
    """start offsets of the top-level statements of a block text "{...}" and of the tail expression"""
    starts = []
    i, n = 1, len(body) - 1
    while True:
        while i < n and m[i].isspace():
            i += 1
        if i >= n:
            return starts, None
        a = i
        first = re.match(r"\b(if|while|for|loop|match|unsafe)\b|\{", m[i:])
        while i < n and m[i] != ";":
            if m[i] in OPEN:
                brace = m[i] == "{"
                i = match_close(m, i)
                if brace and first:
                    rest = m[i:].lstrip()
                    if first.group(0) in ("if",) and rest.startswith("else"):
                        continue
                    if not rest.startswith((".", "?")) and not (rest.startswith(("==", "as "))):
                        break
            else:
                i += 1
        if i < n and m[i] == ";":
            i += 1
            starts.append(a)
            continue
        if i >= n or not m[i:n].strip():
            # the last one without `;`: tail (a block statement may be one as well)
            starts.append(a)
            return starts, a
        starts.append(a)


CANARY = False


class Ann:
    def __init__(self):
        self.ret = None
        self.clauses = []
        self.loops = {}       # k -> dict(inv=[], iter=None, start=[], end=[])
        self.start = []
        self.tail = []
        self.end = []
        self.before = {}      # n -> text
        self.ext = None
        self.attr = ""


def annotate_fn(text, head_end, body, ann, key):
    head = drop_pub(drop_attrs(text[:head_end])).rstrip()
    b = drop_attrs(text[body[0]:body[1]]) if body else None
    where = ""
    mh = mask(head)
    w = re.search(r"\bwhere\b", mh)
    if w:
        head, where = head[:w.start()].rstrip(), "\n" + head[w.start():]
        mh = mask(head)
    if ann.ret:
        # the arrow after the parameter list
        p = mh.index("(", re.search(r"\bfn\s+\w+", mh).end()) if "<" not in mh[:mh.index("(")] else None
        i = re.search(r"\bfn\s+\w+", mh).end()
        if mh[i] == "<":
            d = 0
            while True:
                if mh[i] == "<":
                    d += 1
                elif mh[i] == ">" and mh[i - 1] != "-":
                    d -= 1
                    if d == 0:
                        i += 1
                        break
                i += 1
        while mh[i] != "(":
            i += 1
        i = match_close(mh, i)
        a = mh.find("->", i)
        if a < 0:
            head = head + " -> (%s: ())" % ann.ret
        else:
            head = head[:a] + "-> (%s: %s)" % (ann.ret, head[a + 2:].strip())
    head += where
    if ann.clauses:
        head += "\n    " + "\n    ".join(ann.clauses)
    if ann.attr:
        head = ann.attr + "\n" + head
    if b is None:
        return head + ";"
    return head + "\n" + annotate_body(b, ann, key)


def annotate_body(b, ann, key):
    m = mask(b)
    ins = []
    ls = loops(b, m)
    for k, a in ann.loops.items():
        if k >= len(ls):
            raise Lost("%s has no loop %d" % (key, k))
        kw, br, end, word = ls[k]
        if a.get("word") and a["word"] != word:
            raise Lost("%s: loop %d is not a %s" % (key, k, a["word"]))
        if a.get("iter"):
            mm = re.search(r"\bin\b", m[kw:br])
            if word != "for" or not mm:
                raise Lost("%s: loop %d is not a for" % (key, k))
            ins.append((kw + mm.end(), " %s:" % a["iter"]))
        if a.get("before"):
            ins.append((kw, "\n".join(a["before"]) + "\n"))
        if a.get("after"):
            ins.append((end, "\n" + "\n".join(a["after"]) + "\n"))
        if a["inv"]:
            ins.append((br, "\n        " + "\n        ".join(a["inv"]) + "\n    "))
        if a["start"]:
            ins.append((br + 1, "\n" + "\n".join(a["start"]) + "\n"))
        if a["end"]:
            ins.append((end - 1, "\n" + "\n".join(a["end"]) + "\n"))
    if len(ls) != ann.nloops if hasattr(ann, "nloops") else False:
        raise Lost("%s has %d loops" % (key, len(ls)))
    # headers of the verifier (what a proof need not look into) come before anything else
    heads = [x for x in ann.start if re.match(r"\s*hide\(", x)]
    if heads:
        ins.append((1, "\n" + "\n".join(heads) + "\n"))
    if CANARY:
        ins.append((1, "\nproof { assert(false); /*canary*/ }\n"))
    if ann.start:
        ins.append((1, "\n" + "\n".join(x for x in ann.start if x not in heads) + "\n"))
    if ann.end:
        ins.append((len(b) - 1, "\n".join(ann.end) + "\n"))
    if ann.tail or ann.before:
        st, tail = statements(b, m)
        if ann.tail:
            pos = tail if tail is not None else len(b) - 1
            ins.append((pos, "\n".join(ann.tail) + "\n"))
        for n, t in ann.before.items():
            if isinstance(n, str):
                hits = [x for x in st if re.match(n, b[x:])]
                if len(hits) != 1:
                    raise Lost("%s: %d statements like %s" % (key, len(hits), n))
                ins.append((hits[0], t + "\n"))
            else:
                if n >= len(st):
                    raise Lost("%s has no statement %d" % (key, n))
                ins.append((st[n], t + "\n"))
    # innermost/last first; equal positions keep their order
    for pos, t in sorted(enumerate(ins), key=lambda x: (-x[1][0], -x[0])):
        p, t = ins[pos]
        b = b[:p] + t + b[p:]
    return b


def parse_spec(path):
    """-> list of (directive, args, body text)"""
    out = []
    cur = None
    for line in open(path):
        if line.startswith("== include "):
            out += [([d, a] if a else [d], b) for d, a, b in parse_spec(os.path.join(os.path.dirname(path), line[11:].strip()))]
            cur = None
        elif line.startswith("== "):
            cur = [line[3:].split(None, 1), []]
            out.append(cur)
        elif cur is not None:
            cur[1].append(line.rstrip("\n"))
        elif line.strip() and not line.startswith("#"):
            raise ValueError("text before the first directive: " + line)
    return [(d[0], (d[1].strip() if len(d) > 1 else ""), b) for d, b in out]


def parse_ann(lines):
    a = Ann()
    sec = None
    buf = {}

    def target(name):
        w = name.split()
        if w[0] == "loop":
            k = int(w[1])
            l = a.loops.setdefault(k, dict(inv=[], iter=None, start=[], end=[]))
            if len(w) > 2 and w[2] in ("start", "end", "before", "after"):
                return l.setdefault(w[2], [])
            for x in w[2:]:
                if x.startswith("iter="):
                    l["iter"] = x[5:]
                if x in ("for", "while", "loop"):
                    l["word"] = x
            return l["inv"]
        if w[0] == "start":
            return a.start
        if w[0] == "tail":
            return a.tail
        if w[0] == "end":
            return a.end
        if w[0] == "contract":
            return a.clauses
        if w[0] == "before":
            lst = []
            buf[name] = lst
            return lst
        raise ValueError(name)
    t = a.clauses
    for l in lines:
        s = l.strip()
        if s.startswith("-- "):
            s = s[3:]
            if s.startswith("ret "):
                a.ret = s[4:].strip()
            elif s.startswith("attr "):
                a.attr += s[5:].strip() + "\n"
            elif s.startswith("loops "):
                a.nloops = int(s[6:])
            else:
                t = target(s)
        elif s:
            t.append(l)
    for name, lst in buf.items():
        k = name.split(None, 1)[1]
        a.before[int(k) if k.isdigit() else k] = "\n".join(lst)
    return a


FLOATS = "/*FLOATS*/"


def float_literals(text, name="literals"):
    """the value of every f64 literal in the text is the real it reads as, rounded"""
    lits = sorted(set(re.findall(r"(?<![\w.])(\d+\.\d*)(?:_?f64)?(?![\w.])", mask(text))))
    ens = []
    for l in lits:
        l = l.replace("_", "")
        l += "0" if l.endswith(".") else ""
        ens.append("fin(%sf64), val(%sf64) == rnd(%sreal)%s" % (l, l, l, ", pzero(%sf64)" % l if float(l) == 0 else ", rabs(rnd(%sreal) - %sreal) <= %sreal / 9007199254740992real" % (l, l, l)))
    return "/// float literals (generated)\n#[verifier::external_body]\nproof fn " + name + "()\n    ensures\n        " + ",\n        ".join(ens or ["true"]) + "\n{}"


class Extraction:
    def __init__(self):
        self.fns, self.dropped, self.substs, self.assumed = [], [], [], []
        self.imported = []
        self.text = ""
        self.clients = {}

    def with_client(self, name):
        """the unit with a client module: what follows from the contracts, checked with --verify-module"""
        return self.text.replace("\n} // verus!", "\n\nmod %s {\nuse super::*;\n%s\n}\n} // verus!" % (name, self.clients[name]))


def member_fns(impl_text, body):
    inner = impl_text[body[0] + 1:body[1] - 1]
    return items(inner)


def lift(name, spec, its, ex):
    """make the closure of `from_fn(move || {..})` in a method a method of its own: the variables it
    changes (`-- vars`) become `&mut` parameters; the statements before it become NAME_start"""
    pat, tmpl = spec.split("\n=>\n")
    m = re.search(r"^-- vars (.*)$", tmpl, re.M)
    vars_ = m.group(1).split()
    rest, _, prest = tmpl[m.end():].partition("\n-- pre\n")
    ann, pann = parse_ann(rest.split("\n")), parse_ann(prest.split("\n"))
    tmpl = tmpl[:m.start()]
    owner, _, meth = name.rpartition("::")
    hits = []
    for it in its:
        if owner and it.kind == "impl" and it.key == owner:
            hits += [f for f in member_fns(it.text, it.body) if f.key == meth and f.kind == "fn"]
        elif not owner and it.kind == "fn" and it.key == meth:
            hits.append(it)
    if len(hits) != 1:
        raise Lost("no method %s" % name)
    f = hits[0]
    body = f.text[f.body[0]:f.body[1]]
    mk = mask(body)
    mm = re.search(r"(std\s*::\s*iter\s*::\s*)?from_fn\s*\(\s*move\s*\|\s*\|\s*\{", mk)
    if not mm:
        raise Lost("%s: no from_fn(move || {..})" % name)
    e = match_close(mk, mm.end() - 1)
    before, after = body[1:mm.start()], "".join(mk[e:].split())
    x = re.search(r"\blet\s+(\w+)\s*=\s*$", before)
    if x and after == ");Ok(%s)}" % x.group(1):
        before = before[:x.start()]
    elif re.search(r"\bOk\s*\(\s*$", before) and after == "))}":
        before = before[:before.rindex("Ok")]
    elif after != ")}":
        raise Lost("%s: something after from_fn(..)" % name)
    pre = annotate_body("{" + drop_attrs(before) + "}", pann, name)[1:-1] if prest else drop_attrs(before)
    inner = body[mm.end():e - 1]
    im = mask(inner)
    for v in vars_:
        if not re.search(r"\blet\s+mut\s+%s\b" % v, mask(pre)) and not re.search(r"[(,]\s*mut\s+%s\s*:" % v, f.text[:f.body[0]]):
            raise Lost("%s: no variable %s" % (name, v))
    out, k = [], 0
    for x in re.finditer(r"(?<![\w.])(%s)\b" % "|".join(vars_), im):
        out.append(inner[k:x.start()] + "(*" + x.group(1) + ")")
        k = x.end()
    inner = "".join(out) + inner[k:]
    inner = annotate_body("{" + drop_attrs(inner) + "}", ann, name)
    ex.fns.append(name + " (closure)")
    ex.substs.append({"source": "%s: %s with the captured mutable variables %s" % (name, pat.strip(), ", ".join(vars_)),
                      "verified": "a method with them as &mut parameters", "times": 1})
    return (tmpl.replace("NAME", meth + "_step").replace("PRE", pre).replace("BODY", inner))


def closure(arg, tmpl, its, ex):
    """the body of the closure that starts where the pattern (ending in its opening brace) matches"""
    tmpl, _, rest = tmpl.partition("\n-- ")
    ann = parse_ann(("-- " + rest).split("\n")) if rest else Ann()
    name, pat = arg.split(None, 1)
    owner, _, meth = name.rpartition("::")
    hits = []
    for it in its:
        if owner and it.kind == "impl" and it.key == owner:
            hits += [f for f in member_fns(it.text, it.body) if f.key == meth and f.kind == "fn"]
        elif not owner and it.kind == "fn" and it.key == meth:
            hits.append(it)
    if len(hits) != 1:
        raise Lost("no function %s" % name)
    f = hits[0]
    body = drop_attrs(f.text[f.body[0]:f.body[1]])
    mk = mask(body)
    ms = list(re.finditer(pat, body))
    if len(ms) != 1:
        raise Lost("%s: %d closures like %s" % (name, len(ms), pat))
    e = match_close(mk, ms[0].end() - 1)
    ex.fns.append("%s (closure %s)" % (name, ms[0].group(0)))
    ex.substs.append({"source": "%s: closure %s" % (name, ms[0].group(0)), "verified": "its body as a function of its parameters and captures", "times": 1})
    return tmpl.replace("BODY", annotate_body(body[ms[0].end() - 1:e], ann, name))


# lemmas and assumed contracts only: verified again in every unit that imports them
LIBRARY = {"float", "iters", "morton", "coords", "flows", "errors", "entries", "bytes"}


def uses(unit, spec_dir):
    """the units whose proved contracts a unit relies on"""
    out = []
    for l in open(os.path.join(spec_dir, unit + ".vspec")):
        m = re.match(r"== import (\w+)", l)
        if m:
            for u in [m.group(1)] + uses(m.group(1), spec_dir):
                if u not in LIBRARY and u not in out:
                    out.append(u)
    return out


def proved_elsewhere(text, kind="(pub )?(broadcast )?proof fn ", body="{}"):
    """lemmas of an imported unit: proved in that unit, used here"""
    m, out, at = mask(text), [], 0
    for x in re.finditer("^" + kind, text, re.M):
        o = text.find("\n{", x.start()) + 1
        if x.start() < at or o == 0 or "external_body" in text[:x.start()].rstrip().rsplit("\n", 1)[-1]:
            continue
        e = match_close(m, o)
        sig = text[x.start():o]
        named = body == "{}" and re.search(r"\)\s*->\s*\(\w+:", sig)
        out.append(text[at:x.start()] + "#[verifier::external_body] /*imported*/ " + sig + ("{ arbitrary() }" if named else body))
        at = e
    return "".join(out) + text[at:]


LOCK = threading.RLock()


def extract(*a, **k):
    with LOCK:  # units are checked in threads
        return extract_(*a, **k)


def extract_(spec_path, src_dir, canary=False, stubs=False, done=None):
    """stubs: only the contracts (bodies unverified), for a unit that calls these functions"""
    global CANARY
    CANARY = canary
    done = set() if done is None else done
    ex = Extraction()
    out = []
    sources = {}
    library = os.path.basename(spec_path)[:-len(".vspec")] in LIBRARY
    cur = None
    used = {}
    spec = parse_spec(spec_path)
    substs, needed = [], []
    # group `fn X::y` annotations by owner
    anns = {}
    for d, arg, body in spec:
        if d == "fn":
            anns[arg] = parse_ann(body)
    seen = set()

    def load(name):
        if name not in sources:
            t = open(os.path.join(src_dir, name)).read()
            sources[name] = items(t)
        return sources[name]

    def apply_substs(text):
        for old, new, is_re in substs:
            if is_re in ("inline", "block"):
                # a call whose last argument is a closure, or a loop: the body put where the template says
                m = re.search(old, text)
                if m:
                    mk = mask(text)
                    e = match_close(mk, m.end() - 1)
                    c = re.match(r"\s*,?\s*\)" if is_re == "inline" else "", mk[e:])
                    if not c:
                        raise Lost("the closure is not the last argument: " + old)
                    text = text[:m.start()] + m.expand(new).replace("BODY", text[m.end() - 1:e]) + text[e + c.end():]
                    used[old] = used.get(old, 0) + 1
                continue
            norm = re.compile(old if is_re else r"\s+".join(re.escape(x) for x in old.split()))
            text, n = norm.subn(new if is_re else (lambda _: new), text)
            if n:
                used[old] = used.get(old, 0) + n
        return text

    def clean(text):
        return apply_substs(drop_pub(drop_attrs(text)))

    def emit_fn(it, key):
        a = anns.get(key)
        seen.add(key)
        if a is None:
            raise Lost("function %s has no contract" % key)
        ex.fns.append(key)
        if stubs:
            b = Ann()
            b.ret, b.clauses = a.ret, a.clauses
            b.attr = "#[verifier::external_body] /*imported*/" if it.body else ""
            if it.body and not re.search(r"->\s*impl\b", apply_substs(it.text[:it.head_end])):
                t = it.text[:it.body[0]] + "{ unimplemented!() }"
                return apply_substs(annotate_fn(t, it.head_end, (it.body[0], len(t)), b, key))
            return apply_substs(annotate_fn(it.text, it.head_end, it.body, b, key))
        return apply_substs(annotate_fn(it.text, it.head_end, it.body, a, key))

    for d, arg, body in spec:
        if d == "source":
            cur = arg
            load(arg)
        elif d in ("subst", "subst-re", "subst!", "subst-re!", "inline!", "block!"):
            txt = "\n".join(body)
            old, new = txt.split("\n=>\n")
            substs.append((old.strip(), new.strip(), d[:-1] if d in ("inline!", "block!") else "re" in d))
            if d.endswith("!"):
                needed.append(old.strip())
        elif d in ("prelude", "text"):
            out.append(proved_elsewhere("\n".join(body)) if stubs and not library else "\n".join(body))
        elif d == "exported":
            # functions over the ones of this unit, verified here
            out.append(proved_elsewhere("\n".join(body), "fn ", "{ unimplemented!() }") if stubs else "\n".join(body))
        elif d == "take":
            # take <kind> <key> [| all or member list]; body: text added inside braces (traits, impls)
            kind, rest = arg.split(None, 1)
            key, _, opts = rest.partition("|")
            key, opts = key.strip(), opts.split()
            hits = [i for i in load(cur) if i.kind == kind and i.key == key]
            if not hits and kind in ("struct", "trait", "impl", "fn", "const", "enum"):
                raise Lost("%s %s is not in %s" % (kind, key, cur))
            if kind == "fn":
                if len(hits) != 1:
                    raise Lost("fn %s" % key)
                out.append(emit_fn(hits[0], key))
            elif kind in ("struct", "const", "type", "enum"):
                if (cur, kind, key) in done:
                    continue
                done.add((cur, kind, key))
                pre = "\n".join(body)
                der = ""
                if kind in ("struct", "enum") and re.search(r"derive\([^)]*\bCopy\b", hits[0].attrs):
                    der = "#[verifier::allow(autoderive_clone_without_spec)]\n#[derive(Clone, Copy)]\n"
                out.append(pre + "\n" + der + clean(hits[0].text))
            else:
                for h in hits:
                    head = drop_attrs(h.text[:h.body[0]])
                    parts = ["\n".join(body)]
                    for mfn in member_fns(h.text, h.body):
                        k = "%s::%s" % (key, mfn.key)
                        if mfn.kind == "fn":
                            if opts and mfn.key not in opts:
                                ex.dropped.append(k)
                                continue
                            parts.append(emit_fn(mfn, k))
                        else:
                            parts.append(clean(mfn.text))
                    out.append(apply_substs(drop_pub(head)) + "{\n" + "\n".join(parts) + "\n}")
        elif d == "hoist":
            # a constant declared inside a function, named outside of it as well
            fn, name = arg.split()
            hits = [i for i in load(cur) if i.kind == "fn" and i.key == fn]
            b = hits[0].text[hits[0].body[0]:hits[0].body[1]] if len(hits) == 1 else ""
            mk = mask(b)
            x = re.search(r"\bconst\s+%s\b" % name, mk)
            if not x:
                raise Lost("%s has no constant %s" % (fn, name))
            e = x.end()
            while mk[e] != ";":
                e = match_close(mk, e) if mk[e] in OPEN else e + 1
            out.append(clean(b[x.start():e + 1]))
        elif d == "derived-order":
            # the order that derive(PartialOrd, Ord) gives a struct: its fields in turn
            hits = [i for i in load(cur) if i.kind == "struct" and i.key == arg]
            if len(hits) != 1 or not (re.search(r"derive\([^)]*\bOrd\b", hits[0].attrs) and re.search(r"derive\([^)]*\bPartialOrd\b", hits[0].attrs)):
                raise Lost("%s has no derived order" % arg)
            h = hits[0]
            fields = re.findall(r"(\w+)\s*:(?!:)", mask(drop_pub(drop_attrs(h.text[h.body[0]:h.body[1]]))))
            lt = "false"
            for f in reversed(fields):
                lt = "a.%s < b.%s || a.%s == b.%s && (%s)" % (f, f, f, f, lt)
            out.append("/// the derived order of %s (generated from its fields)\nspec fn %s_lt(a: %s, b: %s) -> bool { %s }" % (arg, arg.lower(), arg, arg, lt))
        elif d == "floats":
            out.append(FLOATS)
            floats = arg or "literals"
        elif d == "client":
            ex.clients[arg] = "\n".join(body)
        elif d == "import":
            if arg in done:
                continue
            done.add(arg)
            sub = extract(os.path.join(os.path.dirname(spec_path), arg + ".vspec"), src_dir, False, True, done)
            CANARY = canary
            ex.imported.append({"unit": arg, "contracts": sub.fns})
            ex.substs += [dict(x, unit=arg) for x in sub.substs]
            out.append(sub.inner)
        elif d in ("lift", "closure") and stubs:
            pass
        elif d == "closure-exported" and stubs:
            out.append(apply_substs("#[verifier::external_body] /*imported*/ " + "\n".join(body).partition("\n-- ")[0].replace("BODY", "{ unimplemented!() }")))
        elif d == "lift":
            for name in arg.split():
                out.append(apply_substs(lift(name, "\n".join(body), load(cur), ex)))
        elif d in ("closure", "closure-exported"):
            out.append(apply_substs(closure(arg, "\n".join(body), load(cur), ex)))
        elif d == "fn":
            pass
        elif d == "ignore":
            ex.dropped.append(arg)
        else:
            raise ValueError(d)
    for k in anns:
        if k not in seen:
            raise Lost("function %s is not in the source" % k)
    for old in needed:
        if old not in used and not stubs:
            raise Lost("nothing in the source reads `%s`" % old)
    for old, new, _ in substs:
        if old in used:
            ex.substs.append({"source": old, "verified": new, "times": used[old]})
    ex.inner = "\n\n".join(out)
    if FLOATS in out:
        ex.inner = ex.inner.replace(FLOATS, float_literals(ex.inner, floats))
    ex.text = "#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens)]\nuse vstd::prelude::*;\nverus! {\n" + ex.inner + "\n} // verus!\nfn main() {}\n"
    for m in re.finditer(r"\b(assume_specification|external_body|assume\s*\(|admit\s*\(|axiom\s+fn|external_type_specification|uninterp)", ex.text):
        line = ex.text[:m.start()].count("\n")
        if "/*imported*/" in ex.text.split("\n")[line]:
            continue
        ex.assumed.append(" ".join(ex.text.split("\n")[line:line + 2]).strip()[:200])
    return ex


if __name__ == "__main__":
    import sys
    e = extract(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo/rust-src/src/gridstore")
    sys.stdout.write(e.text)
