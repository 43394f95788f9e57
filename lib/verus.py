"""Verus units: mechanical extraction of named items from /repo/src into a template of /verif/verus.

A template (verus/NAME.vrs) is Verus text plus directives; a directive starts with //@ :
  //@const FILE NAME            //@struct FILE NAME [+ghost field text]
  //@fn FILE PATH               PATH = Type::name or name, or mod::Type::name
      then sections, each up to the next //@ line:
      //@sig        requires/ensures, put between the signature and the body
      //@ret NAME   names the returned value
      //@start      after the opening brace       //@end_  before the closing brace
      //@loop K     invariants of the K-th loop in source order
      //@body K     first thing inside loop K     //@tail K  last thing inside loop K (before an added index step)
      //@step K     after the added index step    //@after K  right after loop K
      //@before N TEXT / //@behind N TEXT         around the N-th statement that contains TEXT
      //@endfn
The rewriting rules are the functions rule_* below; what they change is reported in the evidence."""
import concurrent.futures, json, os, re, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Lost(Exception):
    """the source no longer has the shape the extraction or the proof text is written for"""


# ------------------------------------------------------------------ lexing
def blank(s):
    """Same length as s, comments and string contents replaced by spaces."""
    out = list(s)
    i, n = 0, len(s)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            wipe(i + 1, j)
            i = j + 1
        elif s[i] == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:])
            if m:
                wipe(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def strip_comments(s):
    b = blank(s)
    # keep strings: only wipe where the original has a comment
    out, i = [], 0
    while i < len(s):
        if s.startswith("//", i) and b[i] == " ":
            j = s.find("\n", i)
            i = len(s) if j < 0 else j
        elif s.startswith("/*", i) and b[i] == " ":
            d, j = 1, i + 2
            while d and j < len(s):
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            i = j
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def match(b, i):
    """index just behind the bracket that closes b[i]"""
    o, c = b[i], {"(": ")", "{": "}", "[": "]"}[b[i]]
    d = 0
    for k in range(i, len(b)):
        if b[k] == o:
            d += 1
        elif b[k] == c:
            d -= 1
            if d == 0:
                return k + 1
    raise Lost("unbalanced %s" % o)


class Source:
    def __init__(self, name):
        p = os.path.join(REPO, "src", name)
        if not os.path.exists(p):
            raise Lost("no file src/%s" % name)
        self.name = name
        self.text = strip_comments(open(p).read())
        self.b = blank(self.text)

    def scope(self, path):
        """text range of the inline modules of path; returns (range, remaining path)"""
        lo, hi = 0, len(self.text)
        parts = path.split("::")
        while len(parts) > 1:
            m = re.compile(r"\bmod %s\s*\{" % re.escape(parts[0])).search(self.b, lo, hi)
            if not m:
                break
            hi = match(self.b, m.end() - 1) - 1
            lo = m.end()
            parts = parts[1:]
        return lo, hi, parts

    def fn(self, path):
        lo, hi, parts = self.scope(path)
        hits = []
        if len(parts) == 2:
            # inherent and trait impls of the type
            for m in re.compile(r"\bimpl\b([^{;]*)\{").finditer(self.b, lo, hi):
                head = m.group(1)
                tgt = head.split(" for ")[-1]
                tgt = re.split(r"\bwhere\b", tgt)[0]
                trait = head.split(" for ")[0] if " for " in head else ""
                ty = re.sub(r"^\s*<[^>]*>", "", tgt).strip()
                ty = re.sub(r"<.*", "", ty).strip()
                want, wtrait = (parts[0].split("@") + [""])[:2]
                if ty != want:
                    continue
                if wtrait and not re.search(r"\b%s\b" % re.escape(wtrait), trait):
                    continue
                end = match(self.b, m.end() - 1) - 1
                hits += self.find_fn(parts[1], m.end(), end)
        elif len(parts) == 1:
            hits = self.find_fn(parts[0], lo, hi)
        if len(hits) != 1:
            raise Lost("%d definitions of %s in %s" % (len(hits), path, self.name))
        return hits[0]

    def find_fn(self, name, lo, hi):
        res = []
        for m in re.compile(r"((?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?(?:unsafe\s+)?)\bfn\s+%s\b" % re.escape(name)).finditer(self.b, lo, hi):
            depth = self.b.count("{", lo, m.start()) - self.b.count("}", lo, m.start())
            if depth:
                continue
            k = m.end()
            while k < hi and self.b[k] not in "{;":
                k = match(self.b, k) if self.b[k] in "([" else k + 1
            if self.b[k] == ";":
                continue
            res.append((self.text[m.start():k].strip(), self.text[k + 1:match(self.b, k) - 1]))
        return res

    def item(self, kind, name):
        m = re.search(r"((?:pub(?:\([a-z]+\))?\s+)?)%s\s+%s\b" % (kind, re.escape(name)), self.b)
        if not m:
            raise Lost("no %s %s in %s" % (kind, name, self.name))
        if kind == "const":
            e = self.b.index(";", m.end()) + 1
            t = self.text[m.start():e]
        else:
            k = m.end()
            while self.b[k] not in "{;(":
                k += 1
            e = match(self.b, k) if self.b[k] == "{" else self.b.index(";", k) + 1
            t = self.text[m.start():e]
        t = re.sub(r"^(pub(\([a-z]+\))?\s+)?", "pub ", t)
        return re.sub(r"#\[[^\]]*\]", "", t)


# ------------------------------------------------------------------ rewriting
DROPPED = "debug_assert! statements, attributes, comments and visibility"


def rule_debug_assert(t):
    while True:
        b = blank(t)
        m = re.search(r"\bdebug_assert(?:_eq|_ne)?!\s*\(", b)
        if not m:
            return t
        e = match(b, m.end() - 1)
        if e < len(t) and t[e] == ";":
            e += 1
        t = t[:m.start()] + t[e:]


def rule_unchecked(t):
    """*unsafe { E.get_unchecked[_mut](I) }  ->  E[I]  (the bound becomes an obligation)"""
    t = re.sub(r"\*\s*unsafe\s*\{\s*([\w.]+?)\s*\.\s*get_unchecked(?:_mut)?\(([^()]*)\)\s*\}", r"\1[\2]", t)
    t = re.sub(r"unsafe\s*\{\s*\*\s*([\w.]+?)\s*\.\s*get_unchecked(?:_mut)?\(([^()]*)\)\s*\}", r"\1[\2]", t)
    return t


def rule_iter(t):
    """iterator loops over whole vectors -> the same loops by index"""
    n = [0]

    def body(t, k):
        b = blank(t)
        e = match(b, k)
        return t[k + 1:e - 1], e

    def sub(t, m, elems, idx, lens):
        inner, e = body(t, m.end() - 1)
        i = "i%d_" % n[0]
        n[0] += 1
        for v, arr in elems:
            inner = re.sub(r"\*\s*%s\b" % v, "%s[%s]" % (arr, i), inner)
            if re.search(r"(?<![\w.])%s\b" % v, inner):
                raise Lost("element %s used other than through *" % v)
        pre = "let mut %s: usize = 0; " % i
        if idx:
            inner = "let %s = %s;" % (idx, i) + inner
        cond = " && ".join("%s < %s.len()" % (i, a) for a in lens)
        return t[:m.start()] + pre + "while %s {" % cond + inner + "/*step*/ %s += 1; }" % i + t[e:]
    V = r"((?:self\s*\.\s*)?\w+)"
    while True:
        b = blank(t)
        m = re.search(r"\bfor\s+(\w+)\s+in\s+&mut\s+%s\s*\{" % V, b)
        if m:
            t = sub(t, m, [(m.group(1), re.sub(r"\s", "", m.group(2)))], None, [re.sub(r"\s", "", m.group(2))])
            continue
        m = re.search(r"\bfor\s+\((\w+),\s*(\w+)\)\s+in\s+%s\s*\.\s*iter_mut\(\)\s*\.\s*zip\(\s*&%s\s*\)\s*\{" % (V, V), b)
        if m:
            a, c = re.sub(r"\s", "", m.group(3)), re.sub(r"\s", "", m.group(4))
            t = sub(t, m, [(m.group(1), a), (m.group(2), c)], None, [a, c])
            continue
        m = re.search(r"\bfor\s+\((\w+),\s*\((\w+),\s*(\w+)\)\)\s+in\s+%s\s*\.\s*iter_mut\(\)\s*\.\s*zip\(\s*&%s\s*\)\s*\.\s*enumerate\(\)\s*\{" % (V, V), b)
        if m:
            a, c = re.sub(r"\s", "", m.group(4)), re.sub(r"\s", "", m.group(5))
            t = sub(t, m, [(m.group(2), a), (m.group(3), c)], m.group(1), [a, c])
            continue
        return t


def rule_pointers(t):
    """pointers into out_buffer -> offsets into it"""
    t = re.sub(r"\.\s*cast_(?:const|mut)\(\)", "", t)
    B = r"((?:self\s*\.\s*)?out_buffer)"
    t = re.sub(B + r"\s*\.\s*as_(?:mut_)?ptr_range\(\)\s*\.\s*start", "0usize", t)
    t = re.sub(B + r"\s*\.\s*as_(?:mut_)?ptr_range\(\)\s*\.\s*end", r"\1.len()", t)
    t = re.sub(B + r"\s*\.\s*as_(?:mut_)?ptr\(\)", "0usize", t)
    t = re.sub(r"\*(?:mut|const)\s+u8\b", "usize", t)
    t = re.sub(r"([;{}=]|while|if)\s*\*\s*(p|self\s*\.\s*out_byte)\b", r"\1 self.out_buffer[\2]", t)
    t = re.sub(r"std::slice::from_raw_parts\(", "part(&self.out_buffer, ", t)
    t = re.sub(r"&\s*self\s*\.\s*out_buffer\s*\[\s*\.\.\s*([^\]]*)\]", r"part(&self.out_buffer, 0, \1)", t)
    t = re.sub(r"self\s*\.\s*out_buffer\s*\.\s*fill\(0\)", "fill(&mut self.out_buffer, 0)", t)
    t = re.sub(r"\.\s*into_boxed_slice\(\)", "", t)
    t = t.replace("Box<[u8]>", "Vec<u8>")
    t = re.sub(r"\bunsafe\s*\{", "{", t)
    return t


def rule_paths(t):
    t = re.sub(r"\b(?:crate::)?(?:decoders|models|encoders)::", "", t)
    t = re.sub(r"\bstd::io::", "io::", t)
    t = re.sub(r"(u\d+|i\d+|usize)::from\(", r"widen_\1(", t)
    t = re.sub(r"\bstd::(u\d+|i\d+)::(MAX|MIN)\b", r"\1::\2", t)
    return t


def rule_literals(t):
    # [0u8, 0u8] literal slices given to write_all
    return t


RULES = [rule_debug_assert, rule_unchecked, rule_iter, rule_pointers, rule_paths]


def rewrite(t):
    t = re.sub(r"#!?\[[^\]]*\]\s*\n", "", t)
    for r in RULES:
        t = r(t)
    if re.search(r"\bunsafe\b|\*(mut|const)\b|debug_assert", blank(t)):
        raise Lost("left over after rewriting: " + re.search(r".{0,40}(\bunsafe\b|\*(mut|const)\b|debug_assert).{0,40}", t).group(0))
    return t


# ------------------------------------------------------------------ weaving
def loops(t):
    b = blank(t)
    out = []
    for m in re.finditer(r"\b(while|for|loop)\b", b):
        k = m.end()
        while k < len(b) and b[k] != "{":
            k = match(b, k) if b[k] in "([" else k + 1
        out.append((m.start(), k, match(b, k)))
    return out


def weave(sig, body, sec):
    ins = []   # (position, priority, text)
    ls = loops(body)
    for kind, arg, text in sec:
        if kind in ("sig", "ret", "attr"):
            continue
        if kind == "start":
            ins.append((0, 0, "\n" + text))
        elif kind == "end_":
            ins.append((len(body), 0, text))
        elif kind in ("loop", "body", "tail", "step", "after", "ahead"):
            k = int(arg)
            if k >= len(ls):
                raise Lost("loop %d not there" % k)
            st, o, e = ls[k]
            step = body.rfind("/*step*/", o, e)
            nested = [x for x in ls if x[0] > o and x[2] <= e]
            if step >= 0 and any(x[1] < step < x[2] for x in nested):
                step = -1
            pos = {"loop": o, "body": o + 1, "tail": step if step >= 0 else e - 1, "step": e - 1, "after": e, "ahead": st}[kind]
            ins.append((pos, 1, "\n" + text + "\n"))
        elif kind in ("before", "behind"):
            n, pat = arg.split(" ", 1)
            # whitespace-insensitive search
            rx = re.compile(r"\s*".join(re.escape(x) for x in re.findall(r"\w+|[^\w\s]", pat)))
            hits = list(rx.finditer(body))
            if len(hits) <= int(n):
                raise Lost("no statement with `%s`" % pat)
            b = blank(body)
            a, z = hits[int(n)].start(), hits[int(n)].end()
            if kind == "before":
                while a > 0 and b[a - 1] not in ";{}":
                    a -= 1
                ins.append((a, 2, "\n" + text + "\n"))
            else:
                while z < len(b) and b[z] != ";":
                    z = match(b, z) if b[z] in "({[" else z + 1
                ins.append((z + 1, 2, "\n" + text + "\n"))
    for pos, _, text in sorted(ins, key=lambda x: -x[0]):
        body = body[:pos] + text + body[pos:]
    sig = re.sub(r"^(pub(\([a-z]+\))?\s+)?", "pub ", sig)
    sig = "".join(a + "\n" for k, a, _ in sec if k == "attr") + sig
    spec = "\n".join(t for k, _, t in sec if k == "sig")
    ret = [a for k, a, _ in sec if k == "ret"]
    if ret:
        m = re.search(r"->\s*(.+)$", sig, re.S)
        if not m:
            raise Lost("no return type")
        sig = sig[:m.start()] + "-> (%s: %s)" % (ret[0], m.group(1).strip())
    return sig + "\n" + spec + "\n{" + body + "}\n"


def expand(name):
    out, funcs, cache = [], [], {}

    def src(f):
        if f not in cache:
            cache[f] = Source(f)
        return cache[f]
    lines = open(os.path.join(VERIF, "verus", name + ".vrs")).read().split("\n")
    i = 0
    while i < len(lines):
        l = lines[i].strip()
        if not l.startswith("//@"):
            out.append(lines[i])
            i += 1
            continue
        d = l[3:].split(None, 1)
        if d[0] == "include":
            lines[i:i + 1] = open(os.path.join(VERIF, "verus", d[1] + ".vrs")).read().split("\n")
            continue
        if d[0] == "const":
            f, nm = d[1].split()
            out.append(rewrite(src(f).item("const", nm)))
            i += 1
            continue
        if d[0] == "struct":
            f, nm, *ghost = d[1].split(None, 2)
            t = rewrite(src(f).item("struct", nm)).replace("pub(crate) ", "pub ")
            t = re.sub(r"(?m)^(\s*)(?!pub\b)(\w+\s*:)", r"\1pub \2", t[:t.index("{") + 1] + "\n" + t[t.index("{") + 1:])
            if ghost:
                t = t.rstrip()[:-1] + "    " + ghost[0] + "\n}"
            out.append(t)
            i += 1
            continue
        if d[0] == "fn":
            f, path = d[1].split()
            sec, i = [], i + 1
            cur = None
            while lines[i].strip() != "//@endfn":
                s = lines[i].strip()
                if s.startswith("//@"):
                    x = s[3:].split(None, 1)
                    cur = [x[0], x[1] if len(x) > 1 else "", []]
                    sec.append(cur)
                elif cur:
                    cur[2].append(lines[i])
                i += 1
            i += 1
            try:
                sig, body = src(f).fn(path)
                sec = [(k, a, "\n".join(t)) for k, a, t in sec]
                for k, a, t in sec:
                    if k == "replace":
                        # one literal-for-ghost edit: NAME of a struct literal gets the ghost field
                        old, new = t.split("\n=>\n")
                        if old.strip() not in body:
                            raise Lost("`%s` not found" % old.strip())
                        body = body.replace(old.strip(), new.strip(), 1)
                sec = [x for x in sec if x[0] != "replace"]
                out.append("// ==== %s %s" % (f, path))
                out.append(weave(rewrite(sig), rewrite(body), sec))
            except Lost as e:
                raise Lost("%s %s: %s" % (f, path, e))
            funcs.append("%s %s" % (f, path))
            continue
        raise Lost("unknown directive " + l)
    return "\n".join(out), funcs


HARD = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
                  r"possible arithmetic|possible division|possible bit shift|decreases not satisfied|assertion not satisfied|"
                  r"might not be allowed|could not prove termination|index out of|precondition|unreachable|loop ensures")


SAFE_POST = re.compile(r"\b(wf|bit_wf|static_ok|shares_ok|ring|safe|steady|bracket)\b")


def counts(err, text, only, safety):
    """Whether a failed obligation bears on the property: `only` is a pattern for the function it is in; with `safety`
    only obligations about accesses, arithmetic and the invariants that bound them count, not functional ones."""
    if only and not re.search(only, describe(err, text).split(" in ", 1)[1]):
        return False
    if not safety:
        return True
    head = err.split("\n")[0]
    if "arithmetic" in head or "bit shift" in head or "index" in head or "division" in head:
        return True
    if "precondition" in head:
        return "lemma_" not in err and "sum_" not in err
    return bool(SAFE_POST.search(err))


def run_unit(spec, work, deadline):
    t0 = time.time()
    spec = spec if isinstance(spec, dict) else dict(name=spec)
    name = spec["name"]
    r = dict(name=name, status="undecided", obligations=0, verified=0, seconds=0, why="", errors=[], funcs=[],
             extraction="functions copied from /repo/src on this run; dropped: %s; rewritten: whole-vector iterator loops to index loops, "
                        "unchecked accesses to checked ones, pointers into the output buffer to offsets, std::io traits to the assumed contracts "
                        "in the template" % DROPPED)
    try:
        text, funcs = expand(name)
    except Lost as e:
        r["why"] = "extraction: %s" % e
        return r
    except Exception as e:
        r["why"] = "extraction: %r" % e
        return r
    d = os.path.join(work, "verus")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + ".rs")
    open(p, "w").write(text)
    e = dict(os.environ)
    try:
        o = subprocess.run(["verus", p, "--crate-type=lib", "--output-json", "--time", "--num-threads", "4", "--rlimit", "60"],
                           cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=max(20, deadline - time.time()))
    except subprocess.TimeoutExpired:
        r["why"] = "time limit"
        return r
    open(os.path.join(d, name + ".log"), "w").write(o.stdout + o.stderr)
    r["seconds"] = round(time.time() - t0, 1)
    try:
        j = json.loads(o.stdout[o.stdout.index("{"):])
        v = j["verification-results"]
    except Exception:
        v = {}
    r["obligations"] = (v.get("verified") or 0) + (v.get("errors") or 0)
    r["verified"] = v.get("verified") or 0
    r["funcs"] = funcs
    errs = [x for x in re.split(r"\n(?=error)", o.stderr) if x.startswith("error") and not x.startswith("error: aborting")]
    if v.get("success") and not errs and r["verified"] > 0:
        r["status"] = "verified"
        return r
    if v.get("encountered-vir-error") or not v or not v.get("errors"):
        r["why"] = "not accepted by Verus: " + " | ".join(x[:300] for x in errs[:3])
        return r
    hard = [x for x in errs if HARD.search(x.split("\n")[0])]
    r["errors"] = [x[:1500] for x in errs]
    off = [x for x in hard if not counts(x, text, spec.get("only"), spec.get("safety"))]
    hard = [x for x in hard if x not in off]
    r["not_counted"] = ["%s (does not bear on this property)" % describe(x, text) for x in off]
    if hard:
        r["status"] = "failed"
        r["why"] = " | ".join(describe(x, text) for x in hard[:3])
    else:
        r["why"] = " | ".join(r["not_counted"][:3] or [x[:200] for x in errs[:3]])
    return r


def describe(err, text):
    m = re.search(r"--> .*?:(\d+):", err)
    fn = "?"
    if m:
        ln = int(m.group(1))
        for l in reversed(text.split("\n")[:ln]):
            if l.startswith("// ==== "):
                fn = l[8:]
                break
    return "%s in %s" % (err.split("\n")[0], fn)


def run_units(units, work, deadline):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda u: run_unit(u, work, deadline), units))


if __name__ == "__main__":
    import sys
    t, f = expand(sys.argv[1])
    print(t)
