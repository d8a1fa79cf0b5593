"""The Verus layer: functions of /repo, extracted on every run, with contracts and loop invariants woven in.

A path begins with src/, or with std/, core/ or alloc/ for the standard library of the toolchain.
A unit is a file in units/. Its text is handed to Verus as it is, except for these directives, each on a line of its own:
  @SUB path regex ==> replacement    a change made to every text extracted after it
  @STRUCT path Name                  the definition of a structure (attributes dropped, fields made public)
  @ABSENT path regex                 the unit rests on this not being in that file, or in any file a path
                                     with * matches, but not the one after an !
  @CONST path NAME                   the definition of a constant
  @CONSTS path                       the definitions of all constants of a file
  @FN path [Impl::]name [as newname] a function; the lines up to @END are its contract, and
    @START                           ghost code at the start of the body
    @LOOP regex                      invariants of the loop whose header matches; {1}.. are its groups; a first
                                     line #it names the ghost iterator; @BODY, @TAIL and @DONE are followed by
                                     ghost code for the start and end of its body and for after it
    @RANGE name regex                the same for `for x in lo..hi`, groups x, lo and hi, which is written as
                                     `name = lo; while name < name_end { x = name; name += 1; .. }`
    @BEFORE regex / @AFTER regex     ghost code before or after the text which matches
    @OR                              what follows annotates another form of the same function; the first which fits is taken
  @END
  @INCLUDE file                      another file in units/
A unit may be given as name:variant; lines ending in //#variant[,variant] are for those variants only (variant C27 has all).
A parameter `mut x` becomes `x_0` with `let mut x = x_0;` at the start of the body, and the result is given the name r.
Nothing else is changed in the text of a function. An anchor which does not match exactly once, or a loop
without invariants, makes the unit undecided.
"""
import glob, json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import extract
from extract import Lost

HERE = os.path.dirname(os.path.abspath(__file__))

def find_fn(s, impl, name):
    """-> (signature, body with braces) of the function."""
    if impl:
        spans = []
        for m in re.finditer(r"\b(?:impl|trait)\b[^{;]*?\b%s\b[^{;]*\{" % re.escape(impl), s):
            # `impl Trait for Impl` and `impl Impl` both count
            spans.append((m.end() - 1, extract.match_brace(s, m.end() - 1)))
    else:
        spans = [(0, len(s))]
    found = []
    for a, b in spans:
        for m in re.finditer(r"(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?\bfn\s+%s\b" % re.escape(name), s[a:b]):
            i = a + m.start()
            # the body starts at the first brace which is not inside parentheses
            j, depth = a + m.end(), 0
            while j < b and not (s[j] in "{;" and depth == 0):
                depth += {"(": 1, "[": 1, ")": -1, "]": -1}.get(s[j], 0)
                j += 1
            if j < b and s[j] == "{":
                e = extract.match_brace(s, j)
                # only direct members
                if not any(i > f[3] and e < f[4] for f in found):
                    found.append((impl, s[i:j].strip(), s[j:e], i, e))
    if len(found) != 1:
        raise Lost("%d definitions of %s" % (len(found), name))
    return found[0][1], found[0][2]

def once(rx, s, what):
    m = list(re.finditer(rx, s))
    if len(m) != 1:
        raise Lost("%s matches %d times: %s" % (what, len(m), rx))
    return m[0]

def texts(s):
    """Replaces the making of messages, whose wording no property depends on, by text()."""
    s = re.sub(r'"(?:[^"\\]|\\.)*"\s*\.\s*(?:to_string|to_owned|into)\s*\(\s*\)', "text()", s)
    s = re.sub(r'String::from\(\s*"(?:[^"\\]|\\.)*"\s*\)', "text()", s)
    while True:
        m = re.search(r"\bformat!\s*\(", s)
        if not m:
            return s
        i, depth = m.end(), 1
        while depth:
            if s[i] == '"':
                i += 1
                while s[i] != '"':
                    i += 2 if s[i] == "\\" else 1
            depth += {"(": 1, ")": -1}.get(s[i], 0)
            i += 1
        s = s[:m.start()] + "text()" + s[i:]

def signatures(s):
    """Signature::new(b"abcd") by the number it packs (C08)."""
    return re.sub(r'Signature::new\(\s*b"([ -!#-\[\]-~]{4})"\s*\)', lambda m: "Signature(0x%s)" % m.group(1).encode().hex(), s)

def ret(sig):
    """Names the result."""
    i, depth = sig.rfind("->"), 0
    where = re.search(r"\bwhere\b", sig)
    if i < 0:
        return sig
    end = where.start() if where and where.start() > i else len(sig)
    return "%s-> (r: %s)\n%s" % (sig[:i], sig[i + 2:end].strip(), sig[end:])

def part(t):
    """Splits loop annotations at their headings."""
    r, cur = {"": ""}, ""
    for l in t.splitlines():
        if l.strip() in ("@BODY", "@TAIL", "@DONE"):
            cur = l.strip()
            r[cur] = ""
        else:
            r[cur] += l + "\n"
    return r

def annotate(full, body, edits):
    loops = len(re.findall(r"\b(?:for|while|loop)\b(?!\s*<)", re.sub(r'"(?:[^"\\]|\\.)*"', '""', body)))
    if loops != sum(k[:5] in ("LOOP", "RANGE") for k, _, _ in edits):
        raise Lost("%s has %d loops" % (full, loops))
    todo = []
    for k, rx, ins in edits:
        m = once(rx, body, k)
        t = "\n".join(ins)
        for n, v in enumerate(m.groups(), 1):
            t = t.replace("{%d}" % n, v or "")
        if k.startswith("RANGE"):
            g = k.split()[1]
            j = body.index("{", m.end())
            if body[m.end():j].strip():
                raise Lost("header of the loop %s" % rx)
            x, lo, hi = m.groups()
            e = extract.match_brace(body, j)
            p = dict(zip(["", "@BODY", "@TAIL", "@DONE"], [""] * 4), **part(t))
            todo.append((m.start(), j + 1, "let mut %s = %s; let %s_end = %s;\nwhile %s < %s_end\n%s\n{ %s%s = %s + 1;\n%s" % (
                g, lo, g, hi, g, g, p[""], "" if x == "_" else "let %s = %s; " % (x, g), g, g, p["@BODY"])))
            todo.append((e - 1, e - 1, p["@TAIL"] + "\n"))
            todo.append((e, e, "\n" + p["@DONE"]))
        elif k == "LOOP":
            j = body.index("{", m.end()) if not m.group(0).endswith("{") else m.end() - 1
            head = body[m.start():j].rstrip()
            tag = re.match(r"#(\w+)\n", t.lstrip() + "\n")
            if tag:
                t = t.lstrip()[tag.end() - 0:]
                head = re.sub(r"\bin\b", "in %s:" % tag.group(1), head, count=1)
            parts = dict(zip(["", "@BODY", "@TAIL", "@DONE"], [""] * 4), **part(t))
            e = extract.match_brace(body, j)
            todo.append((m.start(), j, head + "\n" + parts[""] + "\n"))
            todo.append((j + 1, j + 1, "\n" + parts["@BODY"]))
            todo.append((e - 1, e - 1, parts["@TAIL"] + "\n"))
            todo.append((e, e, "\n" + parts["@DONE"]))
        elif k == "BEFORE":
            todo.append((m.start(), m.start(), t + "\n"))
        else:
            todo.append((m.end(), m.end(), "\n" + t))
    for s0, e0, t in sorted(todo, reverse=True):
        body = body[:s0] + t + body[e0:]
    return body

def weave(unit):
    """-> (text, [function names])"""
    subs, out, names, cache, opaque = [], [], [], {}, []
    unit, _, variant = unit.partition(":")
    lines = []
    def load(f):
        for l in open(os.path.join(HERE, "units", f)).read().splitlines():
            m = re.search(r"//#([\w,]+)\s*$", l)
            if l.startswith("@INCLUDE "):
                load(l.split()[1])
            elif not m or variant in m.group(1).split(",") or variant == "C27":
                lines.append(l[:m.start()].rstrip() if m else l)
    load(unit + ".rs")
    def src(p):
        if p not in cache:
            cache[p] = extract.source(p)
        return cache[p]
    def sub(p, t):
        for sp, rx, by in subs:
            if sp in ("*", p):
                t = texts(t) if rx == "TEXT" else signatures(t) if rx == "SIGNATURES" else re.sub(rx, by, t)
        return t
    i = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        d = l.strip()
        if d.startswith("@SUB "):
            p, rest = d[5:].split(None, 1)
            rx, _, by = rest.partition("==>")
            subs.append((p, rx.strip(), by.strip()))
        elif d.startswith("@ABSENT "):
            p, rx = d[8:].split(None, 1)
            p, _, but = p.partition("!")
            files = [p]
            if "*" in p:
                files = [os.path.relpath(f, extract.REPO) for f in sorted(glob.glob(os.path.join(extract.REPO, p), recursive=True))]
                files = [f for f in files if not f.endswith("_verif.rs") and f != but]
                if not files:
                    raise Lost("no file " + p)
            for f in files:
                if re.search(rx, src(f)):
                    raise Lost("%s has %s" % (f, rx))
        elif d.startswith("@STRUCT "):
            p, name = d.split()[1:]
            m = once(r"(?:pub(?:\([^)]*\))?\s+)?(struct|enum)\s+%s\b[^;{(]*[{(;]" % name, src(p), "struct")
            if m.group(0)[-1] == "{":
                body = src(p)[m.end() - 1:extract.match_brace(src(p), m.end() - 1)]
                if m.group(1) == "struct":
                    body = re.sub(r"(?m)([{,]\s*)(?:pub(?:\([^)]*\))?\s+)?(?=\w+\s*:)", r"\1pub ", body)
            else:
                e = src(p).index(";", m.start())
                body = re.sub(r"\(\s*(?:pub(?:\([^)]*\))?\s+)?", "(pub ", src(p)[m.end() - 1:e + 1])
            body = re.sub(r"#\[[^\]]*\]", "", body)
            out.append(sub(p, "pub %s %s%s" % (m.group(1), name, body)))
        elif d.startswith("@CONST "):
            p, name = d.split()[1:]
            m = once(r"\bconst\s+%s\s*:[^;=]*=[^;]*;" % name, src(p), "constant")
            out.append(sub(p, "pub " + m.group(0)))
        elif d.startswith("@CONSTS "):
            p = d.split()[1]
            out.append(sub(p, "\n".join("pub " + m for m in re.findall(r"\bconst\s+\w+\s*:[^;=]*=[^;]*;", src(p)))))
        elif d.startswith("@FN "):
            a = d.split()
            p, full = a[1], a[2]
            impl, _, name = full.rpartition("::")
            sig, body = find_fn(src(p), impl, name)
            sig, body = sub(p, sig), sub(p, body)
            plain = body
            if len(a) > 4 and a[3] == "as":
                sig = re.sub(r"\bfn\s+%s\b" % name, "fn " + a[4], sig)
            spec, alts, cur = [], [([], [])], None
            cur = spec
            while lines[i].strip() != "@END":
                t = lines[i].strip()
                m = re.match(r"@(LOOP|RANGE \w+|BEFORE|AFTER) (.*)", t)
                if t == "@OR":
                    alts.append(([], []))
                    cur = None
                elif t == "@START":
                    cur = alts[-1][0]
                elif m:
                    cur = []
                    alts[-1][1].append((m.group(1), m.group(2), cur))
                elif t in ("@BODY", "@TAIL", "@DONE"):
                    cur.append(t)
                elif t.startswith("@"):
                    raise Exception("directive " + t)
                else:
                    cur.append(lines[i])
                i += 1
            i += 1
            why = []
            for start, edits in alts:
                try:
                    body2 = annotate(full, body, edits)
                    break
                except Lost as ex:
                    why.append(str(ex))
            else:
                raise Lost("; ".join(why))
            body = body2
            muts = re.findall(r"(?<!&)\bmut\s+(\w+)\s*:", sig)
            sig = re.sub(r"(?<!&)\bmut\s+(\w+)(?=\s*:)", r"\1_0", sig)
            body = "{\n" + "".join("let mut %s = %s_0;\n" % (m, m) for m in muts) + "\n".join(start) + body[1:]
            names.append(full)
            # what Verus knows nothing about unless it is told: a failure may be due to that
            if re.search(r"[(,=]\s*(?:move\s*)?\|[\w\s,:&]*\|(?! *-> *\(\w+:[^{]*ensures)", re.sub(r"\b(ok_or_else|map_err)\(\|\w*\|", "", plain)):
                opaque.append("a closure in " + full)
            if re.search(r" (<<|>>|&|\^)=? ", plain):
                opaque.append("a bit operation in " + full)
            out.append("    " + ret(sig) + "\n" + "\n".join(spec) + "\n    " + body)
        else:
            out.append(l)
    return "\n".join(out) + "\n", names, opaque

DEFINITE = re.compile(r"^error: (postcondition not satisfied|precondition not satisfied|invariant not satisfied.*|assertion failed|"
                      r"possible arithmetic underflow/overflow|decreases not satisfied.*|possible division by zero|recommendation not met|"
                      r"unable to prove .*|loop invariant not .*|possible bit shift.*|precondition not met.*|constructed value may fail.*)")
AMBIENT = re.compile(r"^error: (aborting due to|could not compile)")

def verus(path, text, timeout, rlimit):
    with open(path, "w") as f:
        f.write(text)
    t0 = time.time()
    try:
        r = subprocess.run(["verus", path, "--triggers-mode", "silent", "--multiple-errors", "5", "--rlimit", str(rlimit), "--output-json", "--time"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=os.path.dirname(path))
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return None, "time-out", [], time.time() - t0
    try:
        j = json.loads(out)
    except ValueError:
        j = {}
    return j, err, [l for l in err.splitlines() if re.match(r"error(\[|:)", l)], time.time() - t0

ASSUMED = re.compile(r"#\[verifier::(external_body|external_fn_specification|external_type_specification|external)\]|\bassume_specification\b|\bassume\s*\(|\badmit\s*\(|\baxiom\b")

def assumed(unit, text):
    r = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(fn|struct|proof fn) (\w+)", text):
        r.append("Verus unit %s: %s %s is trusted to satisfy its contract (external_body)" % (unit, m.group(1), m.group(2)))
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*(?:\][^\]]*)?)\]\s*\(", text):
        r.append("Verus unit %s: assumed specification of %s" % (unit, " ".join(m.group(1).split())))
    if re.search(r"\bassume\s*\(|\badmit\s*\(", text):
        raise Exception("assume in a unit")
    return r

def check(units, folder, tier, timeout):
    os.makedirs(folder, exist_ok=True)
    res = []
    for name in units:
        u = dict(name=name, status="undecided", obligations=0, discharged=0, functions=[], time=0.0, assumed=[], why="", failed=[], output="")
        res.append(u)
        try:
            text, fns, opaque = weave(name)
        except (Lost, ValueError, IndexError, OSError) as ex:
            u["why"] = "extraction: %s" % ex
            continue
        rl = 30 if tier == "quick" else 120
        j, err, errors, t = verus(os.path.join(folder, name.replace(":", "_") + ".rs"), text, timeout, rl)
        u["time"], u["output"] = t, err
        if j is None:
            u["why"] = "time-out"
            continue
        v = j.get("verification-results", {})
        if v.get("success"):
            # the same text with a false claim in every contract must be rejected in each of the functions
            bad = vacuous(folder, name, text, fns, timeout, rl)
            u["obligations"] = u["discharged"] = v.get("verified", 0)
            u["functions"] = [dict(function=f, backend="Verus/Z3") for f in fns]
            u["assumed"] = assumed(name, text)
            if bad or not u["obligations"]:
                u["why"] = "vacuous: %s" % bad
            else:
                u["status"] = "ok"
            continue
        real = [e for e in errors if not AMBIENT.match(e)]
        u["obligations"] = v.get("verified", 0) + v.get("errors", 0)
        u["discharged"] = v.get("verified", 0)
        u["functions"] = [dict(function=f, backend="Verus/Z3") for f in fns]
        if real and all(DEFINITE.match(e) for e in real) and v.get("errors", 0) > 0:
            # the absence of panics is the business of C11; alone, it does not decide what else a unit is about
            safety = re.compile(r"error: (precondition not satisfied|possible |recommendation)")
            if name.partition(":")[2] not in ("", "C11", "C27") and all(safety.match(e) for e in real):
                u["why"] = "only the absence of panics is not proved: " + "; ".join(real[:3])
                continue
            if opaque:
                u["why"] = "%s: %s" % ("; ".join(opaque), "; ".join(real[:3]))
                continue
            u["status"] = "failed"
            where = re.findall(r"(error: [^\n]*)\n\s*--> [^\n]*\n(?:[^\n]*\n)?\s*\d+\s*\|\s*([^\n]*)", err)
            u["failed"] = ["verus_%s: %s at `%s`" % (name, a[7:], b.strip()[:120]) for a, b in where] or ["verus_" + name]
            u["why"] = "; ".join(u["failed"][:3])
        else:
            u["why"] = "; ".join((real or ["no verdict: " + err[-300:]])[:3])
    return dict(units=res, error=None)

def vacuous(folder, name, text, fns, timeout, rlimit):
    """Functions under contract which also satisfy `false`."""
    bad, mark = [], re.compile(r"/\*NOT-VACUOUS\*/ *true")
    n = len(mark.findall(text))
    if n < 1:
        return "no vacuity marker"
    def one(k, m):
        t2 = text[:m.start()] + "false" + text[m.end():]
        j, err, errors, _ = verus(os.path.join(folder, "%s_vacuity%d.rs" % (name.replace(":", "_"), k)), t2, timeout, rlimit)
        if j is not None and j.get("verification-results", {}).get("success"):
            bad.append("false is accepted at line %d" % (text.count("\n", 0, m.start()) + 1))
    with ThreadPoolExecutor(4) as pool:
        list(pool.map(lambda a: one(*a), enumerate(mark.finditer(text))))
    return "; ".join(bad)

if __name__ == "__main__":
    import sys
    if sys.argv[1] == "weave":
        print(weave(sys.argv[2])[0])
    else:
        r = check(sys.argv[1:], "/tmp/verus-run", "quick", 300)
        for u in r["units"]:
            print(u["name"], u["status"], u["discharged"], u["obligations"], "%.1fs" % u["time"], u["why"])
            if u["status"] != "ok":
                print(u["output"][-6000:])
