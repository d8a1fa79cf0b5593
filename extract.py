"""Mechanical extractions from /repo's source, made on every run."""
import os, re, subprocess

REPO = "/repo"

class Lost(Exception):
    """The source does not have the shape an extraction needs."""

def strip_comments(s):
    """Removes comments; strings and characters are left alone."""
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            depth, i = 1, i + 2
            while i < n and depth:
                if s.startswith("/*", i):
                    depth, i = depth + 1, i + 2
                elif s.startswith("*/", i):
                    depth, i = depth - 1, i + 2
                else:
                    i += 1
            out.append(" ")
        elif s[i] == '"' or (s[i] == "b" and s[i + 1:i + 2] == '"'):
            j = i + (2 if s[i] == "b" else 1)
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif s[i] == "r" and re.match(r'r#*"', s[i:]) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            h = re.match(r'r(#*)"', s[i:]).group(1)
            j = s.find('"' + h, i + 2 + len(h))
            out.append(s[i:j + 1 + len(h)])
            i = j + 1 + len(h)
        elif s[i] == "'" and re.match(r"'(\\.[^']*|[^\\'])'", s[i:]):
            m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:])
            out.append(m.group(0))
            i += len(m.group(0))
        else:
            out.append(s[i])
            i += 1
    return "".join(out)

def match_brace(s, i):
    """Index after the brace closing the one at i (comments are gone; strings are skipped)."""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'" and re.match(r"'(\\.[^']*|[^\\'])'", s[i:]):
            i += len(re.match(r"'(\\.[^']*|[^\\'])'", s[i:]).group(0)) - 1
        elif c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    raise Lost("unbalanced braces")

def drop_tests(s):
    """Removes #[cfg(test)] items."""
    while True:
        m = re.search(r"#\[cfg\(test\)\]\s*(pub\s+)?(mod|fn|use|impl)\b", s)
        if not m:
            return s
        b, semi = s.find("{", m.end()), s.find(";", m.end())
        if b < 0 or (0 <= semi < b):
            s = s[:m.start()] + s[semi + 1:]
        else:
            s = s[:m.start()] + s[match_brace(s, b):]

def library():
    """The source of the standard library of the toolchain which builds /repo."""
    r = subprocess.run(["rustc", "--print", "sysroot"], cwd=REPO, stdout=subprocess.PIPE, text=True).stdout.strip()
    return os.path.join(r, "lib/rustlib/src/rust/library")

def source(path):
    root = library() if re.match(r"(std|alloc|core)/", path) else REPO
    return drop_tests(strip_comments(open(os.path.join(root, path)).read()))

FLOAT = r"(?<![\w.])(?:\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+|\d[\d_]*\.(?![\w.])|\d[\d_]*(?=_?f64\b))(?:_?f64)?(?!\w)"

def curves(out):
    """src/plugins/para_curve.rs with f64 replaced by a type with uninterpreted arithmetic."""
    s = source("src/plugins/para_curve.rs")
    consts = ""
    lib = source("src/lib.rs")
    def use(m):
        nonlocal consts
        names = re.findall(r"\w+", m.group(1))
        for n in names:
            d = re.search(r"(?:pub(?:\([^)]*\))?\s+)?const\s+%s\s*:\s*f64\s*=\s*([^;]+);" % n, lib)
            if not d:
                raise Lost("import of crate::%s" % n)
            consts += "pub const %s: f64 = %s;\n" % (n, d.group(1))
        return ""
    s = re.sub(r"use\s+crate::(\w+|\{[^}]*\})\s*;", use, s)
    s = re.sub(r"\bcrate::(\w+)\b", lambda m: (use(re.match(r"(.*)", m.group(1))), m.group(1))[1], s)
    s = consts + s
    s = re.sub(r"(?:std|core)::f64::consts::(\w+)", r"F::lit(std::#64::consts::\1)", s)
    def lit(m):
        sign, l = m.group(2) or "", re.sub(r"_?f64$", "", m.group(3)).rstrip(".")
        return "%sF::lit(%s%s#64)" % (m.group(1) or "", sign, l)
    # a sign belongs to the literal where no operand can precede it
    s = re.sub(r"(?:((?<=[=(,{])\s*)(-)\s*)?(%s)" % FLOAT, lit, s)
    s = re.sub(r"\b(?:std|core)::f64::(?=[A-Z])", "F::", s)
    s = re.sub(r"\bf64\b", "F", s)
    s = s.replace("#64", "f64")
    with open(out, "w") as f:
        f.write("// extracted from /repo/src/plugins/para_curve.rs: comments and tests dropped, f64 replaced by F\nuse crate::fnum::F;\n" + s)

if __name__ == "__main__":
    curves("/dev/stdout")
