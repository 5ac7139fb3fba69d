#!/usr/bin/env python3
"""Assembles a stand-alone program from a template and pieces of the repository's current source.

Template directives (one per line):
  //@FN <file> <name> [impl-hint]     the text of the function `name` (the one whose enclosing impl header contains the hint)
  //@FILE <file>                      every item of the file, without `use`, `mod` and attributes
  //@ITEM <file> <keyword> <name>     struct/enum/const/trait item
Helpers that an extracted function calls (Self::x / Pallet::x / self.x not defined here) are pulled in from the same crate when
the compiler reports them missing.  Event emissions and log statements are dropped; attributes are dropped.
usage: ext.py <template> <outdir> [repo]   -> builds and runs; exit status of the program
"""
import os, re, subprocess, sys, glob

REPO = sys.argv[3] if len(sys.argv) > 3 else os.getcwd()


def skip_str(s, i):
    """index after the string/char/comment starting at i, or i when there is none"""
    if s.startswith("//", i):
        j = s.find("\n", i)
        return len(s) if j < 0 else j
    if s.startswith("/*", i):
        j = s.find("*/", i)
        return len(s) if j < 0 else j + 2
    m = re.compile(r'b?r(#*)"').match(s, i)
    if m and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
        j = s.find('"' + m.group(1), m.end())
        return j + 1 + len(m.group(1))
    if s[i] == '"':
        j = i + 1
        while s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j + 1
    m = re.compile(r"'(\\.[^']*|[^\\'])'").match(s, i)
    if m:
        return m.end()
    return i


def match(s, i):
    """index after the bracket group opening at i"""
    o = {"{": "}", "(": ")", "[": "]"}
    st = []
    while i < len(s):
        j = skip_str(s, i)
        if j != i:
            i = j
            continue
        c = s[i]
        if c in o:
            st.append(o[c])
        elif st and c == st[-1]:
            st.pop()
            if not st:
                return i + 1
        i += 1
    raise SystemExit("unbalanced")


def code_positions(s, rx):
    """matches of rx outside strings and comments"""
    r = re.compile(rx)
    i = 0
    while i < len(s):
        j = skip_str(s, i)
        if j != i:
            i = j
            continue
        m = r.match(s, i)
        if m and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            yield m
            i = m.end()
        else:
            i += 1


def uncomment(s):
    out = []
    i = 0
    while i < len(s):
        j = skip_str(s, i)
        if j != i:
            if not s.startswith("/", i):
                out.append(s[i:j])
            i = j
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def read(f):
    return uncomment(open(os.path.join(REPO, f)).read())


def strip(s):
    """drop attributes, event emissions, logging"""
    i = 0
    out = []
    drop = re.compile(r"(?:Self|<Self>|Pallet::<T>|Self::)?(?:::)?(deposit_event|log!|log::\w+!|info!|debug!|warn!|error!|trace!)\s*\(")
    while i < len(s):
        j = skip_str(s, i)
        if j != i:
            out.append(s[i:j])
            i = j
            continue
        if s[i] == "#" and re.match(r"#!?\[", s[i:]):
            i = match(s, s.index("[", i))
            continue
        m = drop.match(s, i)
        if m and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] in "_:!")):
            e = match(s, m.end() - 1)
            if s[e:e + 1] == ";":
                i = e + 1
            else:
                out.append("()")
                i = e
            continue
        out.append(s[i])
        i += 1
    return re.sub(r"\bSelf::(AccountId|Balance|AssetId)\b", r"T::\1", "".join(out))


def find_fn(f, name, hint=None):
    s = read(f)
    for m in code_positions(s, r"(pub(\s*\([^)]*\))?\s+)?(const\s+)?(async\s+)?(unsafe\s+)?fn\s+%s\b" % re.escape(name)):
        k = m.end()
        depth = 0
        # body brace: first { outside parens/where generics
        while s[k] != "{" and s[k] != ";":
            if s[k] in "([":
                k = match(s, k)
            else:
                k += 1
        if s[k] == ";":
            continue
        if hint:
            heads = [h for h in re.finditer(r"(?m)^\s*(?:impl|mod|pub mod)\b[^{;]*\{", s[:m.start()])]
            if not heads or hint not in re.sub(r"\s+", " ", heads[-1].group(0)):
                continue
        return strip(s[m.start():match(s, k)])
    return None


def find_item(f, kw, name):
    s = read(f)
    for m in code_positions(s, r"(pub(\s*\([^)]*\))?\s+)?%s\s+%s\b" % (kw, re.escape(name))):
        k = m.end()
        while s[k] not in "{;(=":
            k += 1
        if s[k] == "=":
            e = s.index(";", k) + 1
        elif s[k] == ";":
            e = k + 1
        else:
            e = match(s, k)
            if s[k] == "(":
                e = s.index(";", e) + 1
        t = strip(s[m.start():e])
        if kw in ("struct", "enum"):
            t = "#[derive(Clone, PartialEq, Debug)]\n" + t
        return t
    return None


def whole(f):
    s = read(f)
    m = re.search(r"#\[cfg\(test\)\]\s*mod \w+\s*\{", s)
    if m:
        s = s[:m.start()] + s[match(s, s.index("{", m.start())):]
    s = strip(s)
    s = re.sub(r"(?ms)^\s*(pub )?use [^;]*;", "", s)
    s = re.sub(r"(?m)^\s*(pub )?mod \w+;", "", s)
    s = re.sub(r"(?m)^(\s*)(pub(?:\([^)]*\))? )?(struct|enum) ", r"\1#[derive(Clone, PartialEq, Debug)]\n\1\2\3 ", s)
    return s


def main():
    tpl, out = sys.argv[1], sys.argv[2]
    src = open(tpl).read()
    here = os.path.dirname(os.path.abspath(tpl))
    files = []
    have = set()

    def sub(m):
        k, a = m.group(1), m.group(2).split()
        files.append(a[0])
        if k == "FN":
            have.add(a[1])
            t = find_fn(a[0], a[1], " ".join(a[2:]) or None)
        elif k == "ITEM":
            t = find_item(a[0], a[1], a[2])
        else:
            t = whole(a[0])
        if t is None:
            raise SystemExit("cannot find " + " ".join(a))
        return t
    src = re.sub(r"(?m)^[ \t]*//@(FN|FILE|ITEM) (.*)$", sub, src)
    src = src.replace("//@FRAME", open(os.path.join(here, "frame.rs")).read())
    helpers = ""
    top = ""
    for attempt in range(8):
        errs = sorted(set(re.findall(r"Error(?:::)?\s*(?:::\s*<\s*T\s*>|<\s*T\s*>)?\s*>?::\s*([A-Z]\w*)", src + helpers)) - {"Other"})
        text = src.replace("//@ERRORS", "\n".join(x + "," for x in errs)).replace("//@HELPERS", helpers).replace("//@TOP", top)
        p = os.path.join(out, "main.rs")
        open(p, "w").write(text)
        r = subprocess.run(["rustc", "--edition", "2021", "-A", "warnings", "-C", "overflow-checks=on", "-o", os.path.join(out, "t"), p], capture_output=True, text=True)
        if r.returncode == 0:
            return subprocess.run([os.path.join(out, "t")]).returncode
        miss = set(re.findall(r"no (?:function or associated item|associated function or constant|method|associated item) named `(\w+)` found for (?:struct|reference|type)", r.stderr))
        missf = set(re.findall(r"cannot find (?:function|value|constant) `(\w+)` in this scope", r.stderr))
        added = False
        dirs = {os.path.dirname(f) for f in files}
        cands = [os.path.relpath(g, REPO) for d in dirs for g in glob.glob(os.path.join(REPO, d, "*.rs"))]
        for n in miss | missf:
            if n in have:
                continue
            for f in cands:
                t = find_fn(f, n) or (find_item(f, "const", n) if n.isupper() else None)
                if t:
                    if n in missf:
                        top += t + "\n"
                    else:
                        helpers += t + "\n"
                    have.add(n)
                    added = True
                    break
        if not added:
            sys.stderr.write(r.stderr[-6000:])
            return 97
    return 98


sys.exit(main())
