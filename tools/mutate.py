#!/usr/bin/env python3
"""Development aid: systematic small changes, to find what no monitor notices.

usage: mutate.py list                       number of mutants per operator
       mutate.py survive OUT [FILE-REGEX]   mutants that compile and pass the existing tests -> OUT (JSON lines)
       mutate.py hunt IN OUT                runs the monitors on each of those -> OUT (first property violated, or none)
Works on copies in $MT (default /tmp/mt); leaves /repo alone. Mutants are single edits of
non-test source text: operators, constants, conditions, dropped statements and errors, swapped sides.
"""
import concurrent.futures as cf
import json, os, queue, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MT = os.environ.get("MT", "/tmp/mt")
JOBS = int(os.environ.get("JOBS", "6"))

def sh(cmd, cwd=None, timeout=600, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, env=e)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out

def mask(s):
    """comments and strings blanked, same length; stops at the unit tests"""
    m = re.search(r"^#\[cfg\(test\)\]\s*\nmod", s, re.M)
    if m:
        s = s[:m.start()]
    def blank(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    s = re.sub(r"//[^\n]*|/\*.*?\*/", blank, s, flags=re.S)
    s = re.sub(r'b?"(?:\\.|[^"\\])*"', blank, s)
    return s

OPS = [
    ("rel", r"(?<= )(<=|>=|==|!=|<|>)(?= )", {"<": ["<=", "=="], ">": [">=", "=="], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}),
    ("arith", r"(?<= )(\+|-|\*|/|%|<<|>>|&|\||\^)(?= )", {"+": ["-", "|"], "-": ["+"], "*": ["+"], "/": ["*"], "%": ["/"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"], "^": ["|"]}),
    ("assign", r"(?<= )(\+=|-=|\*=|/=|>>=|<<=)(?= )", {"+=": ["-="], "-=": ["+="], "*=": ["+="], "/=": ["*="], ">>=": ["<<="], "<<=": [">>="]}),
    ("bool", r"(&&|\|\|)(?= )", {"&&": ["||"], "||": ["&&"]}),
    ("lit", r"\b(true|false)\b", {"true": ["false"], "false": ["true"]}),
    ("side", r"\b(left_child|right_child|left_child_key|right_child_key|Left|Right|left|right|left_node|right_node|lhs|rhs|first|last|leaf_key|root|take_while|skip_while|min|max|is_leaf|is_node|is_some|is_none|is_left|is_right|left_data|right_data|leaf_sum|node_sum|path_nodes|side_nodes|bytes_lo|bytes_hi|parent|sibling|uncle|left_child_position|key|value|next|head|checked_add|saturating_add|wrapping_add|ceil|floor|push|insert|BYTES_LO|NODE|LEAF|PREFIX|trailing_ones|trailing_zeros|leading_zeros|count_ones)\b",
        {"left_child": ["right_child"], "right_child": ["left_child"], "left_child_key": ["right_child_key"], "right_child_key": ["left_child_key"],
         "Left": ["Right"], "Right": ["Left"], "left": ["right"], "right": ["left"], "left_node": ["right_node"], "right_node": ["left_node"],
         "lhs": ["rhs"], "rhs": ["lhs"], "first": ["last"], "last": ["first"], "min": ["max"], "max": ["min"], "is_leaf": ["is_node"], "is_node": ["is_leaf"],
         "is_some": ["is_none"], "is_none": ["is_some"], "is_left": ["is_right"], "is_right": ["is_left"], "leaf_sum": ["node_sum"], "node_sum": ["leaf_sum"],
         "path_nodes": ["side_nodes"], "side_nodes": ["path_nodes"], "bytes_lo": ["bytes_hi"], "bytes_hi": ["bytes_lo"], "parent": ["sibling", "uncle"], "sibling": ["parent", "uncle"],
         "uncle": ["sibling"], "key": ["value"], "value": ["key"], "NODE": ["LEAF"], "LEAF": ["NODE"], "trailing_ones": ["trailing_zeros"], "trailing_zeros": ["trailing_ones"],
         "leaf_key": ["bytes_hi"], "head": ["next"]}),
    ("num", r"(?<![\w.])(\d+)(?=(?:u8|u16|u32|u64|usize|i32)?\b)(?![\w.]*\])", None),
    ("not", r"(?<=[ (])(!)(?=[\w(])", {"!": [""]}),
    ("qm", r"(\?);", {"?": [".ok()"]}),
    ("call", r"(\.(?:rev|skip\(\d+\)|take\(\w+\)|saturating_sub\(1\)|cloned|peekable|filter\([^()]*\)|next\(\)|then\([^()]*\))(?:\(\))?)(?=[.;)\n ?])", "drop"),
]

def mutants(path, text):
    m = mask(text)
    out = []
    for name, rx, table in OPS:
        for x in re.finditer(rx, m):
            a, b = x.span(1)
            old = text[a:b]
            if name == "num":
                v = int(old)
                news = [str(v + 1)] + ([str(v - 1)] if v > 0 else [])
            elif table == "drop":
                news = [""]
            else:
                news = table.get(old, [])
            for n in news:
                out.append((name, a, b, old, n))
    # conditions
    for x in re.finditer(r"\b(?:if|while) (?!let\b)([^{}]+?) \{", m):
        a, b = x.span(1)
        for n in ("true", "false"):
            out.append(("cond", a, b, text[a:b], n))
    # statements: a line (or lines) ending in ; which is no let/use/return
    pos = 0
    for x in re.finditer(r"^( +)(?!let\b|use\b|pub\b|type\b|const\b|fn\b|return\b|\}|\)|\.|mod\b|#)([A-Za-z_*&(][^;{}]*;)", m, re.M):
        a, b = x.span(2)
        out.append(("drop", a, b, text[a:b], ""))
    # a tail expression replaced
    for x in re.finditer(r"^( +)(Some\((?:[^()]|\([^()]*\))*\))$", m, re.M):
        a, b = x.span(2)
        out.append(("none", a, b, text[a:b], "None"))
    # arguments swapped: f(a, b)
    for x in re.finditer(r"\(((?:&\s?(?:mut )?)?[\w.]+(?:\(\))?), ((?:&\s?(?:mut )?)?[\w.]+(?:\(\))?)\)", m):
        a, b = x.span()
        if x.group(1) != x.group(2):
            out.append(("swap", a, b, text[a:b], f"({x.group(2)}, {x.group(1)})"))
    # adjacent single-line statements swapped
    for x in re.finditer(r"^( +)([^\n{}]*;)\n\1([^\n{}]*;)$", m, re.M):
        if "use " in x.group(2) or x.group(2).lstrip().startswith(("type", "const", ".", ")")) or x.group(3).lstrip().startswith((".", ")", "const", "type")):
            continue
        a, b = x.span(2)[0], x.span(3)[1]
        out.append(("order", a, b, text[a:b], text[x.start(3):x.end(3)] + "\n" + x.group(1) + text[x.start(2):x.end(2)]))
    return out

def all_mutants(rx):
    res = []
    for base in ("src", "test-helpers/src"):
        for d, _, fs in os.walk(f"/repo/{base}"):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), "/repo")
                if f.endswith(".rs") and "suites" not in p and "test_data" not in p and re.search(rx, p):
                    t = open(f"/repo/{p}").read()
                    for k, (name, a, b, old, new) in enumerate(mutants(p, t)):
                        line = t.count("\n", 0, a) + 1
                        res.append(dict(file=p, op=name, a=a, b=b, old=old, new=new, line=line))
    return res

def workers():
    q = queue.Queue()
    for i in range(JOBS):
        w = f"{MT}/w{i}"
        os.makedirs(w, exist_ok=True)
        if not os.path.exists(f"{w}/repo"):
            sh(f"git clone -q /repo {w}/repo")
        sh("git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD; git clean -fdq -e target", f"{w}/repo")
        sh(f"mkdir -p {w}/verif; cp -r {ROOT}/harness/src {ROOT}/harness/Cargo.* {w}/verif/ 2>/dev/null; mkdir -p {w}/verif/h; rm -rf {w}/verif/h/src; mv {w}/verif/src {w}/verif/Cargo.* {w}/verif/h/")
        sh(f"cp -r {ROOT}/harness/.cargo {w}/verif/h/ 2>/dev/null; sed -i 's#path = \"/repo#path = \"{w}/repo#' {w}/verif/h/Cargo.toml")
        q.put(w)
    return q

def apply(w, m):
    p = f"{w}/repo/{m['file']}"
    t = open(f"/repo/{m['file']}").read()
    assert t[m["a"]:m["b"]] == m["old"]
    open(p, "w").write(t[:m["a"]] + m["new"] + t[m["b"]:])
def undo(w, m):
    sh(f"git checkout -q -- {m['file']}", f"{w}/repo")

def survive(out, rx):
    ms = all_mutants(rx)
    q = workers()
    f = open(out, "w")
    n = dict(compile=0, test=0, survive=0)
    def one(m):
        w = q.get()
        try:
            apply(w, m)
            rc, o = sh("cargo test --offline --no-run -p fuel-merkle -p fuel-merkle-test-helpers && cargo check --offline --no-default-features", f"{w}/repo", 200)
            if rc:
                n["compile"] += 1; return
            rc, o = sh("cargo test --offline -p fuel-merkle -p fuel-merkle-test-helpers -- --test-threads 2", f"{w}/repo", 60)
            if rc != 0:
                n["test"] += 1; return
            n["survive"] += 1
            f.write(json.dumps(m) + "\n"); f.flush()
        finally:
            undo(w, m); q.put(w)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for i, _ in enumerate(ex.map(one, ms)):
            if i % 50 == 0: print(i, len(ms), n, flush=True)
    print(len(ms), n)

def order(file, ids):
    if "test-helpers" in file: first = ["C36", "C34", "C25"]
    elif "sparse" in file or "path" in file or "msb" in file: first = ["C08", "C20", "C12", "C11", "C10", "C31", "C14", "C13", "C09", "C22", "C35"]
    elif "sum" in file: first = ["C16", "C17", "C18", "C29", "C35"]
    elif "position" in file: first = ["C19", "C20", "C02", "C01", "C03", "C06"]
    elif "storage" in file: first = ["C21", "C32", "C27"]
    else: first = ["C01", "C02", "C05", "C04", "C06", "C07", "C03", "C31", "C22"]
    return first + [i for i in ids if i not in first and i != "C24"] + ["C24"]

def hunt(inp, out):
    ms = [json.loads(l) for l in open(inp)]
    ids = open(f"{ROOT}/tools/claimed.txt").read().split()
    q = workers()
    f = open(out, "w")
    def one(m):
        w = q.get()
        try:
            apply(w, m)
            rc, o = sh(f"cargo build --offline --profile checked --features all,helpers,C33 --target-dir {w}/tgt", f"{w}/verif/h", 400)
            if rc:
                m["by"] = "build"; m["why"] = o[-300:]
            else:
                m["by"] = None
                for i in order(m["file"], ids):
                    rc, o = sh(f"{w}/tgt/checked/fm-monitor {i} --threads 3", timeout=300)
                    if rc == 1:
                        mm = re.search(r'"message":"((?:[^"\\]|\\.)*)"', o)
                        m["by"] = i; m["why"] = (mm.group(1) if mm else o)[:200]; break
                    if rc not in (0,):
                        m.setdefault("odd", []).append(f"{i}:{rc}")
            f.write(json.dumps(m) + "\n"); f.flush()
            print(m["by"], m["file"], m["line"], m["op"], repr(m["old"][:60]), "->", repr(m["new"][:60]), m.get("odd", ""), flush=True)
        finally:
            undo(w, m); q.put(w)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, ms))

c = sys.argv[1]
if c == "list":
    from collections import Counter
    ms = all_mutants(sys.argv[2] if len(sys.argv) > 2 else "")
    print(len(ms), Counter(m["op"] for m in ms), Counter(m["file"] for m in ms))
elif c == "survive":
    survive(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "")
elif c == "hunt":
    hunt(sys.argv[2], sys.argv[3])
