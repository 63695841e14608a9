"""Constants that appear in the library's source: a dictionary for the workload generators.
It only steers what is generated, never what is judged."""
import collections, glob, json, os, re, sys
INT = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:_?[iu](?:8|16|32|64|128|size))?"
NUM = re.compile(r"(?<![\w.])" + INT + r"(?![\w.]*\w)")
EXPR = re.compile(r"(?<![\w.])" + INT + r"(?:\s*(?:<<|\*|\+|-|\^)\s*" + INT + r")+(?!\w)")
POW = re.compile(r"(?<![\w.])(" + INT + r")\.(?:\w*pow)\(\s*(" + INT + r")\s*\)")
ARR = re.compile(r"\[\s*(" + INT + r"(?:\s*,\s*" + INT + r")+)\s*,?\s*\]")
TXT = re.compile(r'b?"((?:[^"\\]|\\.)*)"')
CHR = re.compile(r"b'((?:[^'\\]|\\.)+)'")
EXT = re.compile(r"\b([iu](?:8|16|32|64))::(MAX|MIN)\b")


def num(s):
    s = re.sub(r"_?[iu](?:8|16|32|64|128|size)$", "", s).replace("_", "")
    try:
        return int(s, 0) if not (s.isdigit()) else int(s)
    except ValueError:
        return None


def unescape(s):
    try:
        return s.encode("latin-1", "backslashreplace").decode("unicode_escape").encode("latin-1", "ignore")
    except UnicodeError:
        return s.encode()


def strip(src):
    src = re.sub(r"//[^\n]*", "", src)
    src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
    # test modules stand at the end of a file
    m = re.search(r"#\[cfg\(test\)\]\s*mod\s", src)
    return src[: m.start()] if m else src


def of(root):
    """(file, constant) -> occurrences; constants are numbers or texts in hex"""
    seen = collections.Counter()
    for base in ("src", "test-helpers/src"):
        for f in sorted(glob.glob(os.path.join(root, base, "**", "*.rs"), recursive=True)):
            try:
                src = strip(open(f, errors="replace").read())
            except OSError:
                continue
            nums, texts = [], []
            src = re.sub(r"#!?\[(?:cfg|doc|error|serde|derive)[^\]]*\]", "", src)
            for t in TXT.findall(src):
                b = unescape(t)
                if 0 < len(b) <= 64:
                    texts.append(b.hex())
            src = TXT.sub('""', src)
            for t in CHR.findall(src):
                b = unescape(t)
                if len(b) == 1:
                    nums.append(b[0])
            src = CHR.sub("0", src)
            for a in ARR.findall(src):
                v = [num(x.strip()) for x in a.split(",")]
                if len(v) <= 64 and all(x is not None and x < 256 for x in v):
                    texts.append(bytes(v).hex())
            for e in EXPR.findall(src):
                toks = re.findall(INT + r"|<<|[*+^-]", e)
                try:
                    ok = "".join(x if not x[0].isdigit() else str(num(x)) for x in toks)
                    if len(ok) < 60 and not re.search(r"<<\d{3,}", ok):
                        nums.append(eval(ok, {"__builtins__": {}}))
                except Exception:
                    pass
            for a, b in POW.findall(src):
                a, b = num(a), num(b)
                if a is not None and b is not None and b < 64:
                    nums.append(a ** b)
            for x in NUM.findall(src):
                nums.append(num(x))
            for t, m in EXT.findall(src):
                w = int(t[1:]) - (t[0] == "i")
                nums.append((1 << w) - 1 if m == "MAX" else 1 << w)
            name = os.path.relpath(f, root)
            for x in nums:
                if x is not None and 0 <= x < 1 << 64:
                    seen[name, "n%d" % x] += 1
            for x in texts:
                seen[name, "t" + x] += 1
    return seen


KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")


def dictionary(root):
    """"NEW;ALL": the constants that occur in some file more often than KNOWN says, and all of them"""
    seen = of(root)
    try:
        known = {(f, x): c for f, d in json.load(open(KNOWN)).items() for x, c in d.items()}
    except (OSError, ValueError):
        known = {}
    new = sorted({x for (f, x), c in seen.items() if c > known.get((f, x), 0)})
    old = sorted({x for _, x in seen})
    return ",".join(new[:300]) + ";" + ",".join(old[:300])


if __name__ == "__main__":
    root = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1][0] != "-" else "/repo"
    if "--write" in sys.argv:
        out = {}
        for (f, x), c in sorted(of(root).items()):
            out.setdefault(f, {})[x] = c
        json.dump(out, open(KNOWN, "w"), indent=0)
    print(dictionary(root))
