#!/usr/bin/env python3
"""Mutation campaign against the checks (not a check itself).
mutate.py OUT PROP file[:lo-hi] ... -- K workers   (Python and C++ files, relative to /repo)
Every mutant lives in a scratch copy of the repository and runs as an unprivileged user."""
import ast, os, random, re, shutil, subprocess, sys, threading, queue, json
BASE = "/tmp/mut"
UID = 65534

def py_mutants(src):
    t = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    enc = src.encode()
    for l in enc.split(b"\n"):
        off.append(off[-1] + len(l) + 1)
    pos = lambda ln, c: off[ln - 1] + c
    seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []
    doc = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
        if isinstance(n, (ast.FunctionDef, ast.arguments)):
            for a in ast.walk(n.args if isinstance(n, ast.FunctionDef) else n):
                pass
    def add(a, b, new, kind):
        out.append((a, b, new.encode() if isinstance(new, str) else new, kind))
    C = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    B = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["+"], ast.Pow: ["*"]}
    for n in ast.walk(t):
        if isinstance(n, ast.Compare):
            a, b = seg(n.left)[1], seg(n.comparators[0])[0]
            for r in C.get(type(n.ops[0]), []):
                m = enc[a:b]
                k = re.sub(rb"(not\s+in|is\s+not|<=|>=|==|!=|<|>|\bin\b|\bis\b)", r.encode(), m, count=1)
                add(a, b, k, "cmp")
        elif isinstance(n, ast.BinOp):
            if isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", None), str):
                continue
            a, b = seg(n.left)[1], seg(n.right)[0]
            for r in B.get(type(n.op), []):
                k = re.sub(rb"(\*\*|//|\+|-|\*|/|%)", r.encode(), enc[a:b], count=1)
                add(a, b, k, "arith")
        elif isinstance(n, ast.BoolOp):
            a, b = seg(n.values[0])[1], seg(n.values[1])[0]
            r = b"or" if isinstance(n.op, ast.And) else b"and"
            add(a, b, re.sub(rb"\b(and|or)\b", r, enc[a:b], count=1), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = seg(n); c, d = seg(n.operand)
            add(a, b, enc[c:d], "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, b = seg(n); c, d = seg(n.operand)
            add(a, b, enc[c:d], "neg")
        elif isinstance(n, ast.Constant) and id(n) not in doc:
            a, b = seg(n)
            if n.value is True or n.value is False:
                add(a, b, str(not n.value), "flag")
            elif isinstance(n.value, int):
                add(a, b, str(n.value + 1), "const"); add(a, b, str(n.value - 1) if n.value else "(-1)", "const")
            elif isinstance(n.value, float):
                add(a, b, repr(n.value * 1.01 + 1e-6), "const")
        elif isinstance(n, ast.If):
            a, b = seg(n.test)
            add(a, b, "True", "if"); add(a, b, "False", "if")
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            a, b = seg(n)
            add(a, b, "pass", "delete")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript,)):
            a, b = seg(n)
            add(a, b, "pass", "delete")
        elif isinstance(n, ast.Attribute) and n.attr in ("min", "max", "argmin", "argmax", "append", "floor", "ceil", "sin", "cos", "any", "all", "copy", "T"):
            a, b = seg(n)
            sw = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor", "sin": "cos", "cos": "sin", "any": "all", "all": "any"}
            if n.attr in sw:
                k = enc[a:b]
                add(a, b, k[:k.rindex(b".") + 1] + sw[n.attr].encode(), "call")
            elif n.attr == "T":
                k = enc[a:b]
                add(a, b, k[:k.rindex(b".")], "call")
        elif isinstance(n, ast.Slice):
            pass
    res = []
    for a, b, new, kind in out:
        if enc[a:b] != new:
            res.append((enc[:a].count(b"\n") + 1, kind, (enc[:a] + new + enc[b:]).decode(), "%s -> %s" % (enc[a:b].decode(), new.decode())))
    return res

def cc_mutants(src):
    # strip comments and strings by masking
    m = list(src)
    for x in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|^\s*#[^\n]*', src, re.S | re.M):
        for i in range(*x.span()):
            if m[i] != "\n":
                m[i] = " "
    s = "".join(m)
    out = []
    def add(a, b, new, kind):
        out.append((src[:a].count("\n") + 1, kind, src[:a] + new + src[b:], "%s -> %s" % (src[a:b], new)))
    for x in re.finditer(r"(?<=[\w\)\] ])(<=|>=|==|!=|&&|\|\|)(?=[ \w\(\-!])", s):
        r = {"<=": "<", ">=": ">", "==": "!=", "!=": "==", "&&": "||", "||": "&&"}[x.group()]
        add(*x.span(), r, "cmp")
    for x in re.finditer(r"(?<=[\w\)\]]) ?(<|>) ?(?=[\w\(\-])", s):
        line = s[s.rfind("\n", 0, x.start()) + 1:s.find("\n", x.end())]
        if re.search(r"template|_cast|vector<|Vec\w*<|map<|ptr<|tuple<|array<|include|typename|TensorAccessor|accessor<|<\w+>|<\w+, ?\w+>|pair<", line):
            continue
        add(*x.span(), x.group().replace("<", "<=") if "<" in x.group() else x.group().replace(">", ">="), "cmp")
    for x in re.finditer(r"(?<=[\w\)\]]) ?([+\-*/]) ?(?=[\w\(])", s):
        line = s[s.rfind("\n", 0, x.start()) + 1:s.find("\n", x.end())]
        o = x.group(1)
        if o == "*" and (re.search(r"^\s*(const\s+)?[\w:<>]+\s*\*", line) or re.search(r"\b(int|double|float|char|void|CoordType|bool|long|size_t|T|auto)\b[\w\s<>]*\*", line) and "=" not in line[:x.start()]):
            continue
        if re.search(r"[eE]$", s[x.start() - 1:x.start()]) and s[x.start() - 2:x.start() - 1].isdigit():
            continue
        r = {"+": "-", "-": "+", "*": "/", "/": "*"}[o]
        add(*x.span(), x.group().replace(o, r), "arith")
    for x in re.finditer(r"(?<![\w\.])(\d+)(?![\w\.])", s):
        line = s[s.rfind("\n", 0, x.start()) + 1:s.find("\n", x.end())]
        if re.search(r"Vec\w*<|Stride|template", line):
            continue
        v = int(x.group())
        add(*x.span(), str(v + 1), "const")
        if v > 0:
            add(*x.span(), str(v - 1), "const")
    for x in re.finditer(r"(\+\+|--|\+=|-=)", s):
        r = {"++": "--", "--": "++", "+=": "-=", "-=": "+="}[x.group()]
        if x.group() in ("+=", "-="):
            add(*x.span(), r, "aug")
    for x in re.finditer(r"\b(ceil|floor|min|max|true|false|sin|cos|fmin|fmax)\b", s):
        r = {"ceil": "floor", "floor": "ceil", "min": "max", "max": "min", "true": "false", "false": "true", "sin": "cos", "cos": "sin", "fmin": "fmax", "fmax": "fmin"}[x.group()]
        add(*x.span(), r, "call")
    for x in re.finditer(r"^[ \t]*([\w\->\.\[\]\(\), ]+(?:[+\-*/]?=)[^=;\n][^;\n]*|[\w\->\.]+\([^;\n]*\));[ \t]*$", s, re.M):
        if re.match(r"\s*(return|delete|free|const|int|double|auto|float|std|CoordType|bool|at::|torch::|for|if|using|typedef|size_t|long)", x.group()):
            continue
        add(x.start(1), x.end(1), "", "delete")
    return out

def main():
    i = sys.argv.index("--")
    outp, prop, files = sys.argv[1], sys.argv[2].split(","), sys.argv[3:i]
    K, W = int(sys.argv[i + 1]), int(sys.argv[i + 2])
    ms = []
    for f in files:
        f, _, r = f.partition(":")
        lo, hi = (int(x) for x in r.split("-")) if r else (0, 10**9)
        src = open("/repo/" + f).read()
        for ln, kind, text, what in (py_mutants if f.endswith(".py") else cc_mutants)(src):
            if lo <= ln <= hi:
                ms.append((f, ln, kind, text, what))
    rng = random.Random(int(os.environ.get("MUT_SEED", "7")))
    rng.shuffle(ms)
    seen = set()          # MUT_SKIP: result files of earlier campaigns whose mutants are left out
    for f in os.environ.get("MUT_SKIP", "").split():
        seen |= {tuple(l.split("\t")[1:4]) for l in open(f)} if os.path.exists(f) else set()
    ms = [m for m in ms if ("%s:%d" % m[:2], m[2], m[4].replace("\n", "\\n")) not in seen]
    tot = len(ms)
    ms = ms[:K]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    res, lock = [], threading.Lock()
    def worker(w):
        d = "%s/%s_%s_%d" % (BASE, os.path.basename(outp), prop[0], w)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/tmp")
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        os.makedirs(d + "/v")
        for x in ("lib", "checks", "cpp", "py", "known_findings.txt"):
            subprocess.check_call(["cp", "-a", "/verif/" + x, d + "/v/"])
        p = d + "/v/lib/vplib.py"
        t = re.sub(r'(?m)^REPO\s*=.*$', 'REPO = "%s/repo"' % d, open(p).read())
        open(p, "w").write(t)
        subprocess.check_call(["chown", "-R", "%d:%d" % (UID, UID), d])
        env = dict(os.environ, PYTHONPATH=d + "/repo", TMPDIR=d + "/tmp", HOME=d + "/tmp", VERIF_SEED="1", VERIF_TIER="quick", VERIF_JOBS=os.environ.get("VERIF_JOBS", "2"))
        while True:
            try:
                f, ln, kind, text, what = q.get_nowait()
            except queue.Empty:
                break
            orig = open("/repo/" + f).read()
            open(d + "/repo/" + f, "w").write(text)
            verdict = "SURVIVED"
            for pr in prop:
                try:
                    lim = os.environ.get("MUT_AS")
                    r = subprocess.run((["prlimit", "--as=" + lim] if lim else []) + ["setpriv", "--reuid", str(UID), "--regid", str(UID), "--clear-groups", "/opt/venv/bin/python", "checks/%s.py" % pr, "--tier", "quick", "--seed", "1"],
                                       cwd=d + "/v", env=env, capture_output=True, text=True, timeout=900)
                    o = r.stdout + r.stderr
                    if r.returncode == 1 and "VIOLATION property=" in o:
                        verdict = "killed"; break
                    if r.returncode not in (0, 1) or "INCONCLUSIVE" in o:
                        verdict = "inconclusive " + (o.strip().splitlines() or [""])[-1][:160]
                        if "compile" in verdict:
                            break
                except subprocess.TimeoutExpired:
                    verdict = "timeout"; break
            open(d + "/repo/" + f, "w").write(orig)
            with lock:
                res.append(verdict)
                with open(outp, "a") as g:
                    g.write("%s\t%s:%d\t%s\t%s\t| %s\n" % (verdict, f, ln, kind, what.replace("\n", "\\n"), orig.split("\n")[ln - 1].strip()[:110]))
        shutil.rmtree(d, ignore_errors=True)
    T = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
    [t.start() for t in T]; [t.join() for t in T]
    print(outp, "mutants", len(ms), "of", tot, "killed", res.count("killed"), "survived", res.count("SURVIVED"), "other", len(res) - res.count("killed") - res.count("SURVIVED"))
main()
