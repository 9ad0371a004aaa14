#!/usr/bin/env python3
"""Mutation survey: how many small source mutants of a header do the checks notice?
  tools/mutate.py OUT.jsonl [--per-line N] [--slots N] [--seed S] file...    (files relative to libs/mathlib/include)
Every mutant lives in a scratch copy of the headers under /tmp/mut; /repo is never touched.  This is a development aid, not a check."""
import sys, os, re, json, shutil, subprocess, hashlib, concurrent.futures as cf, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
INC = "/repo/libs/mathlib/include"
RULES = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\*= ", "/= "), (r"/= ", "*= "),
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"Real\(0\)", "Real(1)"), (r"Real\(1\)", "Real(2)"), (r"Real\(2\)", "Real(1)"), (r"Real\(0\.5\)", "Real(1)"),
    (r"\bx\b(?! *\()", "y"), (r"\by\b(?! *\()", "x"), (r"\bz\b(?! *\()", "x"), (r"\bw\b(?! *\()", "z"), (r"([(=,] ?|return )-(?=[a-zA-Z(])", r"\1"), (r"!(?=[a-zA-Z(])", ""),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\binf\b", "sup"), (r"\bsup\b", "inf"), (r"\bstart\b", "end"), (r"\+\+", "--"),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"), (r"\bb\b", "a"), (r"\ba\b", "b"),
    (r"Flags::Normal\b", "Flags::Orthogonal"), (r"Flags::Orthonormal\b", "Flags::Normal"), (r"Flags::Identity\b", "Flags::Normal"), (r"%", "*"), (r" & ", " | "), (r"\|= ", "&= "), (r"&= ~", "&= "),
]
def mutants(f, per_line, seed):
    src = open(os.path.join(INC, f), encoding="latin-1", newline="").read().split("\n")
    out = []
    for n, line in enumerate(src):
        s = line.strip()
        if not s or s.startswith(("//", "#", "template", "assert", "typedef", "public", "private", "enum", "class", "*", "/*", "MATHLIB_NS_")): continue
        if not line[0] in "\t " and not ("::" in line and False): continue  # function bodies only
        code = line.split("//")[0]
        c = []
        for pat, rep in RULES:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + re.sub(pat, rep, code[m.start():m.end()] if not pat.startswith("(") else code[m.start():m.end() + 1], count=1) + (code[m.end():] if not pat.startswith("(") else code[m.end() + 1:])
                if new != code: c.append(new)
        if re.match(r"\s+[a-zA-Z_][\w.\->\[\]]*( [-+*/|&]?= .*|\(.*\));\s*$", code) and not s.startswith("return"): c.append("\t;")
        c = sorted(set(c), key=lambda x: hashlib.md5((seed + f + str(n) + x).encode()).hexdigest())[:per_line]
        for x in c: out.append((f, n + 1, line.rstrip("\r"), x.rstrip("\r")))
    return out
# Conditional mutants: a value computed by the line is wrong only when it lies in a region of the number line.
GUARDS = ["v < 0", "v > 1", "v != 0 && v < R(1e-2) && v > R(-1e-2)", "v > 50 || v < -50", "v == 0", "v > R(0.3) && v < R(0.6)", "(v > 3 && v < 7)", "(v > -7 && v < -3)",
          "v < 0 && v > R(-1e-4)", "v == 1", "v > R(1e5) || v < R(-1e5)", "v > R(0.9) && v < 1", "v > R(1.5) && v < R(1.9)", "v > R(-0.2) && v < 0"]
GUARD_CODE = """
template <int G> struct McGuard;
%s
template <int G> float mcg(float v) { return McGuard<G>::in(v) ? v * 1.03125f + 0.0078125f : v; }
template <int G> double mcg(double v) { return McGuard<G>::in(v) ? v * 1.03125 + 0.0078125 : v; }
inline float mcn(float v) { return v; }
inline double mcn(double v) { return (double)(float)v; }
""" % "\n".join("template <> struct McGuard<%d> { template <class R> static bool in(R v) { return %s; } };" % (i, g) for i, g in enumerate(GUARDS))
narrow = False          # --narrow: double values rounded to single precision, one line at a time
def guarded(f, per_line, seed):
    src = open(os.path.join(INC, f), encoding="latin-1", newline="").read().split("\n")
    out = []
    for n, line in enumerate(src):
        code = line.rstrip("\r").split("//")[0].rstrip()
        if not code or code[0] not in "\t ": continue
        m = re.match(r"^(\s+(?:(?:const )?Real )?[a-zA-Z_][\w.\->\[\]]*(?: [-+*/]?= ))([^;=]+);$", code) or re.match(r"^(\s+return )([^;]+);$", code)
        if not m or "?" in m.group(2) and "(" not in m.group(2) or re.match(r"-?Real\(-?[0-9.]+\)$", m.group(2).strip()) or m.group(2).strip() in ("true", "false", "*this", "r"): continue
        if narrow: out.append((f, n + 1, line.rstrip("\r"), "%sMATHLIB_NS::mcn(%s);" % (m.group(1), m.group(2)))); continue
        gs = sorted(range(len(GUARDS)), key=lambda g: hashlib.md5((seed + f + str(n) + str(g)).encode()).hexdigest())[:per_line]
        for g in gs: out.append((f, n + 1, line.rstrip("\r"), "%sMATHLIB_NS::mcg<%d>(%s);" % (m.group(1), g, m.group(2))))
    return out
def main():
    a = sys.argv[1:]; outp = a.pop(0); per, slots, seed = 1, 4, "1"
    files = []; retry = None; gen = mutants; shuffle = False
    while a:
        x = a.pop(0)
        if x == "--per-line": per = int(a.pop(0))
        elif x == "--slots": slots = int(a.pop(0))
        elif x == "--seed": seed = a.pop(0)
        elif x == "--guards": gen = guarded         # values that are wrong in one region only
        elif x == "--narrow": gen = guarded; globals()["narrow"] = True
        elif x == "--retry": retry = a.pop(0)   # only the mutants that survived in that earlier output
        elif x == "--shuffle": shuffle = True
        else: files.append(x)
    cost = {"C05": 9, "C08": 5, "C06": 3, "C10": 4, "C27": 6, "C23": 3}
    def checks(f):
        b = f.replace("impl/", "")
        return sorted((p["id"] for p in props.PROPS if (f in p["files"] or b in p["files"]) and p["id"] != "C29"), key=lambda c: cost.get(c, 1))
    todo = [m for f in files for m in gen(f, per, seed)]
    if retry:
        sv = [d for d in map(json.loads, open(retry)) if d["res"] == "survived"]; files = sorted({d["file"] for d in sv}); keys = {(d["file"], d["line"], d["new"]) for d in sv}
        todo = [m for f in files for m in gen(f, per, seed) if (m[0], m[1], m[3]) in keys]
    done = set()
    if os.path.exists(outp):
        for l in open(outp): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    todo = [m for m in todo if (m[0], m[1], m[3]) not in done]
    if shuffle: todo.sort(key=lambda m: hashlib.md5(repr(m).encode("latin-1", "replace")).hexdigest())
    print(len(todo), "mutants", flush=True)
    q = queue.Queue()
    for i in range(slots):
        d = os.environ.get("MUT_DIR", "/tmp/mut") + "/%d" % i; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/libs/mathlib"); shutil.copytree("/repo/libs/testlib", d + "/libs/testlib"); shutil.copytree(INC, d + "/libs/mathlib/include")
        if gen is guarded:
            c = d + "/libs/mathlib/include/common.h"; t = open(c, encoding="latin-1", newline="").read(); k = t.rindex("MATHLIB_NS_END"); open(c, "w", encoding="latin-1", newline="").write(t[:k] + GUARD_CODE + t[k:])
        q.put(d)
    os.makedirs(os.environ.get("MUT_DIR", "/tmp/mut"), exist_ok=True)
    fo = open(outp, "a")
    def one(m):
        f, n, old, new = m; d = q.get()
        try:
            p = os.path.join(d, "libs/mathlib/include", f)
            src = open(os.path.join(INC, f), encoding="latin-1", newline="").read()
            lines = src.split("\n"); cr = "\r" if lines[n - 1].endswith("\r") else ""; lines[n - 1] = new + cr
            open(p, "w", encoding="latin-1", newline="").write("\n".join(lines))
            res, by = "survived", None
            env = dict(os.environ, MATHLIB_REPO=d, MC_BUILD=d + "/build", MC_EVIDENCE=d + "/ev", MC_CHILD="1")
            for c in checks(f):
                try: r = subprocess.run([os.path.join(HERE, "check.py"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, text=True, errors="replace")
                except subprocess.TimeoutExpired: res, by = "killed", c + "(timeout)"; break
                if r.returncode == 1: res, by = "killed", c; break
                if r.returncode == 2:
                    res, by = ("invalid" if "compilation failed" in r.stdout else "killed"), c; break
            open(p, "w", encoding="latin-1", newline="").write(src)
            fo.write(json.dumps(dict(file=f, line=n, old=old.strip(), new=new, res=res, by=by)) + "\n"); fo.flush()
        finally: q.put(d)
    with cf.ThreadPoolExecutor(max_workers=slots) as ex: list(ex.map(one, todo))
main()
