#!/usr/bin/env python3
"""Mutation campaign: how many small changes of t8code do the checks notice?

  mutate.py CLONE BUILD OUT.jsonl N SEED FILE...      (CLONE: a scratch clone of /repo, outside /repo and /verif)

Applies N randomly drawn one-token changes to each FILE (relative to CLONE), one at a time, builds the simulator
incrementally and runs the bodies of all properties for a few seconds each until one notices.  Survivors are listed
for inspection (many are equivalent).  Not part of any check."""
import json, os, random, re, subprocess, sys, time
clone, build, out, n, seed = sys.argv[1:6]
files = sys.argv[6:]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = list(json.load(open(HERE + "/checks.json"))["properties"])
kills = {}
SEC = float(os.environ.get("SEC", "3"))
RULES = [
    (r"(?<![<\-=>])<(?![<=])(?= )", ["<=", ">"]), (r"(?<![>\-])>(?![>=])(?= )", [">=", "<"]), (r"<=", ["<"]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r"(?<=[ (])!(?=[\w(])", [""]),
    (r" \+ (?=\w)", [" - "]), (r" - (?=\w)", [" + "]), (r" \+= ", [" -= ", " = "]), (r" % ", [" / "]),
    (r"(?<=[ (\[])0(?=[;,)\] ])", ["1"]), (r"(?<=[ (\[])1(?=[;,)\] ])", ["0"]),
]
SKIP = re.compile(r"T8_ASSERT|SC_CHECK|SC_ABORT|debugf|t8_global_|productionf|essentialf|errorf|infof|profile|^\s*#|statistics|assert|^\s*(const )?[\w:<>]+ \*?\w+ \(.*,$|static_assert|template")
def points(path):
    txt = open(path).read().split("\n")
    incom = False; res = []; dbg = 0
    for i, l in enumerate(txt):
        if re.match(r"#\s*if", l) and (dbg or "T8_ENABLE_DEBUG" in l or "CAD" in l or "VTK" in l): dbg += 1
        elif re.match(r"#\s*endif", l) and dbg: dbg -= 1
        if dbg: continue
        code = l
        if incom:
            if "*/" in l: code = l.split("*/", 1)[1]; incom = False
            else: continue
        code2 = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group()), code)
        if "/*" in code2: code2 = code2.split("/*")[0]; incom = True
        code2 = code2.split("//")[0]
        if not l.startswith("  ") or SKIP.search(l) or '"' in code2: continue
        off = len(l) - len(code) if code is not l else 0
        for pat, reps in RULES:
            for m in re.finditer(pat, code2):
                for r in reps:
                    res.append((i, off + m.start(), off + m.end(), r))
        s = code2.strip()
        if re.match(r"^[\w>\-.\[\]()* ]+(=|\+=|\+\+|--|\|=).*;$", s) and not re.match(r"^(const|int|auto|t8_\w+|double|size_t|char|bool|void|std)\b.*\w =", s): res.append((i, None, None, "del"))
        elif re.match(r"^\w+ ?\(.*\);$", s): res.append((i, None, None, "del"))
        elif s in ("break;", "continue;"): res.append((i, None, None, "del"))
    return txt, res
rng = random.Random(int(seed))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
for f in files:
    path = os.path.join(clone, f)
    txt, pts = points(path)
    # the same line at most a few times
    rng.shuffle(pts)
    done = 0
    for (i, a, b, r) in pts:
        if done >= int(n): break
        new = list(txt)
        new[i] = re.match(r"^\s*", txt[i]).group() + ";" if a is None else txt[i][:a] + r + txt[i][b:]
        open(path, "w").write("\n".join(new))
        t0 = time.time()
        e = dict(os.environ, VERIF_REPO=clone, VERIF_BUILD=build)
        p = sh("python3 %s/build.py rel" % HERE, env=e)
        rec = {"file": f, "line": i + 1, "old": txt[i].strip(), "new": new[i].strip()}
        if p.returncode: open(path, "w").write("\n".join(txt)); continue
        done += 1
        order = sorted(props, key=lambda q: -kills.get((f, q), 0))
        rec["killed"] = None
        for q in order:
            try:
                p = sh("%s/rel/simt8 search --prop %s --seed 3 --runs 100000 --time %g --jobs 8 --dir /tmp/mut --json /tmp/mut/o.json --replay /tmp/mut/r.txt --shrink 0" % (build, q, SEC), timeout=60)
                rc = p.returncode
            except subprocess.TimeoutExpired: rc = 99
            if rc:
                rec["killed"] = q
                rec["how"] = (p.stdout.strip().split("\n") or [""])[0][:200] if rc != 99 else "timeout"
                kills[(f, q)] = kills.get((f, q), 0) + 1
                break
        rec["s"] = round(time.time() - t0, 1)
        open(out, "a").write(json.dumps(rec) + "\n")
        print(("%s:%d  [%s] -> [%s]  %s" % (f.split("/")[-1], i + 1, rec["old"][:90], rec["new"][:90], rec["killed"] or "SURVIVED")), flush=True)
    open(path, "w").write("\n".join(txt))
