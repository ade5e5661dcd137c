#!/usr/bin/env python3
"""mutate.py OUT.jsonl [FILE-PREFIX...]: small changes all over the source, run against the checks.

Works in copies of /repo and /verif below /tmp/sd/mt. A mutant that builds and passes the existing
tests is run against the checks of its file until one reports it; OUT lists the outcome of each."""
import json, os, re, shutil, signal, subprocess, sys
MT = os.environ.get("MT", "/tmp/sd/mt/a")
CHECKS = [
 ("src/color/", "C08 C09 C10 C26 C02"),
 ("src/image.rs", "C02 C01 C04 C05 C06 C07 C03"),
 ("src/swatch.rs", "C04 C03"),
 ("src/math/neighbors/", "C11 C12 C21"),
 ("src/math/clustering/dbscan", "C13 C14 C03"),
 ("src/math/clustering/kmeans", "C15 C16 C17"),
 ("src/math/clustering/hierarchical", "C19 C20 C24"),
 ("src/math/clustering/hdbscan", "C21"),
 ("src/math/graph", "C18 C24"),
 ("src/math/point.rs", "C23 C22 C26"),
 ("src/math/number.rs", "C25 C26 C10"),
 ("src/math/distance", "C22"),
]
SWAPS = [
 (r"(?<![<\-=])<(?![<=A-Za-z])", ["<=", ">"]), (r" <= ", [" < "]), (r" >= ", [" > "]),
 (r" > ", [" >= "]), (r" < ", [" <= ", " > "]),
 (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]),
 (r" / ", [" * "]), (r" % ", [" / "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
 (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"\.abs\(\)", [""]), (r"\.rev\(\)", [""]),
 (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.reverse\(\)", [""]), (r"!(?=[a-z])", [""]),
 (r"\.pop_front\(\)", [".pop_back()"]), (r"\.round\(\)", ["", ".floor()", ".ceil()"]),
 (r"\bmax_value\b", ["min_value"]), (r"\bmin_value\b", ["max_value"]), (r"\bleft\b", ["right"]),
 (r"\bright\b", ["left"]), (r"::one\(\)", ["::zero()"]), (r"::zero\(\)", ["::one()"]),
 (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"Less\b", ["Greater"]),
 (r"Greater\b", ["Less"]), (r"Equal\b", ["Less"]), (r"\bmin_by\b", ["max_by"]), (r"\bmax_by\b", ["min_by"]),
 (r"\.powi\(2\)", [".powi(4)", ""]), (r"\.sqrt\(\)", [""]), (r"\.\.=", [".."]), (r"unwrap_or\(Equal\)", ["unwrap_or(Less)"]),
 (r"\bx\b", ["y"]), (r"\by\b", ["x"]), (r"\bu\b", ["v"]), (r"\bv\b", ["u"]), (r"\ba\b", ["b"]), (r"\bb\b", ["a"]),
 (r"\bl\b", ["a"]), (r"\br\b", ["g"]), (r"\bg\b", ["b"]), (r"\bz\b", ["x"]), (r"index1\b", ["index2"]),
 (r"swap_remove\(", ["remove("]), (r"\bwidth", ["height"]), (r"\bheight", ["width"]),
 (r"\.insert\(", [".remove(&"]), (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]), (r"F::epsilon\(\)", ["F::zero()"]),
]
def mutants(path):
    lines = open(path).read().split("\n")
    for n, line in enumerate(lines):
        if line.strip().startswith("#[cfg(test)]"):
            break
        s = line.strip()
        if not s or s.startswith(("//", "#", "use ", "}", "impl", "where", "mod ", "pub mod", "pub struct", "pub enum")):
            continue
        code = line.split("//")[0]
        seen = set()
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    new = code[:m.start()] + r + code[m.end():]
                    if new not in seen:
                        seen.add(new); yield n, line, new
        for m in re.finditer(r"(?<![\w.])(\d+(?:\.\d+)?)(?![\w])", code):
            v = m.group(1)
            for r in ([repr(float(v) * 1.001), repr(float(v) * 0.98 + 0.001)] if "." in v else [str(int(v) + 1)] + ([str(int(v) - 1)] if int(v) else [])):
                new = code[:m.start()] + r + code[m.end():]
                if new not in seen:
                    seen.add(new); yield n, line, new
        if s.endswith(";") and not s.startswith(("let ", "return", "type", "const", "fn", "static")):
            yield n, line, ""
        if s.startswith("if ") and s.endswith("{"):
            yield n, line, re.sub(r"if .* \{$", "if true {", line)
            yield n, line, re.sub(r"if .* \{$", "if false {", line)
def sh(cmd, cwd, t=900):
    # A mutant that hangs is ended together with its children.
    k = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, e = k.communicate(timeout=t)
        return subprocess.CompletedProcess(cmd, k.returncode, o, e)
    except subprocess.TimeoutExpired:
        os.killpg(k.pid, signal.SIGKILL)
        k.communicate()
        return subprocess.CompletedProcess(cmd, 124, "", "")
def main():
    out = sys.argv[1]; pre = sys.argv[2:] or ["src/"]
    repo, ver = MT + "/repo", MT + "/verif"
    if not os.path.isdir(repo):
        os.makedirs(MT)
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree("/verif", ver, symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git"))
        for f in ("harness/Cargo.toml", "run.sh"):
            p = f"{ver}/{f}"; s = open(p).read().replace("/repo", repo); open(p, "w").write(s)
        # Smaller budgets: try survivors again with the real ones.
        p = f"{ver}/harness/src/driver.rs"; s = open(p).read()
        assert "p.cases(tier);" in s
        open(p, "w").write(s.replace("p.cases(tier);", "p.cases(tier) / 15;"))
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(out))}
    files = []
    for r, _, fs in os.walk(repo + "/src"):
        files += [os.path.relpath(os.path.join(r, f), repo) for f in fs if f.endswith(".rs") and "verif_hooks" not in f]
    for f in sorted(files):
        if not any(f.startswith(p) for p in pre): continue
        checks = next((c for k, c in CHECKS if f.startswith(k)), None)
        if not checks: continue
        p = repo + "/" + f
        original = open(p).read()
        for n, old, new in list(mutants(p)):
            if (f, n + 1, new.strip()) in done: continue
            lines = original.split("\n"); lines[n] = new
            open(p, "w").write("\n".join(lines))
            r = sh("cargo test --offline 2>&1 | grep -E '^error|test result|FAILED|failed'", repo, 120)
            o = None
            if "could not compile" in r.stdout or "error[" in r.stdout or r.stdout.startswith("error: "): o = "build"
            elif r.returncode == 124 or "FAILED" in r.stdout or r.stdout.count("test result: ok") < 3: o = "tests"
            else:
                o = "SURVIVED"
                for c in checks.split():
                    k = sh(f"VERIF_SEED=1 VERIF_TIER=quick ./run.sh {c}", ver)
                    if k.returncode == 1 and "VIOLATION" in k.stdout: o = c; break
                    if k.returncode != 0: o = f"ERROR {c} {k.returncode} " + (k.stdout + k.stderr)[-300:]; break
            open(p, "w").write(original)
            open(out, "a").write(json.dumps(dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), outcome=o)) + "\n")
            if o not in ("build", "tests"): print(f, n + 1, old.strip(), "=>", new.strip(), "::", o, flush=True)
main()
