#!/usr/bin/env python3
"""Mutation sweep over the code under test, in scratch copies (never in /repo).

  mutate.py list [FILE...]            how many mutants
  mutate.py run OUT.jsonl WORKERS SHARD/OF [FILE...]

Each mutant is one small textual change to a non-test line.  It is built with the harness; every
record/replay job of the quick plans that concern the file is executed and its trace compared with
the trace of the unchanged code.  A trace that differs is given to TLC, per property.  A mutant is
'killed' by the first refused trace, 'differs' when traces differ but are all accepted, 'same' when
no trace differs.  Survivors are run against the repository's own tests and printed.
"""
import concurrent.futures as cf, hashlib, importlib.machinery, importlib.util, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("MUTROOT", "/tmp/mut")
ld = importlib.machinery.SourceFileLoader("chk", os.path.join(VERIF, "bin", "check"))
chk = importlib.util.module_from_spec(importlib.util.spec_from_loader("chk", ld))
ld.exec_module(chk)
PLANS = chk.PLANS
chk.left = lambda: 400

WIN = ["C%02d" % i for i in range(1, 13)]
VAL = ["C%02d" % i for i in range(13, 19)]
GR = ["C%02d" % i for i in range(19, 25)] + ["C30"]
AG = ["C25", "C26", "C27", "C30"]


def props_for(f):
    if "graph/scheduler" in f:
        return AG
    if "graph/" in f:
        return GR + AG
    if "seq/" in f:
        return ["C18"]
    if "format" in f:
        return ["C28", "C30"]
    if "iter/" in f:
        return ["C05", "C31"] + WIN
    if "timevalue" in f or "timestamp" in f:
        return VAL + ["C28", "C12"] + WIN
    if "convert" in f:
        return ["C16", "C17"] + WIN
    return WIN + ["C31", "C28"]


SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" \+= ", " -= "), (r" -= ", " += "),
         (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"lower_bound\(\)", "upper_bound()"), (r"upper_bound\(\)", "lower_bound()"),
         (r"\.lower\b", ".upper"), (r"\.upper\b", ".lower"), (r"just_after", "just_before"), (r"just_before", "just_after"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bfirst\b", "last"), (r"\blast\b", "first"), (r"\.rev\(\)", ""),
         (r"\.\.=", ".."), (r"(?<![.=])\.\.(?![=.])", "..="), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\bMIN\b", "MAX"), (r"\bMAX\b", "MIN"),
         (r"Greater", "Less"), (r"Less", "Greater"), (r"!(?=[a-z(])", ""), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"),
         (r"is_lower_bounded", "is_upper_bounded"), (r"is_upper_bounded", "is_lower_bounded"), (r"\bany\(", "all("), (r"\ball\(", "any("),
         (r"saturating_", "wrapping_"), (r" if .*? =>", " =>"), (r"\bif (?!let)([^{]*?) \{", "if true {"), (r"\bif (?!let)([^{]*?) \{", "if false {"),
         (r"\bwhile (?!let)([^{]*?) \{", "while false {"), (r"Some\((\w+)\)(?=[,; })])", "None"), (r"\bOk\(true\)", "Ok(false)"), (r"-(?=[a-z(])", ""),
         (r"\.abs\(\)", ""), (r"unsigned_abs\(\)", "unsigned_abs()+1"), (r"div_euclid", "wrapping_div"), (r"rem_euclid", "wrapping_rem"), (r"TimeValue::default\(\)", "TimeValue::INFINITE"),
         (r"Propagation::(Stable|Propagated)", None), (r"\bchecked_(\w+)", None), (r"nth\(", None)]


def code_lines(path):
    """line numbers of code outside tests and comments"""
    out, intest, block = [], False, False
    for i, s in enumerate(open(path)):
        if "#[cfg(test)]" in s or re.match(r"\s*mod tests?\b", s):
            intest = True
        t = s.strip()
        if t.startswith("/*") and "*/" not in t:
            block = True
        if block:
            block = "*/" not in t
            continue
        if intest or not t or t.startswith(("//", "#[", "use ", "pub use", "mod ", "*", "/*")):
            continue
        out.append((i, s.rstrip("\n")))
    return out


def mutants(files):
    res = []
    for f in files:
        seen = set()
        for i, s in code_lines(f):
            body = s.split("//")[0]
            if re.match(r"\s*(pub )?(unsafe )?(fn|impl|struct|enum|trait|where|type)\b", body) and "{ " not in body:
                continue
            for pat, rep in SWAPS:
                if rep is None:
                    continue
                for m in re.finditer(pat, body):
                    new = body[:m.start()] + m.expand(rep) + body[m.end():]
                    if (i, new) not in seen and new != body:
                        seen.add((i, new)); res.append((f, i, s, new))
            if re.match(r"\s+[^=]*[^=!<>]=[^=].*;\s*$", body) and "let " not in body and "return" not in body or re.match(r"\s+[a-z_.]+\([^;]*\);\s*$", body):
                new = re.match(r"\s*", body).group(0) + ";"
                if (i, new) not in seen:
                    seen.add((i, new)); res.append((f, i, s, new))
            if re.match(r"\s+return\b.*;\s*$", body):
                new = re.match(r"\s*", body).group(0) + "// dropped"
                if (i, new) not in seen:
                    seen.add((i, new)); res.append((f, i, s, new))
    return res


def all_files():
    out = subprocess.check_output(["git", "-C", "/repo", "ls-files", "src"], text=True).split()
    return ["/repo/" + f for f in out if f.endswith(".rs")]


def job_key(j):
    return json.dumps([j["kind"], j.get("gen"), j["args"], j.get("seed", 0), j.get("variant", {})], sort_keys=True)


def jobs_for(props):
    """distinct harness runs, each with the (prop, job) pairs which judge it"""
    d = {}
    for p in props:
        for j in PLANS[p]("quick"):
            if j["kind"] in ("design", "proof") or j.get("variant", {}).get("serde"):
                continue
            d.setdefault(job_key(j), []).append((p, j))
    return d


def digest(path):
    h = hashlib.sha1()
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()


genlock = threading.Lock()


def gen_input(j):
    if "gen" not in j:
        return None
    g = j["gen"]
    k = hashlib.sha1(json.dumps(g, sort_keys=True).encode()).hexdigest()[:16]
    p = os.path.join(ROOT, "gen", k)
    with genlock:
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            rc, out = chk.tlc(g["module"], g["cfg"], g.get("env", {}), ROOT, workers=1)
            with open(p + ".t", "w") as f:
                f.write("\n".join(s for s in out.splitlines() if s.startswith('"<<\\"T\\"')) + "\n")
            os.rename(p + ".t", p)
    return p


class Stat:
    pass


def stats():
    return dict(lock=threading.Lock(), trace_states=0, design_states=0, transitions=0, design_transitions=0,
                gen_transitions=0, traces=0, events=0, forms=0, samples=[], design=[], times={})


def kit(w):
    d = os.path.join(ROOT, "w%s" % w)
    if os.path.isdir(d):
        subprocess.check_call(["cp", "-r", ROOT + "/orig/src", d + "/repo/"])
    else:
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", ROOT + "/orig", d + "/repo"])
        os.makedirs(d + "/harness")
        for x in ("src", "Cargo.toml", "Cargo.lock"):
            subprocess.check_call(["cp", "-a", os.path.join(VERIF, "harness", x), d + "/harness/"])
        p = d + "/harness/Cargo.toml"
        s = open(p).read().replace('"/repo"', '"%s/repo"' % d)
        open(p, "w").write(s)
    return d


def build(d):
    env = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_TERM_COLOR="never")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "-j", "2", "--manifest-path", d + "/harness/Cargo.toml", "--target-dir", d + "/ht"],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0


def record(exe, d, p, j):
    out = os.path.join(d, "trace.ndjson")
    for suf in ("", ".side", ".journal"):
        if os.path.exists(out + suf):
            os.remove(out + suf)
    try:
        st = chk.run_harness(exe, p, j, j["args"], out, gen_input(j))
    except chk.Violation as v:
        return None, "violation: " + v.what, out
    except chk.MachineryError as e:
        return None, "error: " + str(e)[:200], out
    return st, digest(out), out


def baseline(d, keys):
    path = os.path.join(ROOT, "baseline.json")
    base = json.load(open(path)) if os.path.exists(path) else {}
    todo = [k for k in keys if k not in base]
    if todo:
        assert build(d)
        for k in todo:
            p, j = keys[k][0]
            st, h, out = record(d + "/ht/debug/harness", d, p, j)
            assert st, (j["name"], h)
            base[k] = h
        json.dump(base, open(path, "w"))
    return base


def own_tests(d):
    env = dict(os.environ, RUSTFLAGS="-Awarnings")
    try:
        r = subprocess.run(["cargo", "test", "--offline", "--quiet", "--lib", "--tests", "--manifest-path", d + "/repo/Cargo.toml", "--target-dir", d + "/rt"],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def try_mutant(w, m, keys, base):
    f, i, old, new = m
    orig = f.replace("/repo", ROOT + "/orig", 1)
    d = os.path.join(ROOT, "w%s" % w)
    target = f.replace("/repo", d + "/repo", 1)
    lines = open(orig).read().split("\n")
    assert lines[i] == old
    lines[i] = new
    open(target, "w").write("\n".join(lines))
    t0 = time.time()
    try:
        if not build(d):
            return dict(r="nobuild")
        exe = d + "/ht/debug/harness"
        differs = []
        for k in keys:
            p, j = keys[k][0]
            st, h, out = record(exe, d, p, j)
            if h == base[k]:
                continue
            if st is None:
                if h.startswith("violation"):
                    return dict(r="killed", by=p, job=j["name"], how=h)
                differs.append([p, j["name"], h])
                continue
            for p, jj in keys[k]:
                try:
                    chk.check_trace(p, jj, jj["trace"], out, st, d, stats(), 2)
                    differs.append([p, jj["name"], "accepted"])
                except chk.Violation:
                    return dict(r="killed", by=p, job=jj["name"])
                except chk.MachineryError as e:
                    differs.append([p, jj["name"], str(e)[:300]])
        own = own_tests(d)
        return dict(r="differs" if differs else "same", own=own, d=differs[:12])
    finally:
        open(target, "w").write(open(orig).read())


def main():
    files = [a for a in sys.argv[1:] if a.endswith(".rs")]
    files = [os.path.join("/repo/src", f) for f in files] or all_files()
    ms = mutants(files)
    if sys.argv[1] == "list":
        from collections import Counter
        for k, v in sorted(Counter(m[0] for m in ms).items()):
            print(v, k)
        print(len(ms))
        return
    out, workers = sys.argv[2], int(sys.argv[3])
    sh, of = map(int, sys.argv[4].split("/"))
    random.Random(7).shuffle(ms)
    ms = [m for n, m in enumerate(ms) if n % of == sh]
    done = set()
    if os.path.exists(out):
        for s in open(out):
            x = json.loads(s); done.add((x["f"], x["i"], x["new"]))
    ms = [m for m in ms if (m[0], m[1], m[3]) not in done]
    os.makedirs(ROOT, exist_ok=True)
    if not os.path.isdir(ROOT + "/orig"):
        subprocess.check_call(["cp", "-a", "/repo", ROOT + "/orig"])
    for w in range(workers):
        kit(w)
    allk = {}
    for f in {m[0] for m in ms}:
        allk.update(jobs_for(props_for(f)))
    base = baseline(os.path.join(ROOT, "w0"), allk)
    print(len(ms), "mutants", flush=True)
    lock = threading.Lock()
    free = list(range(workers))

    def one(m):
        with lock:
            w = free.pop()
        t0 = time.time()
        try:
            r = try_mutant(w, m, jobs_for(props_for(m[0])), base)
        except Exception as e:  # noqa: BLE001
            r = dict(r="crash", e=repr(e)[:300])
        finally:
            with lock:
                free.append(w)
        with lock:
            with open(out, "a") as g:
                g.write(json.dumps(dict(f=m[0], i=m[1], old=m[2], new=m[3], t=round(time.time() - t0, 1), **r)) + "\n")
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, ms))


main()
