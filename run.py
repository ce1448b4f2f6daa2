#!/usr/bin/env python3
"""Run the generated-input check of one property.

  run.py C07 [--tier quick|thorough] [--replay FILE] [--only TestName]

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict.
"""
import argparse, base64, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import CHECKS, LEVEL  # noqa: E402


def goenv(extra=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", GOSUMDB="off",
             HOME=os.environ.get("HOME", "/root"))
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "") if os.path.isdir("/usr/local/go/bin") else e.get("PATH", "")
    e.update(extra or {})
    return e


INT_RE = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F_]+|[0-9][0-9_]*)(?![\w.])")
STR_RE = re.compile(r'"(?:[^"\\\n]|\\.)*"|`[^`]*`')
CHR_RE = re.compile(r"'(?:[^'\\\n]|\\.)'")


def make_dict(dirs, path):
    """Literals of the code under test, for the generators."""
    ints, strs = set(), set()
    for d in dirs:
        p = os.path.join(REPO, d)
        files = [p] if os.path.isfile(p) else [os.path.join(p, f) for f in sorted(os.listdir(p))] if os.path.isdir(p) else []
        for f in files:
            if not f.endswith(".go") or f.endswith("_test.go") or "mnemonic_words" in f:
                continue
            src = open(f, encoding="utf8", errors="replace").read()
            src = re.sub(r"//[^\n]*", "", src)
            for m in STR_RE.finditer(src):
                s = m.group(0)
                if s[0] == '"':
                    try:
                        s = json.loads(s)
                    except ValueError:
                        continue
                else:
                    s = s[1:-1]
                if 0 < len(s) <= 40:
                    strs.add(s)
            for m in CHR_RE.finditer(src):
                c = m.group(0)[1:-1]
                if len(c) == 1:
                    strs.add(c)
            nosrc = STR_RE.sub('""', src)
            for m in INT_RE.finditer(nosrc):
                try:
                    v = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    try:
                        v = int(m.group(1).replace("_", ""), 8)
                    except ValueError:
                        continue
                if v < 1 << 64:
                    ints.add(str(v))
    with open(path, "w") as fh:
        json.dump({"ints": sorted(ints, key=int), "strs": sorted(strs)}, fh)


class Err(Exception):
    pass


def fuzz_source(cfg, work, args, cwd, names):
    """The fuzz targets of the tests, as an overlay next to them."""
    d = os.path.join(cwd, cfg["pkg"])
    rep = {}
    if "-overlay" in args:
        i = args.index("-overlay")
        rep = json.load(open(args[i + 1]))["Replace"]
        args = args[:i] + args[i + 2:]
        tests = [f for f in rep if f.endswith("_test.go") and rep[f]]
        d = os.path.dirname(tests[0])
        src = open(rep[tests[0]]).read()
    else:
        src = open(os.path.join(d, sorted(f for f in os.listdir(d) if f.endswith("_test.go"))[0])).read()
    path, ov = os.path.join(work, "fuzz.go"), os.path.join(work, "overlay_fuzz.json")
    with open(path, "w") as fh:
        fh.write("package %s\nimport (\n\"testing\"\n\"flychain/rlp/zzverif/vh\"\n)\n" % re.search(r"(?m)^package (\w+)", src).group(1))
        for n in names:
            fh.write("func Fuzz%s(f *testing.F) { vh.Fuzz(f, %s) }\n" % (n[4:], n))
    rep[os.path.join(d, "zz_verif_fuzz_test.go")] = path
    with open(ov, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return ["-overlay", ov] + args


def build(cfg, work, fuzz=None):
    """Compile the test binary of the property from /repo's working tree."""
    out = os.path.join(work, "fuzz.test" if fuzz else "check.test")
    env = goenv()
    pre = cfg.get("prepare")
    if pre:
        args, cwd, envx = pre(work, REPO, VERIF, goenv)
        env.update(envx)
    else:
        args, cwd = ["./" + cfg["pkg"]], os.path.join(VERIF, "harness")
        if REPO != "/repo":  # development only: run against another tree
            mod = os.path.join(work, "go.mod")
            s = open(os.path.join(cwd, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(mod, "w").write(s)
            shutil.copy(os.path.join(cwd, "go.sum"), os.path.join(work, "go.sum"))
            args = ["-modfile=" + mod] + args
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if fuzz:  # instrumented for coverage instead
        cmd += ["-fuzz=."]
        args = fuzz_source(cfg, work, args, cwd, fuzz)
        if pre:  # only packages of a main module are instrumented
            args = [x for x in args if not x.startswith("-modfile=")]
            env["GOWORK"] = os.path.join(work, "go.work")
            with open(env["GOWORK"], "w") as fh:
                fh.write("go 1.25\nuse (\n%s\n%s\n)\n" % (cwd, REPO))
    elif cfg.get("race"):
        cmd.append("-race")
        env["CGO_ENABLED"] = "1"
    p = subprocess.run(cmd + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=780)
    if p.returncode != 0 or not os.path.exists(out):
        raise Err("build failed:\n" + p.stdout.decode(errors="replace")[-6000:])
    return out


def limits():
    os.setsid()


def run_test(binary, name, cfg, work, seed, tier, replay=None):
    d = os.path.join(work, "run-" + re.sub(r"\W", "_", name))
    os.makedirs(d, exist_ok=True)
    stats, journal = os.path.join(d, "stats.json"), os.path.join(d, "journal")
    s = int.from_bytes(hashlib.sha256(f"{seed}/{cfg['id']}/{name}".encode()).digest()[:7], "big") | 1
    quick = tier == "quick"
    limit = cfg.get("limit_q", 40) if quick else cfg.get("limit_t", 420)
    env = goenv({"VH_STATS": stats, "VH_JOURNAL": journal, "VH_DICT": os.path.join(work, "dict.json"),
                 "VH_LIMIT": str(limit), "VH_QMULT": str(cfg.get("qmult", 1)), "VH_MULT": str(cfg.get("mult", 40)), "VERIF_TIER": tier,
                 "VH_WORK": d, "GOTRACEBACK": "all", "GORACE": "halt_on_error=1 exitcode=66 atexit_sleep_ms=0",
                 "REPO": REPO, "GOMEMLIMIT": "3GiB", "TZ": "UTC"})
    env.update({k: v.replace("$VERIF", VERIF) for k, v in cfg.get("env", {}).items()})
    args = [binary, "-test.run", "^" + re.escape(name) + "$", "-test.timeout", "0", "-test.v",
            "-rapid.seed", str(s), "-rapid.shrinktime", cfg.get("shrink", "10s")]
    if replay:
        env["VH_REPLAY"] = "1"
        args += replay(d)
    t0 = time.time()
    log = open(os.path.join(d, "log"), "wb")
    p = subprocess.Popen(args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits)
    timed_out = False
    try:
        rc = p.wait(timeout=(limit + 200) if quick else (limit + 320))
    except subprocess.TimeoutExpired:
        timed_out = True
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    log.close()
    text = open(os.path.join(d, "log"), "rb").read().decode(errors="replace")
    st = []
    if os.path.exists(stats):
        st = [json.loads(l) for l in open(stats, encoding="utf8", errors="replace")]
    fail = None
    for root, _, fs in os.walk(os.path.join(d, "testdata")):
        for f in fs:
            if f.endswith(".fail"):
                fail = os.path.join(root, f)
    jr = open(journal, errors="replace").read() if os.path.exists(journal) else ""
    if timed_out:
        verdict = "timeout"
    elif rc == 0:
        verdict = "ok"
    elif rc == 77:
        verdict = "hang"
    elif rc == 66:
        verdict = "race"
    elif rc == 1:
        verdict = "inconclusive" if "VH-INCONCLUSIVE" in text else "fail"
    elif rc == 2 and ("panic:" in text or "fatal error:" in text) and "cannot allocate memory" not in text:
        verdict = "crash"
    else:
        verdict = f"exit {rc}"
    return dict(name=name, seed=s, rc=rc, verdict=verdict, log=text, stats=st, failfile=fail, journal=jr, wall=time.time() - t0)


GOSTR = re.compile(r'\[\]byte\("((?:[^"\\]|\\.)*)"\)', re.S)


def go_bytes(lit):
    """The bytes of a Go string literal's body, as fuzz corpus files quote them."""
    out, i = bytearray(), 0
    esc = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, '"': 34, "'": 39}
    while i < len(lit):
        c = lit[i]
        if c != "\\":
            out += c.encode()
            i += 1
        elif lit[i + 1] == "x":
            out.append(int(lit[i + 2:i + 4], 16))
            i += 4
        elif lit[i + 1] in "uU":
            k = 4 if lit[i + 1] == "u" else 8
            out += chr(int(lit[i + 2:i + 2 + k], 16)).encode()
            i += 2 + k
        elif lit[i + 1] in "01234567":
            out.append(int(lit[i + 1:i + 4], 8))
            i += 4
        else:
            out.append(esc[lit[i + 1]])
            i += 2
    return bytes(out)


def fuzz_test(fbinary, binary, name, cfg, work, seed, secs):
    """Coverage-guided search with the property of one test; a failing input is minimised and replayed."""
    d = os.path.join(work, "fuzz-" + name)
    os.makedirs(d, exist_ok=True)
    count, log = os.path.join(d, "count"), os.path.join(d, "log")
    env = goenv({"VH_FUZZED": count, "VH_DICT": os.path.join(work, "dict.json"), "VERIF_TIER": "thorough", "VH_WORK": d, "REPO": REPO,
                 "GOMEMLIMIT": "2GiB", "TZ": "UTC", "VERIF_SEED": str(seed)})
    env.update({k: v.replace("$VERIF", VERIF) for k, v in cfg.get("env", {}).items()})
    t0 = time.time()
    with open(log, "wb") as fh:
        p = subprocess.Popen([fbinary, "-test.fuzz", "^Fuzz%s$" % name[4:], "-test.run", "^$", "-test.fuzztime", "%ds" % secs, "-test.parallel", "4",
                              "-test.fuzzminimizetime", "0", "-test.fuzzcachedir", os.path.join(d, "cache")], cwd=d, env=env,
                             stdin=subprocess.DEVNULL, stdout=fh, stderr=subprocess.STDOUT, preexec_fn=limits)
        try:
            p.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    text = open(log, "rb").read().decode(errors="replace")
    m = re.findall(r"execs: (\d+) .*?new interesting: (\d+)", text)
    execs, new = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    n = os.path.getsize(count) if os.path.exists(count) else 0
    st = {"test": "Fuzz" + name[4:], "evaluations": execs, "distinct": min(n, new), "wall_s": time.time() - t0, "classes": {"non-trivial": n, "new coverage": new},
          "rule": "coverage-guided mutation of the words that the generators of %s draw from; counted: non-trivial by that test's rule, at most one per input that reached new coverage" % name,
          "samples": []}
    res = dict(name="Fuzz" + name[4:], seed=seed, rc=0, verdict="ok", log=text, stats=[st], failfile=None, journal="", wall=time.time() - t0)
    crash = os.path.join(d, "testdata", "fuzz", "Fuzz" + name[4:])
    for f in sorted(os.listdir(crash)) if os.path.isdir(crash) else []:
        lit = GOSTR.search(open(os.path.join(crash, f), encoding="utf8").read())
        if not lit:
            continue
        data = go_bytes(lit.group(1))
        raw = os.path.join(d, "input")
        open(raw, "wb").write(data)
        env.pop("VH_FUZZED")
        subprocess.run([binary, "-test.run", "^%s$" % name, "-test.timeout", "60s"], cwd=d, env=dict(env, VH_MIN=raw),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if not os.path.exists(raw + ".fail"):
            break
        r = run_test(binary, name, cfg, work, seed, "thorough", replay=lambda _: ["-rapid.failfile", raw + ".fail"])
        if r["verdict"] in ("fail", "crash", "hang", "race"):
            r.update(failfile=raw + ".fail", stats=[st])
            return r
        print("NOTE: an input that failed while fuzzing %s passes when replayed" % name)
        break
    return res


def interesting(log):
    """The part of a test log that describes the failure."""
    lines = [l for l in log.splitlines() if "[rapid] draw" not in l]
    for i, l in enumerate(lines):
        if "failed after" in l or "VH-HANG" in l or "DATA RACE" in l or "panic:" in l or "fatal error:" in l:
            lines = lines[max(0, i - 2):]
            break
    return "\n".join(lines)[:6000]


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path, encoding="utf8"):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check the toolchain; every check builds for itself")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        sys.exit(subprocess.run(["go", "list", "./vh"], cwd=os.path.join(VERIF, "harness"), env=goenv(), stdout=subprocess.DEVNULL).returncode)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = dict(CHECKS[a.id], id=a.id)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-" + a.id + "-")
    os.chmod(work, 0o755)
    try:
        if a.replay:
            seed = json.load(open(a.replay)).get("base_seed", seed)
        os.environ["VERIF_SEED"] = str(seed)  # for generated sources
        make_dict(cfg["src"], os.path.join(work, "dict.json"))
        binary = build(cfg, work)
        if a.replay:
            sys.exit(do_replay(a, cfg, binary, work))
        lst = subprocess.run([binary, "-test.list", "^Test"], cwd=work, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if lst.returncode != 0 and b"panic: " in lst.stderr:  # the code under test panics when it is initialised
            sys.exit(report(a, cfg, [dict(name="init", seed=seed, rc=lst.returncode, verdict="crash", log=lst.stderr.decode(errors="replace"),
                                          stats=[], failfile=None, journal="", wall=0)], seed, t0))
        names = lst.stdout.decode().split()
        if a.only:
            names = [n for n in names if n == a.only]
        if not names:
            raise Err("no tests in the harness package")
        results = []
        with ThreadPoolExecutor(max_workers=cfg.get("par", 8)) as ex:
            results = list(ex.map(lambda n: run_test(binary, n, cfg, work, seed, a.tier), names))
        fz = [n for n in names if n in cfg.get("fuzz", [])]
        if a.tier == "thorough" and fz and all(r["verdict"] == "ok" for r in results):
            fbin = build(cfg, work, fz)
            with ThreadPoolExecutor(max_workers=2) as ex:
                results += list(ex.map(lambda n: fuzz_test(fbin, binary, n, cfg, work, seed, cfg.get("fuzz_s", 60)), fz))
        sys.exit(report(a, cfg, results, seed, t0))
    except Err as e:
        print("ERROR:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout", e)
        sys.exit(2)
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def report(a, cfg, results, seed, t0):
    bad = [r for r in results if r["verdict"] in ("fail", "crash", "hang", "race")]
    err = [r for r in results if r["verdict"] not in ("ok", "fail", "crash", "hang", "race")]
    viol = []
    for r in bad:
        rd = os.path.join(VERIF, "replays", a.id)
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{r['name']}-{r['seed']:x}.json")
        ff = open(r["failfile"], encoding="utf8", errors="surrogateescape", newline="").read() if r["failfile"] else None
        json.dump({"property": a.id, "test": r["name"], "verdict": r["verdict"], "seed": r["seed"], "base_seed": seed, "tier": a.tier,
                   "rapid_failfile": ff, "last_case": r["journal"], "report": interesting(r["log"])}, open(path, "w", encoding="utf8"), indent=1)
        viol.append(path)
        print(f"--- {r['name']}: {r['verdict']} ---")
        print(interesting(r["log"])[:3000])
    stats = [s for r in results for s in r["stats"]]
    rules = sorted({f"{s['test']}: {s['rule']}" for s in stats if s.get("rule")})
    samples = [f"{s['test']}: {x}" for s in stats for x in (s.get("samples") or [])[:4]]
    ev = {
        "property": a.id, "tier": a.tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in stats),
            "distinct_nontrivial": sum(s["distinct"] for s in stats),
            "rule": " | ".join(rules) or "see samples",
            "samples": samples or ["(none recorded)"],
            "per_check": {s["test"]: {"evaluations": s["evaluations"], "distinct_nontrivial": s["distinct"],
                                      "classes": s.get("classes") or {}, "wall_s": round(s["wall_s"], 2)} for s in stats},
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w", encoding="utf8", errors="backslashreplace") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)
    for k in known_findings(a.id):
        print(f"KNOWN-FINDING: property={a.id} {k}")
    if viol:
        for p in viol:
            print(f"VIOLATION property={a.id} replay={p}")
        return 1
    if err:
        for r in err:
            print(f"ERROR: {r['name']}: {r['verdict']}\n{r['log'][-3000:]}")
        return 2
    c = ev["coverage"]
    print(f"OK property={a.id} tier={a.tier} seed={seed} evaluations={c['evaluations']} distinct_nontrivial={c['distinct_nontrivial']} wall={ev['wall_s']}s")
    return 0


def do_replay(a, cfg, binary, work):
    rp = json.load(open(a.replay, encoding="utf8"))
    if rp["test"] == "init":  # the binary already listed its tests
        return 0

    def args(d):
        if rp.get("rapid_failfile"):
            f = os.path.join(d, "replay.fail")
            open(f, "w", encoding="utf8", errors="surrogateescape", newline="").write(rp["rapid_failfile"])
            return ["-rapid.failfile", f]
        return ["-rapid.seed", str(rp["seed"])]
    r = run_test(binary, rp["test"], cfg, work, 1, rp.get("tier", "quick"), replay=args)
    print(interesting(r["log"]) if r["verdict"] != "ok" else "replay passes")
    if r["verdict"] in ("fail", "crash", "hang", "race"):
        print(f"VIOLATION property={a.id} replay={a.replay}")
        return 1
    return 0 if r["verdict"] == "ok" else 2


if __name__ == "__main__":
    main()
