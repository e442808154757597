#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

    run.py C01 [--tier quick|thorough] [--seed N]     run the check
    run.py C01 --replay FILE                          replay a recorded failure

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.
Exit 2: the check itself could not run.
"""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(EVID, "replay")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

GXX, CLANG = "g++", "clang++"
BASE = ["-std=c++20", "-I" + INC, "-I" + HARNESS, "-w"]


class Broken(Exception):
    """The tested tree breaks the property (message, replay path)."""

    def __init__(self, message, replay):
        super().__init__(message)
        self.message, self.replay = message, replay


class Inconclusive(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def literals(path):
    """Dictionary for the generators: the literals which appear in the tested sources."""
    ints, reals = set(), set()
    for p in sorted(glob.glob(INC + "/**/*.hpp", recursive=True)):
        text = open(p, errors="replace").read()
        text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+|\d[\d']*)", text):
            t = m.group(1).replace("'", "")
            try:
                if t[:2].lower() == "0x":
                    ints.add(int(t, 16))
                elif re.fullmatch(r"\d+", t):
                    ints.add(int(t, 10))
                else:
                    reals.add(float(t))
            except ValueError:
                pass
    with open(path, "w") as f:
        for v in sorted(x for x in ints if 0 <= x < 2**64):
            f.write("i %d\n" % v)
        for v in sorted(reals):
            f.write("r %.17g\n" % v)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.bd = os.path.join(HERE, "build", pid)
        shutil.rmtree(self.bd, ignore_errors=True)
        os.makedirs(self.bd)
        os.makedirs(REPLAY, exist_ok=True)
        self.dict = os.path.join(self.bd, "literals.txt")
        literals(self.dict)
        self.parts = []
        self.base, self.harness, self.replay_dir, self.sh = BASE, HARNESS, REPLAY, sh
        self.Broken, self.Inconclusive = Broken, Inconclusive

    # -- building ---------------------------------------------------------------------------------
    def compile_many(self, jobs):
        """jobs: [(output, command)], run in parallel."""
        with ThreadPoolExecutor(max_workers=8) as ex:
            for (out, cmd), r in zip(jobs, ex.map(lambda j: sh(j[1]), jobs)):
                if r.returncode != 0:
                    self.compile_error(cmd, r.stdout)

    def compile_error(self, cmd, log):
        smoke = os.path.join(self.bd, "smoke.cpp")
        open(smoke, "w").write("#include <version>\nint main(){return 0;}\n")
        if sh([cmd[0], "-std=c++20", smoke, "-o", smoke + ".bin"]).returncode != 0:
            raise Inconclusive("the compiler does not work:\n" + log[-2000:])
        rp = os.path.join(REPLAY, self.pid + "-compile.txt")
        with open(rp, "w") as f:
            f.write("property: %s\nThe interface this property is stated over does not compile against the tested tree.\ncommand: %s\n\n%s" % (self.pid, " ".join(cmd), log[:20000]))
        errs = [l for l in log.splitlines() if "error" in l]
        raise Broken("the checked interface does not compile: " + (errs[0] if errs else "?"), rp)

    def binary(self, name, sources, cxx=GXX, flags=("-O2",), libs=()):
        objs, jobs = [], []
        if self.thorough:
            flags = list(flags) + ["-DTHOROUGH"]
        for k, s in enumerate(sources):
            s, extra = s if isinstance(s, tuple) else (s, ())
            src = s if os.path.isabs(s) else os.path.join(HARNESS, s)
            o = os.path.join(self.bd, "%s-%d-%s.o" % (name, k, os.path.basename(s)))
            objs.append(o)
            jobs.append((o, [cxx] + BASE + list(flags) + list(extra) + ["-c", src, "-o", o]))
        self.compile_many(jobs)
        out = os.path.join(self.bd, name)
        cmd = [cxx] + list(flags) + objs + ["-o", out] + list(libs)
        r = sh(cmd)
        if r.returncode != 0:
            self.compile_error(cmd, r.stdout)
        return out

    # -- running ----------------------------------------------------------------------------------
    def run_pbt(self, binary, tag="pbt", env=None, args=()):
        out = os.path.join(self.bd, tag + ".json")
        rp = os.path.join(REPLAY, "%s-%s.txt" % (self.pid, tag))
        if os.path.exists(rp):
            os.remove(rp)
        cmd = [binary, "--property", self.pid, "--seed", str(self.seed), "--tier", self.tier, "--out", out,
               "--replay-out", rp, "--dict", self.dict, "--deadline", "3000" if self.thorough else "400"] + list(args) + os.environ.get("VERIF_PBT_ARGS", "").split()
        r = sh(cmd, env=dict(os.environ, **(env or {})))
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1):
            raise Inconclusive("%s exited with %d" % (binary, r.returncode))
        part = json.load(open(out))
        part["tag"] = tag
        self.parts.append(part)
        if r.returncode == 1:
            fl = part.get("failure", {})
            raise Broken("%s: %s -- %s" % (fl.get("sub"), fl.get("case"), fl.get("message")), rp)
        return part


    def run_fuzz(self, binary, seeds, runs, max_len, rule, jobs=8, max_time=0):
        """Coverage-guided search with libFuzzer: `jobs` independent searches from a fresh corpus."""
        def one(j):
            d = os.path.join(self.bd, "fuzz%d" % j)
            corpus = os.path.join(d, "corpus")
            os.makedirs(corpus)
            for i, t in enumerate(seeds):
                open(os.path.join(corpus, "s%d" % i), "wb").write(t)
            cmd = [binary, corpus, "-runs=%d" % runs, "-seed=%d" % (self.seed * 64 + j + 1), "-max_len=%d" % max_len, "-artifact_prefix=" + d + "/", "-print_final_stats=1", "-timeout=60", "-rss_limit_mb=4096", "-detect_leaks=0", "-verbosity=0"]
            if max_time:
                cmd.append("-max_total_time=%d" % max_time)
            r = sh(cmd)
            arts = sorted(x for x in os.listdir(d) if re.match(r"(crash|timeout|oom)-", x))
            m = re.search(r"number_of_executed_units:\s*(\d+)", r.stdout)
            return r, [os.path.join(d, a) for a in arts], int(m.group(1)) if m else 0, len(os.listdir(corpus)), corpus
        with ThreadPoolExecutor(max_workers=jobs) as ex:
            res = list(ex.map(one, range(jobs)))
        execs = sum(x[2] for x in res)
        corpus_files = []
        for x in res:
            corpus_files += [os.path.join(x[4], f) for f in os.listdir(x[4])]
        distinct = set(open(f, "rb").read() for f in corpus_files)
        part = {"tag": "fuzz", "evaluations": execs, "nontrivial": len(distinct), "distinct_nontrivial": len(distinct), "rule": rule,
                "samples": [repr(t)[:200] for t in sorted(distinct, key=lambda t: hash_bytes(t))[:6]],
                "subs": [{"name": "libFuzzer", "cases": execs, "labels": {"inputs reaching new coverage": len(distinct), "independent searches": jobs}}]}
        self.parts.append(part)
        for r, arts, _, _, _ in res:
            if r.returncode == 0:
                continue
            if not arts:
                raise Inconclusive("the fuzz target exited with %d and left no input:\n%s" % (r.returncode, r.stdout[-2000:]))
            art = arts[0]
            if os.path.basename(art).startswith(("timeout-", "oom-")):
                fails = 3 if sh([binary, art, "-timeout=60", "-rss_limit_mb=4096"]).returncode else 0
            else:
                fails = sum(sh([binary, art]).returncode != 0 for _ in range(3))
                small = os.path.join(self.bd, "minimised")
                sh([binary, "-minimize_crash=1", "-runs=20000", "-max_total_time=20", "-exact_artifact_path=" + small, art])
                if os.path.exists(small) and sh([binary, small]).returncode != 0:
                    art = small
            if fails < 3:
                print("NOTE: a fuzz input failed once and could not be reproduced; not reported")
                continue
            rp = os.path.join(REPLAY, self.pid + "-fuzz.bin")
            shutil.copyfile(art, rp)
            log = sh([binary, rp]).stdout
            m = re.search(r"FUZZ-MISMATCH: .*|.*runtime error: .*|.*ERROR: .*", log)
            part["failure"] = {"sub": "libFuzzer", "case": repr(open(rp, "rb").read())[:2000], "message": m.group(0) if m else "?"}
            print("FAIL fuzz\n  case: %s\n  %s" % (part["failure"]["case"], part["failure"]["message"]))
            raise Broken("libFuzzer: " + part["failure"]["message"], rp)
        return part


def hash_bytes(t):
    import hashlib
    return hashlib.sha256(t).digest()


def evidence(ctx, meta, wall, violations):
    ev = sum(p["evaluations"] for p in ctx.parts)
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in ctx.parts),
        "nontrivial": sum(p.get("nontrivial", 0) for p in ctx.parts),
        "discarded": sum(p.get("discarded", 0) for p in ctx.parts),
        "rule": " | ".join(dict.fromkeys(p["rule"] for p in ctx.parts if p.get("rule"))),
        "samples": [s for p in ctx.parts for s in p.get("samples", [])][:40],
        "sub_properties": [dict(s, step=p["tag"]) for p in ctx.parts for s in p.get("subs", [])],
        "oracle": meta["oracle"],
        "counting": "distinct_nontrivial counts the distinct bits set in a 2^28-bit table indexed by a hash of the inputs of every non-trivial case, a lower bound of the number of distinct non-trivial cases",
    }
    for p in ctx.parts:
        cov.update(p.get("extra", {}))
    fails = [p["failure"] for p in ctx.parts if p.get("failure")]
    if fails:
        cov["failure"] = fails[0]
    doc = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration", "coverage": cov,
           "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ctx.pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(EVID, ctx.pid + ".json"))


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def selftest():
    """setup_cmd: the tools are there, and the engine finds, shrinks and replays planted failures."""
    for t in ("g++", "clang++"):
        if shutil.which(t) is None:
            print("missing tool: " + t)
            return 2
    ctx = Ctx("selftest", "quick", 1)
    try:
        b = ctx.binary("selftest", ["selftest.cpp"])
        for only, want in (("holds", 0), ("wrong", 1), ("crash", 1)):
            rp, out = os.path.join(ctx.bd, only + ".txt"), os.path.join(ctx.bd, only + ".json")
            r = sh([b, "--only", only, "--out", out, "--replay-out", rp])
            ok = r.returncode == want
            if want:
                ok = ok and " 777" in open(rp).read() and sh([b, "--replay", rp]).returncode == 1
            if not ok:
                print("selftest %s failed: %s" % (only, r.stdout))
                return 2
    finally:
        shutil.rmtree(ctx.bd, ignore_errors=True)
    print("selftest ok")
    return 0


def main():
    pid = sys.argv[1]
    if pid == "--selftest":
        return selftest()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    a = sys.argv[2:]
    while a:
        k = a.pop(0)
        if k == "--tier":
            tier = a.pop(0)
        elif k == "--seed":
            seed = int(a.pop(0))
        elif k == "--replay":
            replay = os.path.abspath(a.pop(0))
    meta = CHECKS[pid]
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if replay:
        if b"\ntier: thorough" in open(replay, "rb").read(4096):
            ctx.thorough = True
        if "replay" in meta:
            r = meta["replay"](ctx, replay)
            if r is not None:
                return r
        b = meta["build"](ctx)
        return sh_passthrough([b, "--replay", replay, "--dict", ctx.dict])
    try:
        meta["run"](ctx)
    except Broken as e:
        if not ctx.parts:
            ctx.parts.append({"tag": "build", "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [e.message]})
        evidence(ctx, meta, time.time() - t0, 1)
        print(e.message)
        print("VIOLATION property=%s replay=%s" % (pid, e.replay))
        return 1
    except Inconclusive as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        shutil.rmtree(ctx.bd, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
    evidence(ctx, meta, time.time() - t0, 0)
    print("OK property=%s tier=%s seed=%d evaluations=%d wall=%.1fs" % (pid, tier, seed, sum(p["evaluations"] for p in ctx.parts), time.time() - t0))
    return 0


def sh_passthrough(cmd):
    return subprocess.run(cmd).returncode


if __name__ == "__main__":
    sys.exit(main())
