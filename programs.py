"""C34: generated programs of constant expressions, compiled and run; compile time against run time."""
import os, re
from concurrent.futures import ThreadPoolExecutor

COMPILERS = {
    "g++": ["-O1", "-fconstexpr-ops-limit=300000000", "-fconstexpr-loop-limit=100000000", "-fconstexpr-depth=2000"],
    "clang++": ["-O1", "-fconstexpr-steps=300000000", "-fconstexpr-depth=2000"],
}
TYPES = ["eirin::fixed32", "eirin::fixed64", "ops::FX<int32_t, 8>", "ops::FX<int64_t, 48>", "ops::FX<int16_t, 8>", "ops::FX<int64_t, 32, true>", "ops::FX<uint32_t, 16>", "ops::FX<int32_t, 16, true>", "ops::FX<uint64_t, 40>", "ops::FX<int8_t, 3>", "ops::FX<int16_t, 11, true>"]
NAMES = ["i32f16", "i64f32", "i32f8", "i64f48", "i16f8", "i64f32r", "u32f16", "i32f16r", "u64f40", "i8f3", "i16f11r"]


class C:
    def __init__(self, line):
        self.line = line
        f = line.rstrip("\n").split("|")
        self.id, self.type, self.op = int(f[0]), int(f[1]), int(f[2])
        self.a, self.b, self.c, self.n, self.sub, self.x = int(f[3]), int(f[4]), int(f[5]), int(f[6]), int(f[7]), f[8]
        self.text = bytes.fromhex(f[9])
        self.choices = [int(v) for v in f[10].split()]

    def show(self, ops):
        if self.op < 0:
            return "literal %s%s" % (self.text.decode(), "_f64" if self.type else "_f32")
        return "%s of %s (a=%d b=%d c=%d n=%d sub=%d x=%s text=%r)" % (ops[self.op], NAMES[self.type], self.a, self.b, self.c, self.n, self.sub, self.x, self.text)

    def key(self):
        return (self.type, self.op, self.a, self.b, self.c, self.n, self.sub, self.x, self.text)


def program(cases):
    groups = {}
    for c in cases:
        groups.setdefault((c.op, c.type), []).append(c)
    out = ['#include "cx_ops.hpp"', "using namespace eirin::literals;"]
    body = []
    k = 0
    for (op, t), cs in sorted(groups.items()):
        if op < 0:
            for c in cs:
                lit = c.text.decode()
                body.append('    { constexpr %s v = %s%s; cx::literal(%d, v, "%s"); }' % (TYPES[t], lit, "_f64" if t else "_f32", c.id, lit))
            continue
        rows = []
        for c in cs:
            i64 = lambda v: "INT64_MIN" if v == -2**63 else "%dll" % v
            txt = "{" + ",".join("static_cast<char>(%d)" % v for v in c.text) + "}" if c.text else "{}"
            rows.append("{%s,%s,%s,%s,%d,%s,%s,%d}" % (i64(c.a), i64(c.b), i64(c.c), i64(c.n), c.sub, c.x, txt, len(c.text)))
        out.append("static constexpr cx::Arg args%d[] = {\n%s};" % (k, ",\n".join(rows)))
        out.append("static constexpr int id%d[] = {%s};" % (k, ",".join(str(c.id) for c in cs)))
        out.append("static constexpr auto want%d = cx::eval_all<%s, %d>(args%d);" % (k, TYPES[t], op, k))
        body.append("    cx::compare<%s, %d>(args%d, want%d, id%d);" % (TYPES[t], op, k, k, k))
        k += 1
    return "\n".join(out) + "\nint main()\n{\n" + "\n".join(body) + "\n    return cx::mismatches ? 1 : 0;\n}\n"


class Runner:
    def __init__(self, ctx, sh):
        self.ctx, self.sh, self.count = ctx, sh, 0
        self.emit = ctx.binary("emit", ["c34_emit.cpp"], flags=("-O1",), libs=("-lquadmath",))
        text = open(os.path.join(ctx.harness, "ops.hpp")).read()
        self.ops = re.findall(r'"((?:[^"\\]|\\.)*)"', text[text.index("op_name[] ="):text.index("};", text.index("op_name[] ="))])

    def generate(self, first, n):
        """Generated cases; the generator calls the tested functions to leave out arguments for which they throw."""
        cases, end, crashes = [], first + n, 0
        while first < end:
            r = self.sh([self.emit, self.ctx.dict, str(self.ctx.seed), str(first), str(end - first)])
            got = [C(l) for l in r.stdout.splitlines() if l.count("|") == 10]
            cases += got
            if r.returncode == 0:
                break
            crashes += 1
            if r.returncode == 3 and cases and crashes >= 6:
                break  # enough calls which crash or do not return
            if r.returncode != 3 or not got:
                raise self.ctx.Inconclusive("the generator ended with %d: %s" % (r.returncode, r.stdout[-500:]))
            first = got[-1].id + 1  # the last one crashed or did not return; it stays in the list
        return cases

    def from_choices(self, lists):
        p = os.path.join(self.ctx.bd, "choices%d.txt" % self.count)
        self.count += 1
        open(p, "w").write("".join(" ".join(map(str, l)) + "\n" for l in lists))
        return [C(l) for l in self.sh([self.emit, self.ctx.dict, "choices", p]).stdout.splitlines() if l.count("|") == 10]

    def run(self, job):
        """(compiler, cases, name) -> ('ok'|'compile'|'mismatch'|'crash', text, ids)"""
        cxx, cases, name = job
        src = os.path.join(self.ctx.bd, name + ".cpp")
        exe = src[:-4] + ".bin"
        open(src, "w").write(program(cases))
        r = self.sh([cxx] + self.ctx.base + COMPILERS[cxx] + [src, "-o", exe])
        if r.returncode != 0:
            errs = [l for l in r.stdout.splitlines() if "error" in l]
            return "compile", "\n".join((errs[:1] or r.stdout.splitlines()[:1]) + [l for l in r.stdout.splitlines() if "note" in l][:4]), []
        r = self.sh(["timeout", "60", exe])
        for f in (exe, src):
            os.remove(f)
        if r.returncode == 0:
            return "ok", "", []
        bad = [l for l in r.stdout.splitlines() if l.startswith("MISMATCH ")]
        if bad:
            return "mismatch", bad[0].split(" ", 2)[2], [int(l.split()[1]) for l in bad]
        return "crash", "the program ended with %d" % r.returncode, []

    def fails(self, cxx, cs, tag):
        return self.run((cxx, cs, "%s-%d" % (tag, self.count)))

    def isolate(self, cxx, cases, res):
        """One failing case out of a failing program."""
        kind, text, ids = res
        if ids:
            return [c for c in cases if c.id == ids[0]][0]
        cs = cases
        while len(cs) > 1:
            n = max(1, (len(cs) + 7) // 8)
            parts = [cs[i:i + n] for i in range(0, len(cs), n)]
            with ThreadPoolExecutor(max_workers=8) as ex:
                rs = list(ex.map(self.run, [(cxx, p, "iso%d" % i) for i, p in enumerate(parts)]))
            bad = [(p, r) for p, r in zip(parts, rs) if r[0] != "ok"]
            if not bad:
                return None
            cs = bad[0][0]
            if bad[0][1][2]:
                return [c for c in cs if c.id == bad[0][1][2][0]][0]
        return cs[0]

    def shrink(self, cxx, best):
        def size(c):
            return (len(c.choices), sum(v.bit_length() for v in c.choices), c.choices)
        for _ in range(12):
            ch = best.choices
            cand = []
            for i in range(len(ch)):
                cand += [ch[:i] + [w] + ch[i + 1:] for w in (0, 1, ch[i] >> 1, ch[i] - 1) if 0 <= w < ch[i]]
                cand.append(ch[:i] + ch[i + 1:])
            got, seen = [], set()
            for c in self.from_choices(cand):
                if (c.op, c.type) == (best.op, best.type) and size(c) < size(best) and c.key() not in seen and c.key() != best.key():
                    seen.add(c.key())
                    got.append(c)
            got = sorted(got, key=size)[:24]
            if not got:
                break
            with ThreadPoolExecutor(max_workers=8) as ex:
                rs = list(ex.map(self.run, [(cxx, [c], "shr%d" % i) for i, c in enumerate(got)]))
            better = [c for c, r in zip(got, rs) if r[0] != "ok"]
            if not better:
                break
            best = better[0]
        return best


def run(ctx):
    r = Runner(ctx, ctx.sh)
    total, per = (150000, 2500) if not ctx.thorough else (3000000, 5000)
    cases = r.generate(0, total)
    cases.sort(key=lambda c: (c.op, c.type, c.id))
    jobs = []
    for i in range(0, len(cases), per):
        for cxx in COMPILERS:
            jobs.append((cxx, cases[i:i + per], "p%d-%s" % (i, cxx[0])))
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(r.run, jobs))
    labels = {}
    for c in cases:
        k = "literal" if c.op < 0 else r.ops[c.op]
        labels[k] = labels.get(k, 0) + 1
    part = {"tag": "programs", "evaluations": len(cases) * len(COMPILERS), "nontrivial": len(cases), "distinct_nontrivial": len(set(c.key() for c in cases)),
            "rule": "an operation with generated arguments in its domain, evaluated while compiling and at run time; every case is non-trivial",
            "samples": [c.show(r.ops) for c in cases[:: max(1, len(cases) // 12)]][:12],
            "subs": [{"name": "programs", "cases": len(cases), "programs": len(jobs), "compilers": list(COMPILERS), "labels": labels}]}
    ctx.parts.append(part)
    for job, rs in zip(jobs, res):
        if rs[0] == "ok":
            continue
        case = r.isolate(job[0], job[1], rs)
        if case is None:
            raise ctx.Inconclusive("a program fails (%s) but its parts do not: %s" % (rs[0], rs[1]))
        case = r.shrink(job[0], case)
        again = [r.run((job[0], [case], "again%d" % i)) for i in range(3)]
        if any(a[0] == "ok" for a in again):
            raise ctx.Inconclusive("not reproducible: " + case.show(r.ops))
        rp = os.path.join(ctx.replay_dir, ctx.pid + "-programs.txt")
        with open(rp, "w") as f:
            f.write("# %s with %s\n# %s: %s\n%s %s\n" % (case.show(r.ops), job[0], again[0][0], again[0][1].replace("\n", "\n# "), job[0], case.line))
        part["failure"] = {"sub": "programs", "case": case.show(r.ops), "message": again[0][1]}
        what = {"compile": "is not a constant expression: ", "mismatch": "compile time and run time differ: ", "crash": "run time failure: "}[again[0][0]]
        raise ctx.Broken("%s with %s %s%s" % (case.show(r.ops), job[0], what, again[0][1]), rp)


def replay(ctx, path):
    r = Runner(ctx, ctx.sh)
    rc = 0
    for l in open(path):
        if l.startswith("#") or not l.strip():
            continue
        cxx, line = l.split(" ", 1)
        c = C(line)
        rs = r.run((cxx, [c], "replay"))
        print("%s with %s: %s %s" % (c.show(r.ops), cxx, rs[0], rs[1]))
        rc = rc or (rs[0] != "ok")
    return int(rc)
