"""C40: generated programs of one to three translation units, each including some of the headers in some order and using
the library both while static objects are initialised and later; compared with one reference program."""
import os, random
from concurrent.futures import ThreadPoolExecutor

H = ["fixed.hpp", "math.hpp", "numbers.hpp", "random.hpp", "error.hpp", "macro.hpp", "eirin.hpp", "io/format.hpp", "io/parse.hpp", "detail/util.hpp", "detail/perf.hpp", "detail/int128.hpp", "detail/distribution.hpp", "ext/cordic.hpp", "ext/simd_math.hpp", "ext/builtin_ints.hpp"]
# (headers of which one is enough, needs AVX2, expression giving a std::string)
PROBES = [
    (("fixed.hpp",), 0, 'R(fixed32(7) / fixed32(3) * fixed32(-5)) + R(fixed64(7) / fixed64(3)) + R("1.25"_f32) + R("-12345.678901"_f64)'),
    (("fixed.hpp",), 0, '[] { fixed64 v(0); bool ok = fixed_from_cstring("-3.0000000005", 13, v); std::ostringstream os; os << ok << v << std::hex << v; fixed32 w(0); std::istringstream(" 17.5 ") >> w; os << w; return os.str(); }()'),
    (("fixed.hpp",), 0, 'R(std::numeric_limits<fixed32>::max()) + R(std::numeric_limits<fixed64>::lowest()) + R(std::numeric_limits<fixed32>::epsilon()) + R(fixed32::pi()) + R(fixed64::e())'),
    (("fixed.hpp", "math.hpp", "eirin.hpp", "io/format.hpp", "random.hpp", "ext/cordic.hpp"), 0, 'std::to_string(std::hash<int64_t>{}(0) == 0) + R(fixed32(9) - fixed32(11)) + std::to_string(fixed64(2) < fixed64(3))'),
    (("math.hpp",), 0, 'R(sqrt(fixed32(2))) + R(sqrt(fixed64(2))) + R(sin(fixed32(1))) + R(cos(fixed64(1))) + R(tan(fixed64(1))) + R(atan(fixed64(3))) + R(asin(fixed64(0.5)))'),
    (("math.hpp",), 0, 'R(log2(fixed64(10))) + R(log(fixed32(10))) + R(log10(fixed64(5))) + R(exp(fixed32(1))) + R(exp(fixed64(-3))) + R(pow(fixed64(3), fixed64(2.5))) + R(pow(fixed32(2), -3)) + R(cbrt(fixed64(17)))'),
    (("math.hpp",), 0, 'R(hypot(fixed64(3), fixed64(5))) + R(fmod(fixed32(17), fixed32(5))) + R(degrees(fixed64(2))) + R(radians(fixed32(77))) + R(floor(fixed32(-2.5))) + R(round(fixed64(2.5)))'),
    (("numbers.hpp",), 0, 'R(numbers::pi) + R(numbers::pi_f64) + R(numbers::e_f64) + R(numbers::ln2) + R(numbers::phi_f64) + R(numbers::inv_sqrt3_f64)'),
    (("random.hpp",), 0, '[] { pcg2014 g(5); pcg2014_64 h(7); std::string s; for(int i = 0; i < 5; ++i) s += std::to_string(g()) + "," + std::to_string(h()) + ","; return s; }()'),
    (("random.hpp",), 0, '[] { pcg2014 g(5); fixed_int_distribution_adapter<fixed32, std::uniform_int_distribution<int32_t>> d(fixed32(-3), fixed32(4)); std::string s; for(int i = 0; i < 5; ++i) s += R(d(g)); return s; }()'),
    (("io/format.hpp",), 0, 'std::format("{:+010.3f}|{:x}|{:^12.4}|{:?}", fixed32(-2.71), fixed64(255), fixed64(1) / fixed64(3), fixed32(1.5))'),
    (("io/format.hpp",), 0, '[] { std::wstring w = std::format(L"{:*>+12.5f}", fixed64(-1) / fixed64(7)); return std::string(w.begin(), w.end()); }()'),
    (("io/parse.hpp",), 0, '[] { fixed32 v(0); const char t[] = "-31.75"; io::parse(t, t + 6, v); fixed32 w(0); io::parse(std::string_view("0.00002"), w); return R(v) + R(w); }()'),
    (("ext/cordic.hpp",), 0, 'R(cordic_sine(fixed32(1))) + R(cordic_sine(fixed64(-2))) + R(cordic_sine(fixed64(100)))'),
    (("detail/util.hpp",), 0, 'std::to_string(util::eval_value<int64_t>(3.14159, 32)) + "," + std::to_string(util::eval_value<int32_t>(0.1, 24))'),
    (("ext/simd_math.hpp",), 1, '[] { auto r = simd::simd_reduce_angle({fixed64(100), fixed64(-100), fixed64(1), fixed64(7)}); std::string s; for(auto x : r) s += R(x); auto q = simd::simd_reduce_angle_2({fixed64(1000), fixed64(-9)}); return s + R(q[0]) + R(q[1]); }()'),
    (("ext/simd_math.hpp",), 1, 'std::to_string(simd::platform_support::supports_avx2()) + std::to_string(simd::platform_support::supports_sse2())'),
    (("detail/perf.hpp",), 0, '[] { auto r = perf::measure_esp<fixed64>(fixed64(-1), fixed64(2), fixed64(0.25), [](fixed64 x) { return x * x; }, [](fixed64 x) { return x; }, +[](int64_t v) { return fixed64(v); }); return R(r.max_esp) + R(r.min_esp) + R(r.max_esp_input) + R(r.min_esp_input); }()'),
    (("ext/builtin_ints.hpp",), 0, '[] { ext::int128 v(INT64_MAX); v = v + v; return std::to_string(static_cast<int64_t>(v)) + "," + std::to_string(static_cast<int64_t>(ext::int128(-5) + ext::int128(3))); }()'),
    (("detail/distribution.hpp",), 0, '[] { std::minstd_rand g(5); fixed_int_distribution_adapter<fixed64, std::uniform_int_distribution<int64_t>> d(fixed64(-3), fixed64(4)); std::string s; for(int i = 0; i < 5; ++i) s += R(d(g)); return s; }()'),
    (("error.hpp",), 0, '[] { try { throw divide_by_zero(); } catch(const std::domain_error& e) { return std::string(e.what()); } }()'),
]
PRE = """#include <cstdint>
#include <limits>
#include <random>
#include <sstream>
#include <string>
#include <string_view>
"""
HELP = """namespace
{
template <class F>
std::string R(F v)
{
    return std::to_string(v.internal_value()) + ",";
}
}
"""


def unit(idx, headers, probes, first):
    """Source text of one translation unit: probes evaluated before main (static objects) and again in run<idx>()."""
    inc = "".join("#include <eirin/%s>\n" % h for h in headers)
    # the header under test comes first, so that it has to include what it needs
    text = (inc + PRE if first else PRE + inc) + "using namespace eirin;\nusing namespace eirin::literals;\n" + HELP
    text = text if any(h not in ("macro.hpp", "error.hpp", "ext/builtin_ints.hpp", "detail/int128.hpp") for h in headers) else text.replace("using namespace eirin::literals;\n", "").replace("using namespace eirin;\n", "using namespace eirin;\n" if "error.hpp" in headers or "ext/builtin_ints.hpp" in headers else "")
    for p in probes:
        text += "static std::string early%d_%d = %s;\n" % (idx, p, PROBES[p][2])
    text += "#include <cstdio>\nvoid run%d()\n{\n" % idx
    for p in probes:
        text += '    { std::string late = %s; std::printf("%d early %%s\\n%d late %%s\\n", early%d_%d.c_str(), late.c_str()); }\n' % (PROBES[p][2], p, p, idx, p)
    return text + "}\n"


class Prog:
    def __init__(self, units, cxx, std, opt, avx, first):
        self.units, self.cxx, self.std, self.opt, self.avx, self.first = units, cxx, std, opt, avx, first

    def show(self):
        return "%s -std=%s %s%s, %d translation unit(s): %s" % (self.cxx, self.std, self.opt, " -mavx2" if self.avx else "", len(self.units), "; ".join("[%s%s: %s]" % ("" if self.first else "standard headers, ", ", ".join(h), " ".join(map(str, p))) for h, p in self.units))

    def key(self):
        return repr((self.units, self.cxx, self.std, self.opt, self.avx, self.first))


def usable(headers, avx):
    return [i for i, (need, a, _) in enumerate(PROBES) if any(h in headers for h in need) and (avx or not a)]


def generate(rng):
    avx = rng.random() < 0.6
    units = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        hs = rng.sample(H, rng.choice((1, 1, 2, 3, 5, len(H))))
        if rng.random() < 0.3:
            hs += [rng.choice(hs)]  # included twice
        ps = usable(hs, avx)
        units.append((hs, sorted(rng.sample(ps, min(len(ps), rng.choice((1, 2, 4)))))))
    return Prog(units, rng.choice(("g++", "clang++")), rng.choice(("c++20", "c++23", "gnu++20")), rng.choice(("-O0", "-O0", "-O1", "-O2")), avx, rng.random() < 0.7)


def run_prog(ctx, prog, name):
    d = os.path.join(ctx.bd, name)
    os.makedirs(d, exist_ok=True)
    base = [x for x in ctx.base if not x.startswith("-std=")]
    objs = []
    for i, (hs, ps) in enumerate(prog.units):
        src = os.path.join(d, "u%d.cpp" % i)
        open(src, "w").write(unit(i, hs, ps, prog.first))
        objs.append(src[:-4] + ".o")
        r = ctx.sh([prog.cxx, *base, "-std=" + prog.std, prog.opt, *(["-mavx2"] if prog.avx else []), "-c", src, "-o", objs[-1]])
        if r.returncode:
            errs = [l for l in r.stdout.splitlines() if "error" in l]
            return "compile", (errs or ["?"])[0]
    m = os.path.join(d, "main.cpp")
    open(m, "w").write("".join("void run%d();\n" % i for i in range(len(objs))) + "int main()\n{\n" + "".join("    run%d();\n" % i for i in range(len(objs))) + "}\n")
    # the order of the objects decides in which order static objects are initialised
    r = ctx.sh([prog.cxx, "-std=" + prog.std, m, *reversed(objs), "-o", os.path.join(d, "prog")])
    if r.returncode:
        errs = [l for l in r.stdout.splitlines() if "multiple definition" in l or "undefined reference" in l]
        return "link", (errs or r.stdout.splitlines() or ["?"])[0]
    r = ctx.sh(["timeout", "60", os.path.join(d, "prog")])
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return ("ok", r.stdout) if r.returncode == 0 else ("run", "exit status %d\n%s" % (r.returncode, r.stdout[-300:]))


def verdict(ctx, prog, want, name):
    kind, text = run_prog(ctx, prog, name)
    if kind != "ok":
        return {"compile": "does not compile: ", "link": "does not link: ", "run": "fails: "}[kind] + text
    for l in text.splitlines():
        p, when, val = l.split(" ", 2)
        if val != want[int(p)]:
            return "%s gives %s %s, but %s in the reference program" % (PROBES[int(p)][2], val, "before main" if when == "early" else "in main", want[int(p)])
    return None


def reference(ctx):
    """Each probe in one program that includes everything, evaluated in main only."""
    ps = list(range(len(PROBES)))
    kind, text = run_prog(ctx, Prog([(H, ps)], "g++", "c++20", "-O1", True, True), "reference")
    if kind != "ok":
        rp = os.path.join(ctx.replay_dir, ctx.pid + "-headers.txt")
        open(rp, "w").write("# the program that includes all headers: %s %s\n" % (kind, text))
        raise ctx.Broken("the program that includes all headers fails: " + text, rp)
    return {int(l.split(" ", 2)[0]): l.split(" ", 2)[2] for l in text.splitlines() if l.split(" ", 2)[1] == "late"}


def shrink(ctx, prog, want):
    import copy
    for _ in range(8):
        cand = []
        for i in range(len(prog.units)):
            if len(prog.units) > 1:
                c = copy.deepcopy(prog); del c.units[i]; cand.append(c)
            for j in range(len(prog.units[i][0])):
                c = copy.deepcopy(prog); del c.units[i][0][j]
                ok = usable(c.units[i][0], c.avx)
                c.units[i] = (c.units[i][0], [p for p in c.units[i][1] if p in ok])
                if c.units[i][0]:
                    cand.append(c)
            for j in range(len(prog.units[i][1])):
                c = copy.deepcopy(prog); del c.units[i][1][j]; cand.append(c)
        cand = cand[:32]
        with ThreadPoolExecutor(max_workers=8) as ex:
            rs = list(ex.map(lambda t: verdict(ctx, t[1], want, "shrink%d" % t[0]), enumerate(cand)))
        bad = [c for c, r in zip(cand, rs) if r]
        if not bad:
            break
        prog = bad[0]
    return prog


def run(ctx):
    want = reference(ctx)
    n = 2500 if ctx.thorough else 96
    progs = [Prog([([h], usable([h], True))], c, "c++20", "-O0", True, True) for h in H for c in ("g++", "clang++")]
    progs += [generate(random.Random("%d/%d" % (ctx.seed, i))) for i in range(n)]
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda t: verdict(ctx, t[1], want, "p%d" % t[0]), enumerate(progs)))
    labels = {}
    for p in progs:
        for k in [p.cxx, p.std, p.opt, "%d translation unit(s)" % len(p.units)] + (["AVX2"] if p.avx else []) + ["includes " + h for h in {h for u in p.units for h in u[0]}]:
            labels[k] = labels.get(k, 0) + 1
    nt = [p for p in progs if sum(len(u[1]) for u in p.units) > 0]
    part = {"tag": "headers", "evaluations": len(progs), "nontrivial": len(nt), "distinct_nontrivial": len({p.key() for p in nt}),
            "rule": "a program of one to three translation units, each including a selection of the headers in some order; non-trivial: it also calls the library, before main and in it",
            "samples": [p.show() for p in progs[len(progs) - 6:]], "subs": [{"name": "programs", "cases": len(progs), "labels": labels}]}
    ctx.parts.append(part)
    for p, r in zip(progs, res):
        if r is None:
            continue
        p = shrink(ctx, p, want)
        again = [verdict(ctx, p, want, "again%d" % i) for i in range(3)]
        if not all(again):
            raise ctx.Inconclusive("not reproducible: " + p.show())
        rp = os.path.join(ctx.replay_dir, ctx.pid + "-headers.txt")
        open(rp, "w").write("# %s\n# %s\n%r\n" % (p.show(), again[0], p.__dict__))
        part["failure"] = {"sub": "programs", "case": p.show(), "message": again[0]}
        raise ctx.Broken("%s: %s" % (p.show(), again[0]), rp)


def replay(ctx, path):
    import ast
    for l in open(path):
        if l.startswith("{"):
            p = Prog(**ast.literal_eval(l))
            r = verdict(ctx, p, reference(ctx), "replay")
            print(p.show(), "->", r or "ok")
            return 1 if r else 0
    return 1
