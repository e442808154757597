"""The registry of checks: how the machinery of each property is built and run."""


def pbt(sources, oracle, flags=("-O2",), assumptions=(), cxx="g++", libs=(), sweep=False, scale="2.5"):
    """A check that is one property-based test binary; with `sweep`, the harness is compiled twice more for its sweeps over the configurations."""
    if sweep:
        sources = list(sources) + [(sources[0], ("-O1", "-DSWEEP=2")), (sources[0], ("-O1", "-DSWEEP=1"))]

    def build(ctx):
        return ctx.binary("check", sources, cxx=cxx, flags=flags, libs=libs)

    def run(ctx):
        ctx.run_pbt(build(ctx), args=() if ctx.thorough else ("--scale", scale))

    return {"build": build, "run": run, "oracle": oracle, "assumptions": list(assumptions)}


SAN = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer")


def c15():
    def build(ctx):
        return ctx.binary("pbt", ["c15_reject.cpp"], cxx="clang++", flags=SAN)

    def fuzzer(ctx):
        return ctx.binary("fuzz", ["c15_fuzz.cpp"], cxx="clang++", flags=("-O1", "-g", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all"))

    def run(ctx):
        ctx.run_pbt(build(ctx))
        seeds = [bytes([k, 0]) + t for k in range(8) for t in (b"-1.5", b"32767.99999", b"-32768", b"00.000015258789062500", b"9" * 40, b"12a", b" 7")]
        ctx.run_fuzz(fuzzer(ctx), seeds, 2000000 if ctx.thorough else 60000, 200,
                     "a byte string: function, previous value and text; the ones which reached new coverage are counted as non-trivial")

    def replay(ctx, path):
        if not path.endswith(".bin"):
            return None
        import subprocess
        return subprocess.run([fuzzer(ctx), path]).returncode

    return {"build": build, "run": run, "replay": replay, "oracle": "a reference parser (longest numeric prefix, exact decimal conversion, range), address and undefined behaviour sanitizers", "assumptions": []}


def c31():
    def avx512():
        try:
            flags = open("/proc/cpuinfo").read().split("flags", 1)[1].split("\n", 1)[0].split()
        except (OSError, IndexError):
            return False
        return {"avx512f", "avx512dq", "avx512vl"} <= set(flags)

    def build(ctx, name="avx2", flags=("-O2", "-mavx2"), cxx="g++"):
        return ctx.binary(name, ["c31_simd.cpp"], cxx=cxx, flags=flags, libs=QM)

    def run(ctx):
        ctx.run_pbt(build(ctx), tag="avx2")
        if avx512():
            ctx.run_pbt(build(ctx, "avx512", ("-O3", "-mavx2", "-mavx512f", "-mavx512dq", "-mavx512vl")), tag="avx512")

    return {"build": build, "run": run, "oracle": "exact integer arithmetic on the raw values: difference of input and output modulo 2 pi, magnitude and sign", "assumptions": ["the AVX-512 build is only run on processors that have it"]}


BUILDS = [
    ("gcc-O2", "g++", ("-O2",)),
    ("gcc-O0", "g++", ("-O0",)),
    ("gcc-O1-unsigned-char", "g++", ("-O1", "-funsigned-char")),
    ("gcc-O3-native", "g++", ("-O3", "-march=native")),
    ("gcc-Ofast", "g++", ("-O2", "-ffast-math", "-funroll-loops")),
    ("gcc-Os-c++23", "g++", ("-Os", "-std=c++23", "-DNDEBUG")),
    ("clang-O0", "clang++", ("-O0",)),
    ("clang-O2", "clang++", ("-O2",)),
    ("clang-O3-fast-math", "clang++", ("-O3", "-ffast-math", "-march=native")),
    ("clang-Os-unsigned-char", "clang++", ("-Os", "-funsigned-char", "-ftrivial-auto-var-init=pattern")),
    ("gcc-O2-gnu++20", "g++", ("-O2", "-std=gnu++20", "-fwrapv", "-fno-strict-aliasing", "-ftrivial-auto-var-init=zero", "-fno-rtti")),
    ("gcc-O2-x87", "g++", ("-O2", "-mfpmath=387", "-fno-inline")),
    ("gcc-O1-assertions", "g++", ("-O1", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG", "-ftrivial-auto-var-init=pattern")),
]


NOEXC = [
    ("gcc-O2", "g++", ("-O2",)),
    ("gcc-O2-no-exceptions", "g++", ("-O2", "-fno-exceptions")),
    ("gcc-O0-no-exceptions-no-rtti", "g++", ("-O0", "-fno-exceptions", "-fno-rtti")),
    ("clang-O1-no-exceptions", "clang++", ("-O1", "-fno-exceptions", "-fno-rtti")),
]


def builds(table, source, oracle, assumptions):
    def libs(ctx):
        import os
        ver = os.path.join(ctx.bd, "export.map")
        open(ver, "w").write("{ global: ops_eval; local: *; };\n")
        jobs = []
        for name, cxx, flags in table:
            out = os.path.join(ctx.bd, name)
            src = os.path.join(ctx.harness, "ops_lib.cpp")
            jobs.append((out, [cxx] + ctx.base + list(flags) + ["-shared", "-fPIC", "-fvisibility=hidden", "-Wl,--version-script=" + ver, src, "-o", out]))
        ctx.compile_many(jobs)
        return {"VERIF_LIBS": ":".join(j[0] for j in jobs)}

    def build(ctx):
        return ctx.binary("check", [source], libs=QM + ("-ldl",))

    def run(ctx):
        env = libs(ctx)
        ctx.run_pbt(build(ctx), env=env)

    def replay(ctx, path):
        import os, subprocess
        return subprocess.run([build(ctx), "--replay", path, "--dict", ctx.dict], env=dict(os.environ, **libs(ctx))).returncode

    return {"build": build, "run": run, "replay": replay, "oracle": oracle, "assumptions": assumptions}


def c34():
    def build(ctx):
        return None

    def run(ctx):
        import programs
        programs.run(ctx)

    def replay(ctx, path):
        import programs
        return programs.replay(ctx, path)

    return {"build": build, "run": run, "replay": replay, "oracle": "the same call at run time, with arguments unknown to the compiler; for literals, parsing of the text at run time", "assumptions": ["GCC 13 and Clang 18"]}


def c40():
    def run(ctx):
        import headers
        headers.run(ctx)

    def replay(ctx, path):
        import headers
        return headers.replay(ctx, path)

    return {"build": lambda ctx: None, "run": run, "replay": replay, "oracle": "a reference program that includes all headers and makes the same calls in main", "assumptions": ["GCC 13 and Clang 18 with libstdc++"]}


def threaded(source, oracle, extra=()):
    flags = ("-O1", "-g", "-fsanitize=thread")

    def build(ctx):
        import os
        probe = os.path.join(ctx.bd, "probe.cpp")
        open(probe, "w").write("#include <thread>\nint main() { int x = 0; std::thread t([&] { x = 1; }); t.join(); return x - 1; }\n")
        ok = ctx.sh(["clang++", *flags, probe, "-o", probe + ".bin"]).returncode == 0 and ctx.sh([probe + ".bin"]).returncode == 0
        ctx.tsan = ok
        return ctx.binary("check", [source], cxx="clang++", flags=(flags if ok else ("-O1",)) + tuple(extra) + CLANG_QM, libs=QM + ("-pthread",))

    def env():
        return {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0"}

    def run(ctx):
        b = build(ctx)
        part = ctx.run_pbt(b, env=env())
        part["extra"] = {"thread_sanitizer": ctx.tsan}

    def replay(ctx, path):
        import os, subprocess
        return subprocess.run([build(ctx), "--replay", path, "--dict", ctx.dict], env=dict(os.environ, **env())).returncode

    return {"build": build, "run": run, "replay": replay, "oracle": oracle, "assumptions": ["where the thread sanitizer cannot run, only the results are compared"]}


# Clang does not look for GCC's quadmath.h
CLANG_QM = ("-idirafter", "/usr/lib/gcc/x86_64-linux-gnu/13/include")

QM = ("-lquadmath",)

CHECKS = {
    "C01": pbt(["c01_addsub.cpp"], "exact integer arithmetic on the raw values in 128 bits", sweep=True),
    "C02": pbt(["c02_mul.cpp"], "floor of the exact product of the raw values, in 128 bits", sweep=True),
    "C03": pbt(["c03_div.cpp"], "truncated exact quotient and remainder of the raw values, in 128 bits", sweep=True),
    "C04": pbt(["c04_mixed.cpp"], "exact integer arithmetic on the raw value and the integer, in 128 bits", sweep=True),
    "C05": pbt(["c05_rounding.cpp"], "nearest multiple of an ulp to the exact result, halves away from zero, in 128 bits", sweep=True),
    "C06": pbt(["c06_checked.cpp"], "exception if and only if the divisor is zero; otherwise the exact quotient and agreement with the operator", sweep=True),
    "C07": pbt(["c07_order.cpp"], "comparison of the raw values; std::map over raw values as model of the containers", sweep=True),
    "C08": pbt(["c08_nearly.cpp"], "exact difference of the raw values in 128 bits compared with 5/65536", sweep=True),
    "C09": pbt(["c09_convert.cpp"], "exact scaling by powers of two in 128 bit integers and 80 bit floating point numbers", sweep=True),
    "C10": pbt(["c10_fixed2fixed.cpp"], "exact scaling by powers of two in 128 bits, truncated toward zero; round trips", sweep=True),
    "C11": pbt(["c11_parts.cpp"], "integer division of the raw value in 128 bits", sweep=True),
    "C12": pbt(["c12_ostream.cpp"], "exact digit generation in 128 bits", sweep=True),
    "C13": pbt(["c13_format.cpp"], "an independent formatter working on exact digits", sweep=True),
    "C14": pbt(["c14_parse.cpp"], "exact decimal to binary conversion by digit-wise doubling", sweep=True),
    "C15": c15(),
    "C16": pbt(["c16_extract.cpp"], "a model of the stream: position, longest numeric prefix, exact decimal conversion", sweep=True),
    "C17": pbt(["c17_roundtrip.cpp"], "the printed number itself", sweep=True),
    "C18": pbt(["c18_sqrt.cpp"], "exact integer inequality between the square of the result and the argument", libs=QM, sweep=True),
    "C19": pbt(["c19_cbrt.cpp"], "the real cube root in 80 or 113 bit floating point", libs=QM, sweep=True),
    "C20": pbt(["c20_sincos.cpp"], "the real function in 80 or 113 bit floating point", libs=QM, sweep=True),
    "C21": pbt(["c21_arc.cpp"], "the real function in 80 or 113 bit floating point", libs=QM, sweep=True),
    "C22": pbt(["c22_log.cpp"], "the real function in 80 or 113 bit floating point", libs=QM, sweep=True),
    "C23": pbt(["c23_exp.cpp"], "the real function in 80 or 113 bit floating point", libs=QM, sweep=True),
    "C24": pbt(["c24_pow.cpp"], "the real power with an error bound propagated through repeated squaring, exp and log, in 80 bit floating point; exact integer powers", libs=QM, sweep=True),
    "C25": pbt(["c25_fmod.cpp"], "exact integer arithmetic on the raw values; real conversion factors in 80 bit floating point", libs=QM, sweep=True),
    "C26": pbt(["c26_constants.cpp"], "113 bit values of the constants, truncated or rounded", flags=("-O2", "-fext-numeric-literals"), libs=QM),
    "C27": pbt(["c27_limits.cpp"], "the ends of the range of the storage type", sweep=True),
    "C28": pbt(["c28_engines.cpp"], "a model of each engine: seed and number of outputs since; the underlying engine for the adapter"),
    "C29": pbt(["c29_distributions.cpp"], "a model of the current range; a new distribution on a copy of the engine; counts"),
    "C30": pbt(["c30_cordic.cpp"], "the real sine in 80 bit floating point", flags=("-O2", "-mavx2"), libs=QM),
    "C31": c31(),
    "C32": builds(BUILDS, "c32_builds.cpp", "the results of the first build in the default floating point mode (differential); the semantics themselves are decided by the other checks", ["the builds of this machine: thirteen combinations of GCC or Clang and options on x86-64"]),
    "C33": pbt(["c33_sanitized.cpp"], "the address and undefined behaviour sanitizers; equal results of a second call; no unexpected exception", cxx="clang++", flags=SAN + ("-mavx2",) + CLANG_QM, libs=QM, scale="1"),
    "C34": c34(),
    "C36": threaded("c36_threads.cpp", "the thread sanitizer (no data race) and the results of the same calls made one after another", ("-mavx2",)),
    "C37": pbt(["c37_helpers.cpp"], "exact scaling of the floating point number; real multiples of pi in 80 and 113 bit floating point; a direct loop for the error measurement", flags=("-O2", "-mavx2", "-fext-numeric-literals"), libs=QM),
    "C35": pbt(["c35_history.cpp"], "an exact model of every variable (128 bit integers), compared after every step", libs=QM, scale="1"),
    "C38": threaded("c38_platform.cpp", "the cpuid instruction; the thread sanitizer (no data race)", ("-mavx2",)),
    "C39": builds(NOEXC, "c39_noexcept.cpp", "the build with exceptions: the same result, or std::terminate exactly where it throws", ["three builds without exceptions, on x86-64"]),
    "C41": pbt(["c41_constants.cpp"], "the formulas with the passed constant in 80 or 113 bit floating point; the functions with their default constants", libs=QM),
    "C42": pbt(["c42_int128.cpp"], "the built-in 128 bit integer", flags=("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")),
    "C40": c40(),
}
