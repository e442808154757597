#!/usr/bin/env python3
"""Mutation campaign: applies small textual mutations to the headers, in copies under /tmp/mut, and runs the checks on each
until one reports a violation.  Survivors are equivalent mutants or gaps of the checks.

    mutate.py list                       number of mutants per file
    mutate.py run OUT.jsonl [--slots 6] [--every N --offset K] [--file substring] [--scale 0.3]
"""
import json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
REPO = os.environ.get("VERIF_REPO", "/repo")

ALL = ["C%02d" % i for i in range(1, 43)]
BY_FILE = {
    "fixed.hpp": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14 C15 C16 C17 C27 C18 C35 C33".split(),
    "math.hpp": "C18 C19 C20 C21 C22 C23 C24 C25 C11 C07 C41 C35 C33 C30".split(),
    "numbers.hpp": "C26 C34 C20 C22 C25 C31".split(),
    "random.hpp": "C28 C29 C33 C36".split(),
    "error.hpp": "C06 C35".split(),
    "io/format.hpp": "C13 C12 C17 C33 C34 C32 C36".split(),
    "io/parse.hpp": "C14 C15 C17 C33".split(),
    "detail/distribution.hpp": "C29 C28 C33 C36".split(),
    "detail/util.hpp": "C37 C30".split(),
    "detail/perf.hpp": "C37".split(),
    "detail/int128.hpp": "C02 C03".split(),
    "ext/cordic.hpp": "C30 C37 C32 C33 C36".split(),
    "ext/simd_math.hpp": "C31 C38 C36".split(),
    "ext/builtin_ints.hpp": ["C42"],
    "eirin.hpp": "C01".split(), "macro.hpp": "C31".split(),
}
HINTS = [(r"\bdivide(_by)?\(", "C06"), (r"operator\*=?\(", "C02 C05 C04"), (r"operator/=?\(", "C03 C05 C04"), (r"operator%=?\(", "C03 C04"), (r"operator[+-]=?\(|operator\+\+|operator--", "C01 C04"),
         (r"nearly_", "C08"), (r"hash", "C07"), (r"<=>|operator==", "C07"), (r"operator>>", "C16"), (r"parse_|_from_cstring|bool parse", "C14 C15 C16"), (r"copy_as_chars|operator<<", "C12"), (r"numeric_limits", "C27"),
         (r"from_fixed_num_value|fixed_num\(const fixed_num<", "C10 C05"), (r"floating_point", "C09 C05"), (r"operator T\(|operator V\(", "C09"), (r"integral_part|fractional_part", "C11"), (r"std::integral", "C09 C04"),
         (r" (ceil|floor|trunc|round|abs|modf)\(fixed", "C11"), (r" (min|max|signbit)\(fixed", "C07"), (r" sqrt\(fixed| hypot\(fixed", "C18"), (r" (sin|cos|tan)\(fixed", "C20"), (r" (atan|asin|acos)\(fixed", "C21"), (r" cbrt\(fixed", "C19"),
         (r" (log2|log|log10)\(fixed", "C22"), (r" exp(_expand)?\(fixed", "C23"), (r" pow\(fixed", "C24"), (r" (fmod|degrees|radians)\(fixed", "C25"), (r"lut_calc_sin", "C30"), (r"platform_support", "C38")]


def hint(lines, n):
    for k in range(n, max(-1, n - 90), -1):
        for rx, cs in HINTS:
            if re.search(rx, lines[k]):
                return cs.split()
    return []


SWAP = [(" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" << ", " >> "), (" >> ", " << "), (" < ", " <= "), (" <= ", " < "),
        (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" += ", " -= "), (" -= ", " += "),
        (" & ", " | "), (" | ", " & "), (" % ", " / "), ("true", "false"), ("false", "true"), ("static_cast<I>", "static_cast<T>"), ("IntermediateT>(", "T>("),
        ("++", "--"), (" ? ", " ? !"), ("if(", "if(!"), ("-1", "1"), ("!", ""), ("~", ""), ("floor", "trunc"), ("min", "max"), ("abs(", "("), (">>= ", "<<= "), ("<<= ", ">>= "),
        ("continue;", ";"), ("break;", ";"), ("uint64_t", "uint32_t"), ("int64_t", "int32_t"), ("-", "")]


IDS = [("lhs", "rhs"), ("a", "b"), ("first", "last"), ("int_part", "dec_part"), ("m_a", "m_b"), ("high", "low"), ("h", "l"), ("x", "y"), ("fp1", "fp2"), ("left", "right"), ("T", "I"), ("Type", "IntermediateType"),
       ("sin_sign", "cos_sign"), ("m_seed", "m_state"), ("pi", "pi_2"), ("prefix", "body"), ("body", "digit_str"), ("frac_val", "frac_bits"), ("m_value", "other.m_value"), ("other.m_value", "m_value"), ("std::min", "std::max"),
       ("fp2", "fixed(4)"), ("res", "i"), ("x_int", "fp"), ("CharT", "char"), ("I", "int"), ("IntermediateType", "Type"), ("I", "T"), ("two_pi", "inv_two_pi"), ("__A", "__B"), ("abs_a", "abs_b"), ("a_lo", "a_hi"), ("b_lo", "b_hi"),
       ("zero_pad", "alt_form"), ("width_val", "precision"), ("fill_ch", "pad_ch"), ("uppercase", "false"), ("result_type", "unsigned int"), ("fraction", "fraction - 1"), ("f", "(f - 1)"), ("eps", "x"), ("negative", "false"), ("neg", "false"), ("ecx", "edx"), ("ebx", "ecx")]


def mutants2():
    """Mutations of names, types and casts, also in declarations."""
    out = []
    inc = os.path.join(REPO, "include/eirin")
    for base, _, files in sorted(os.walk(inc)):
        for fn in sorted(files):
            p = os.path.join(base, fn)
            rel = os.path.relpath(p, inc)
            block = False
            for n, line in enumerate(open(p).read().split("\n")):
                t = line.strip()
                if block or t.startswith("/*"):
                    block = "*/" not in t
                    continue
                if not t or t.startswith(("//", "#", "*", "namespace")):
                    continue
                code = line.split("//")[0]
                seen = set()

                def add(new, what):
                    if new != line and new not in seen:
                        seen.add(new)
                        out.append((rel, n, line, new, what))
                for x, y in IDS:
                    for a, b in ((x, y), (y, x)):
                        if not re.fullmatch(r"[\w:.]+", a) or a in ("false", "int", "char", "unsigned int"):
                            continue
                        for m in re.finditer(r"(?<![\w.:])%s(?!\w)" % re.escape(a), code):
                            if t.startswith("template") and a in ("T", "I", "f", "CharT", "pi", "fraction", "Type", "IntermediateType"):
                                continue
                            add(line[:m.start()] + b + line[m.end():], a + "->" + b)
                for m in re.finditer(r"static_cast<[^<>]*(<[^<>]*>)?[^<>]*>", code):
                    add(line[:m.start()] + line[m.end():], "no cast")
                for m in re.finditer(r"if constexpr\(", code):
                    add(line[:m.end()] + "!" + line[m.end():], "constexpr !")
                for m in re.finditer(r"'(.)'", code):
                    add(line[:m.start(1)] + chr(ord(m.group(1)) + 1) + line[m.end(1):], "character")
                for m in re.finditer(r"fixed_num& operator|fixed_num& divide", code):
                    add(line[:m.start()] + m.group(0).replace("&", "") + line[m.end():], "by value")
                for m in re.finditer(r'"([^"]+)"', code):
                    k = m.start(1) + len(m.group(1)) // 2
                    add(line[:k] + chr(ord(line[k]) ^ 1) + line[k + 1:], "string")
                if t.startswith(("template", "requires", "concept", "friend")):
                    for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.])", code):
                        add(line[:m.start()] + str(int(m.group(1)) + 1) + line[m.end():], "number")
                    for a, b in ((" > ", " >= "), (" >= ", " > "), ("true", "false"), ("false", "true")):
                        for m in re.finditer(re.escape(a), code):
                            add(line[:m.start()] + b + line[m.end():], a + "->" + b)
                m = re.match(r"(\s*)(\S.*[^=<>!]) = (.*;)$", code)
                if m and len(m.group(2).split()) == 1:
                    add("%s%s = %s" % (m.group(1), m.group(2), m.group(3)[:-1] + " + 1;"), "+ 1")
    return out


def mutants():
    out = []
    inc = os.path.join(REPO, "include/eirin")
    for base, _, files in sorted(os.walk(inc)):
        for fn in sorted(files):
            p = os.path.join(base, fn)
            rel = os.path.relpath(p, inc)
            block = msvc = False
            for n, line in enumerate(open(p).read().split("\n")):
                t = line.strip()
                if re.match(r"#\s*(el)?if.*_MSC_VER", t):
                    msvc = True
                elif t.startswith(("#endif", "#    endif", "#else", "#    else")):
                    msvc = False
                if msvc:
                    continue
                if block or t.startswith("/*"):
                    block = "*/" not in t
                    continue
                if not t or t.startswith(("//", "#", "*", "template", "namespace", "using", "typedef", "requires", "static_assert", "friend", "}", "{", "public", "private")):
                    continue
                code = line.split("//")[0]
                seen = set()

                def add(new, what):
                    if new != line and new not in seen:
                        seen.add(new)
                        out.append((rel, n, line, new, what))
                for a, b in SWAP:
                    i = code.find(a)
                    while i >= 0:
                        if not (a in ("true", "false", "min", "-", "!", "abs(", "floor") and (re.match(r"\w", code[i - 1:i] or " ") if a != "-" else (code[i:i + 2] in ("->", "--", "-=", "- ") or code[i - 1:i] == "-"))) and not (a == "!" and code[i:i + 2] == "!="):
                            add(line[:i] + b + line[i + len(a):], a.strip() + "->" + b.strip())
                        i = code.find(a, i + len(a))
                for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.])", code):
                    v = int(m.group(1))
                    for w in ({v + 1, v - 1} if v else {1}):
                        if w >= 0:
                            add(line[:m.start()] + str(w) + line[m.end():], "%d->%d" % (v, w))
                for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(?![\w.])", code):
                    s = m.group(1)
                    add(line[:m.start()] + s[:-1] + ("1" if s[-1] != "1" else "2") + line[m.end():], "last digit")
                for m in re.finditer(r"0[xX][0-9a-fA-F]{5,}", code):
                    h = m.group(0)
                    for at in (4, len(h) // 2 + 1):
                        add(line[:m.start()] + h[:at] + ("7" if h[at] != "7" else "3") + h[at + 1:] + line[m.end():], "hex digit %d" % at)
                if t.endswith(";") and not t.startswith(("return", "const", "auto", "static", "inline", "T ", "I ", "int", "bool", "size_t", "uint", "for", "throw", "using", "std::", "fixed_num", "fixed_num<", "break", "continue")) and "(" not in t.split("=")[0].split(" ")[0] or re.match(r"\s*(\w+)\(.*\);$", line):
                    add(re.sub(r"\S.*", ";", line, count=1), "delete")
    return out


def main():
    ms = mutants2() if os.environ.get("MUT2") else mutants()
    if sys.argv[1] == "list":
        from collections import Counter
        print(len(ms), Counter(m[0] for m in ms))
        return
    out = sys.argv[2]
    opt = dict(slots="6", every="1", offset="0", file="", scale="0.3", hours="9", sample="0")
    a = sys.argv[3:]
    while a:
        k = a.pop(0)[2:]
        opt[k] = a.pop(0)
    ms = [m for m in ms if opt["file"] in m[0]]
    if int(opt["sample"]):
        random.Random(int(opt["offset"])).shuffle(ms)
        ms = ms[:int(opt["sample"])]
    else:
        ms = ms[int(opt["offset"])::int(opt["every"])]
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(out))}
    base = {m[0]: open(os.path.join(REPO, "include/eirin", m[0])).read() for m in ms}
    killers, lock = {}, threading.Lock()
    free = list(range(int(opt["slots"])))
    for s in free:
        d = "%s/s%d" % (ROOT, s)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/verif")
        for x in ("harness", "checks.py", "run.py", "programs.py", "headers.py", "known_findings.txt"):
            (shutil.copytree if os.path.isdir(os.path.join(HERE, x)) else shutil.copy)(os.path.join(HERE, x), d + "/verif/" + x)
        shutil.copytree(REPO + "/include", d + "/repo/include")
    end = time.time() + 3600 * float(opt["hours"])

    def work(m):
        rel, n, old, new, what = m
        if (rel, n + 1, new) in done or time.time() > end:
            return
        with lock:
            s = free.pop()
        d = "%s/s%d" % (ROOT, s)
        p = d + "/repo/include/eirin/" + rel
        orig = base[rel]
        lines = orig.split("\n")
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        order = list(BY_FILE.get(rel, ALL))
        near = sorted(((abs(l - n), c) for (f, l), c in killers.items() if f == rel))[:3]
        pre = [c for dist, c in near if dist < 25]
        order = list(dict.fromkeys(hint(lines, n) + pre + order))
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_PBT_ARGS="--scale %s --workers 3" % opt["scale"])
        res, by, msg, t0 = "survived", None, "", time.time()
        for c in order:
            try:
                r = subprocess.run(["python3", "run.py", c], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
            except subprocess.TimeoutExpired:
                res, by = "timeout", c
                break
            if r.returncode == 1:
                msg = r.stdout[-400:]
                res, by = ("nocompile" if "does not compile" in r.stdout else "killed"), c
                break
            if r.returncode != 0:
                res, by, msg = "error", c, r.stdout[-400:]
                break
        open(p, "w").write(orig)
        with lock:
            free.append(s)
            if res == "killed":
                killers[(rel, n)] = by
            with open(out, "a") as f:
                f.write(json.dumps(dict(file=rel, line=n + 1, what=what, old=old, new=new, res=res, by=by, t=round(time.time() - t0, 1), msg=msg)) + "\n")
    with ThreadPoolExecutor(max_workers=int(opt["slots"])) as ex:
        list(ex.map(work, ms))
    shutil.rmtree(ROOT, ignore_errors=True)


main()
