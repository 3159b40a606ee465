#!/usr/bin/env python3
"""check.py <property> - decide one property of /repo's current source.

Builds the analysis driver if needed, lets the compiler type-check the library
(and, for the value analyses, the instantiation crate /verif/harness) and has
the driver apply the property's rules to the resulting MIR.  Exit 0: every
obligation discharged.  Exit 1 with a VIOLATION line: one was not."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
DRIVER = os.path.join(V, "driver/target/release/strokelint")
LIMIT = 840
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "tools"))
import source_scan
DEBUG_WORDS = {"debug_assertions", "overflow_checks", "debug_assert", "debug_assert_eq", "debug_assert_ne"}

ASSUME_VALUE = [
    "Real-number semantics: the value rules decide the formula the code computes; the size of floating-point rounding errors is not bounded (bit-exact rules say so and use value numbers or IEEE identities instead; C12 and one rule of C15 leave comparisons of mathematically equal, differently computed numbers open).",
    "Symbolic inputs are finite; NaN and infinities are analysed only where the rule lists them as explicit cases.",
    "A constant of magnitude at most 1e-14 used as a tolerance keeps its value where it is compared with knots (B-spline rules), with coordinates, or with products of coordinates; compared with plain coordinates in C07 and C17 and with Bezier parameters it is infinitesimal (|x| < eps means x = 0).",
    "Formulas of curves with hundreds of control points are compared by their residues modulo 2^61 - 1 at fixed pseudo-random points (equal formulas always agree; different ones agree with probability below 1e-14).",
    "Sizes, dimensions, knot counts and step counts are those listed in the evidence; parameters, control points and knot gaps are symbolic.",
    "The scalar type is f64, the only scalar for which the crate implements Point; a user-defined Point type (UserPoint in the harness) stands for other Point implementations.",
]
ASSUME_ITEMS = ["The compiler's own checks (type check, borrow check, unsafe-code lint) are trusted.",
                "Values are analysed for 64-bit targets; the crate has no cargo features, and C16 type-checks it for targets with other pointer widths."]

def env():
    e = dict(os.environ)
    sr = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = os.path.join(sr, "lib")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e

def build_driver(e):
    newest = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(os.path.join(V, "driver/src")) for f in fs)
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= newest:
        return
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "driver"), env=e, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(DRIVER):
        sys.stderr.write(r.stderr[-4000:])
        sys.exit("the analysis driver does not build")

def errors(text):
    """compiler error messages with their place"""
    out, cur = [], None
    for l in text.splitlines():
        if re.match(r"error(\[E\d+\])?:", l):
            cur = [l.strip()]
            out.append(cur)
        elif cur is not None and "-->" in l and len(cur) < 2:
            cur.append(l.strip())
            cur = None
        elif "panicked at" in l:
            out.append([l.strip()])
    return [" ".join(x) for x in out if "aborting due to" not in x[0] and "could not compile" not in x[0]][:12]

def cargo(cmd, cwd, e, limit):
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=max(5, limit))
        return r.returncode, r.stdout + r.stderr, time.time() - t
    except subprocess.TimeoutExpired as x:
        dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return None, dec(x.stdout) + dec(x.stderr), time.time() - t

def analyse(prop, crate_dir, e, scratch, name, t0, target_crate=None, extra=None, release=False):
    """run the driver over one crate; returns (result, problem)"""
    out = os.path.join(scratch, name + ".json")
    x = dict(e, RUSTC_WRAPPER=DRIVER, STROKELINT_PROP=prop, STROKELINT_OUT=out,
             RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0",
             CARGO_TARGET_DIR=os.path.join(scratch, name), CARGO_INCREMENTAL="0")
    if release:
        x["RUSTFLAGS"] += " -Cdebug-assertions=off"
    if extra:
        x["STROKE_EXTRA"] = extra
        x["RUSTFLAGS"] += " --cfg stroke_extra"
    if target_crate:
        x["STROKELINT_CRATE"] = target_crate
    rc, log, _ = cargo(["cargo", "+nightly", "check", "--offline", "--lib"], os.path.join(V, crate_dir), x, LIMIT - (time.time() - t0))
    if rc is None:
        return None, ("terminates", "the analysis did not finish within its time limit", [])
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
        if rc != 0:
            res["problem"] = errors(log)
        return res, None
    return None, ("the program is accepted by the compiler and the analysis", "no result: " + ("; ".join(errors(log)) or log[-600:]), errors(log))

KNOWN_LITERALS = {6, 9, 12, 27, 54, 64}
def literals():
    """sizes that occur in the library's source (tests and comments left out): the code may treat
    instances around them differently, so such instances are analysed besides the fixed ones"""
    num, pair = set(), set()
    for d, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(d, f), errors="replace") as h:
                t = h.read()
            t = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', " ", t, flags=re.S)
            t = re.sub(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{.*", " ", t, flags=re.S)
            n = r"(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:(?:[ui](?:8|16|32|64|128|size))|\.0*(?:_?f\d+)?)?"
            val = lambda x: int(x.replace("_", ""), 0) if not re.match(r"0\d", x) else int(x.replace("_", ""))
            num |= {val(m) for m in re.findall(r"(?<![\w.])(?<!e-)(?<!E-)" + n + r"(?![\w.])", t)}
            m = r"(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?"
            for a, o, b in re.findall(r"(?<![\w.])" + m + r"\s*(<<|\*|\+|-)\s*" + m + r"(?![\w.])", t):
                a, b = val(a), val(b)
                pair.add(a * b if o == "*" else a + b if o == "+" else a - b if o == "-" else (a << b if b < 8 else 0))
    new = {x for x in num | pair if 6 <= x <= 128} - KNOWN_LITERALS
    return sorted(new)[:6]

def extra_instances(scratch):
    """harness instances around the literals of the library that are new"""
    with open(os.path.join(V, "harness/src/lib.rs")) as f:
        base = f.read()
    have = set(re.findall(r"^\w+!\((\w+),", base, re.M))
    out = []
    def add(mac, name, *args):
        if name not in have:
            have.add(name)
            out.append("%s!(%s, %s);" % (mac, name, ", ".join(str(x) for x in args)))
    lits = literals()
    for v in lits:
        for d in (v, v + 1):
            add("pointn", "v%d" % d, d)
            if d <= 40:
                add("points", "p%d" % d, "PointN<f64, %d>" % d, d)
        for n in (v, v + 1, v + 2):
            add("beziers", "p1_b%d" % n, "p1", n)
            add("beziers_d", "p1_bd%d" % n, "p1", n)
        for g, cs in ((1, (v - 2, v - 1, v, v + 1, 2 * v + 8)), (3, (v + 1, 2 * v + 6))):
            for c in cs:
                if g < c <= 130:
                    add("bsplines", "p1_s%d_%d" % (g, c), "p1", g + c + 1, c, g)
                    add("bsplines_d", "p1_sd%d_%d" % (g, c), "p1", g + c + 1, c, g)
        if v <= 12:
            add("bsplines", "p1_s%d_%d" % (v, v + 2), "p1", 2 * v + 3, v + 2, v)
            add("bsplines_d", "p1_sd%d_%d" % (v, v + 2), "p1", 2 * v + 3, v + 2, v)
    if not out:
        return lits, None
    p = os.path.join(scratch, "extra.rs")
    with open(p, "w") as f:
        f.write("\n".join(out) + "\n")
    return lits, p

TARGETS = [("thumbv7em-none-eabihf", "32-bit, no operating system"), ("x86_64-unknown-none", "64-bit, no operating system"), ("riscv32imc-unknown-none-elf", "32-bit, no operating system")]
MORE_TARGETS = [("aarch64-unknown-none", "64-bit, no operating system"), ("thumbv6m-none-eabi", "32-bit, no operating system, no atomics"), ("msp430-none-elf", "16-bit, no operating system")]

def cross(e, scratch, t0, thorough):
    """type-check core and the library alone for targets that have no std"""
    ob, viol, samples = 0, [], []
    for t, what in TARGETS + (MORE_TARGETS if thorough else []):
        ob += 1
        x = dict(e, CARGO_TARGET_DIR=os.path.join(scratch, "bare"), CARGO_INCREMENTAL="0")
        rc, log, dt = cargo(["cargo", "+nightly", "check", "-Zbuild-std=core", "--target", t, "--offline", "--lib"], os.path.join(V, "bare"), x, LIMIT - (time.time() - t0))
        if rc == 0:
            samples.append("[type-checks without std and alloc] %s (%s): core, num-traits, libm, tinyvec and stroke in %.1f s" % (t, what, dt))
        else:
            er = errors(log)
            viol.append(dict(rule="type-checks without std and alloc", instance=t, what="; ".join(er) or log[-500:], construct=er))
    return ob, viol, samples

EXPECT_PROBE = {
    "C16": ["unsafe function", "unsafe impl", "crate `std`", "crate `alloc`"],
    "C19": ["mutable static", "static with interior mutability", "cell::Cell<f64> in Cached", "foreign item", "call of the foreign function", "address of a value is used as a number", "std::ptr::eq", "addresses of values are compared", "operation on the address", "panic::Location", "sync::atomic::Atomic::<usize>::fetch_add", "io::_print"],
    "C30": ["the field is public", "takes a B-spline by mutable reference", "another public operation makes B-splines"],
}

def known():
    out = []
    p = os.path.join(V, "known_findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\S+) rule=\"(.*?)\" instance=\"(.*?)\" (.*)", l.strip())
        if m:
            out.append(m.groups())
    return out

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build_driver(env())
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    with open(os.path.join(V, "floors.json")) as f:
        floors = json.load(f).get(prop, {})
    e = env()
    build_driver(e)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="strokelint.")
    try:
        viol, extra, samples = [], {}, []
        items = prop in ("C16", "C19")
        lits, more = ([], None) if items else extra_instances(scratch)
        # code that differs between debug and release builds is analysed in both configurations
        both = source_scan.mentions("/repo", DEBUG_WORDS)
        with ThreadPoolExecutor(2) as ex:
            rel = ex.submit(analyse, prop, "bare" if items else "harness", e, scratch, "r", t0, extra=more, release=True) if both else None
            res, problem = analyse(prop, "bare" if items else "harness", e, scratch, "t", t0, extra=more)
            if rel:
                extra["release_configuration"] = "analysed"
                rres, rproblem = rel.result()
                if rproblem and not problem:
                    problem = rproblem
                elif not problem:
                    res["violations"] += [dict(v, instance=v["instance"] + " (release build)") for v in rres["violations"]]
                    res["obligations"] += rres["obligations"]
                    res["discharged"] += rres["discharged"]
                    if rres.get("problem"): res["problem"] = res.get("problem", []) + rres["problem"]
        if lits:
            extra["sizes_from_literals"] = lits
        ob = dis = 0
        if problem:
            viol.append(dict(rule=problem[0], instance="crate stroke", what=problem[1], construct=problem[2]))
            ob += 1
            res = {}
        else:
            ob, dis = res["obligations"], res["discharged"]
            viol += res["violations"]
            samples += res["samples"]
            if res.get("problem"):
                ob += 1
                viol.append(dict(rule="the library is accepted by the compiler", instance="crate stroke", what="; ".join(res["problem"]), construct=res["problem"]))
            # floors: a rule that silently loses its instances must not pass
            # (with a violation at hand the analysis stops early; when its time runs out
            # what was not reached is reported in the evidence, not as a violation)
            stopped = res.get("skipped_runs", 0) > 0 or bool(viol)
            for r, n in floors.get("rules", {}).items():
                if stopped: n = 0 if viol else 1
                got = res["rules"].get(r, {}).get("obligations", 0)
                if got < n:
                    viol.append(dict(rule="machinery", instance=r, what="only %d instances of the rule were analysed, at least %d are required" % (got, n), construct=[]))
            if not stopped and len(res.get("entry_points", [])) < floors.get("entry_points", 0):
                viol.append(dict(rule="machinery", instance="entry points", what="%d entry points analysed, %d required" % (len(res["entry_points"]), floors["entry_points"]), construct=[]))
        if prop in EXPECT_PROBE and not problem:
            # positive examples: the item rules must fire on the probe crate
            pr, pp = analyse(prop, "probe", e, scratch, "p", t0, "stroke_probe")
            if pp:
                viol.append(dict(rule="machinery", instance="probe crate", what=pp[1], construct=pp[2]))
            else:
                whats = [v["what"] for v in pr["violations"]]
                for w in EXPECT_PROBE[prop]:
                    if not any(w in x for x in whats):
                        viol.append(dict(rule="machinery", instance="probe crate", what="the rules no longer report: " + w, construct=whats))
                if prop == "C16" and not any("unsafe" in x for x in pr.get("problem", [])):
                    viol.append(dict(rule="machinery", instance="probe crate", what="unsafe code was accepted", construct=[]))
                extra["probe_reports"] = len(whats) + len(pr.get("problem", []))
        if prop == "C16":
            good, seen = source_scan.selftest()
            if not good:
                viol.append(dict(rule="machinery", instance="source scan", what="the scan of its sample reports %r" % (seen,), construct=[]))
            rule = "no std, alloc or unsafe in any configuration"
            found, files, toks = source_scan.crate("/repo")
            ob += max(1, files)
            dis += max(0, files - len(found))
            viol += [dict(rule=rule, instance="crate stroke", what=w, construct=[p]) for p, w in found]
            if files < 8:
                viol.append(dict(rule="machinery", instance=rule, what="only %d source files were found" % files, construct=[]))
            samples.insert(0, "[%s] %d tokens of %d files, whatever cfg they stand behind" % (rule, toks, files))
            o, v, s = cross(e, scratch, t0, tier == "thorough")
            ob += o
            dis += o - len(v)
            viol += v
            samples = s + samples
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kn = known()
    new = []
    for v in viol:
        k = [x for x in kn if x[0] == prop and x[1] == v["rule"] and x[2] == v["instance"]]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0][3]))
        else:
            new.append(v)
    rules = res.get("rules", {})
    what = ("The compiler's own type-checked program (items and MIR) of crate stroke was inspected: %d items, %d MIR basic blocks." % (res.get("items", 0), res.get("mir_blocks", 0)) if items else
            "Abstract interpretation of the MIR of %d library functions (instances) reached from %d entry points: %d abstract runs, %d trace partitions, %d MIR statements; values are tracked as normal forms over symbolic inputs and compared with the form the property requires." % (
                res.get("library_instances", 0), len(res.get("entry_points", [])), res.get("abstract_runs", 0), res.get("trace_partitions", 0), res.get("mir_statements_interpreted", 0)))
    cov = dict(explanation=what + " Rules and obligations: " + "; ".join("%s: %d of %d discharged" % (r, x["discharged"], x["obligations"]) for r, x in sorted(rules.items())) + ".",
               obligations=ob, discharged=dis, rules=rules, samples=samples[:40])
    for k in ("library_instances", "abstract_runs", "trace_partitions", "mir_statements_interpreted", "functions", "entry_points", "library_bodies", "negative_controls", "items", "mir_blocks", "analysis_s", "skipped_runs", "inconclusive"):
        if k in res:
            cov[k] = res[k]
    cov.update(extra)
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="other", coverage=cov,
              assumptions=ASSUME_ITEMS if items else ASSUME_VALUE, wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(V, "evidence", prop + ".violations.json")
    if new:
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:8]:
            print("%s: [%s] %s: %s" % (prop, v["rule"], v["instance"], v["what"][:900]))
            for c in v["construct"][:12]:
                print("    at " + c)
        print("%d undischarged of %d obligations" % (max(len(new), res.get("undischarged", 0)), ob))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if os.path.exists(rp):
        os.remove(rp)
    if res.get("skipped_runs"):
        print("%s: incomplete, %d runs were not finished within the time limit" % (prop, res["skipped_runs"]))
    if res.get("inconclusive"):
        print("%s: not settled for deepened instances: %s" % (prop, ", ".join("%s %d" % x for x in sorted(res["inconclusive"].items()))))
    print("%s: %d obligations discharged in %.1f s (%s)" % (prop, dis, time.time() - t0, tier))

if __name__ == "__main__":
    main()
