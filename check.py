#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

usage: check.py PROPERTY [quick|thorough]      (default: $VERIF_TIER or quick)
exit 0: the property held on everything explored; 1: VIOLATION lines; 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")

_SEG_T = "explicit-state exhaustive exploration of the real segmentation code against an executable UAX model"
_SEG_N = ("Bounded exhaustive: every class string up to the length bound over all classes, longer strings over rule clusters, pumped runs up to 65537, every "
          "code point in contexts that tell all classes apart, ASCII triples, neighbours of one block and look-alikes (equal low bits), on the real code. Trusts the reference model (validated on the official test vectors in "
          "every run) and tables derived independently from the Unicode data files.")
_CASE_T = "explicit-state exhaustive exploration of the real conversion code against an executable model of the case mapping rules"
_CASE_N = ("Bounded exhaustive: every string up to the length bound over one code point per combination of the relevant properties, pumped runs, long histories, every "
           "code point and out-of-range values between all pairs of neighbours, look-alike and same-block pairs. Trusts the model and tables derived independently from the Unicode data files.")
_BIDI_T = "explicit-state exhaustive exploration of the real bidirectional code against an executable UAX #9 model"
_BIDI_N = ("Bounded exhaustive: every class string up to the length bound, deeper clusters, pumped runs and distances up to 65537, every code point and its look-alikes, on the real code. Trusts the model, "
           "which reproduces all official vectors (BidiTest, BidiCharacterTest) in every run, and tables derived independently from the Unicode data files.")
_BO = ["bidi", "bidichar"]
CHECKS = {
    "C01": dict(runs=[dict(harness="utf8")], technique="exhaustive enumeration of the decoder's state space on the real code against a grammar-table model",
                note="All 2^32 four-byte windows and every shorter length limit are decoded by the real code; longer inputs over a boundary byte alphabet in the thorough tier. Trusts the model's table of well-formed sequences (Unicode table 3-7)."),
    "C02": dict(runs=[dict(harness="utf8")], technique="exhaustive enumeration of all 2^32 values and all buffer sizes on the real code against a model encoder",
                note="Every 32-bit value with every buffer size from 0 to 6 and NULL; round trip through the decoder. Complete for the stated property; trusts the model encoder."),
    "C04": dict(runs=[dict(harness="gcstate")], oracle="char", technique="explicit-state reachability: breadth-first closure of all reachable 16-bit states over all class pairs, in product with a segmentation model",
                note="The product of the library's state word and the reference automaton is closed under every class pair (fixpoint reached), so agreement holds for texts of every length over the class representatives; every code point is tried in telling contexts."),
    "C03": dict(runs=[dict(harness="seg")], oracle="char", technique=_SEG_T, note=_SEG_N),
    "C05": dict(runs=[dict(harness="seg")], oracle="word", technique=_SEG_T, note=_SEG_N),
    "C06": dict(runs=[dict(harness="seg")], oracle="sent", technique=_SEG_T, note=_SEG_N),
    "C07": dict(runs=[dict(harness="seg")], oracle="line", technique=_SEG_T, note=_SEG_N),
    "C08": dict(runs=[dict(harness="eq")], technique="exhaustive exploration of all texts to a bound times every starting break and cut on the real code",
                note="Progress, tiling, and restart and cut invariance are relations between calls of the same library; all class strings up to the bound in both encodings, all byte strings over a boundary alphabet."),
    "C09": dict(runs=[dict(harness="eq")], technique="exhaustive exploration of all byte strings to a bound on the real code, the UTF-8 functions against the code point functions",
                note="Relates both variants of the same library through the model decoder of C01."),
    "C10": dict(runs=[dict(harness="eq")], technique="exhaustive exploration of all texts to a bound on the real code, NUL-terminated against length-delimited calls",
                note="Input ends at an inaccessible page in turn with differing bytes behind the NUL; segmentation, case and paragraph functions in both encodings."),
    "C11": dict(runs=[dict(harness="case")], technique=_CASE_T, note=_CASE_N),
    "C12": dict(runs=[dict(harness="case")], technique=_CASE_T, note=_CASE_N),
    "C13": dict(runs=[dict(harness="case")], oracle="word", technique=_CASE_T, note=_CASE_N +
                " Accepts both readings of Final_Sigma at the end of a titlecased word (context limited to the word or not)."),
    "C14": dict(runs=[dict(harness="case")], technique="exhaustive exploration of detection against conversion on the real code",
                note="Detection and conversion of the same library are compared with each other on every explored text; the conversion itself is judged by C11 - C13."),
    "C15": dict(runs=[dict(harness="case")], technique="exhaustive exploration of all texts to a bound times every destination size on the real code",
                note="Every destination size from 0 to two beyond the complete length, NULL included, with poisoned surroundings."),
    "C16": dict(runs=[dict(harness="eq"), dict(harness="eq", variant="asan", **{"as": "C16small"}), dict(harness="eq", variant="msan", **{"as": "C16small"})],
                technique="exhaustive exploration of all texts to a bound on the real code with exact-size buffers between inaccessible pages, and again in sanitised builds",
                note="Input on read-only pages ending or beginning at an inaccessible page, output of exactly the given size; smaller bounds under address, undefined-behaviour and memory sanitiser."),
    "C17": dict(runs=[dict(harness="bidi")], oracle=_BO, technique=_BIDI_T, note=_BIDI_N),
    "C18": dict(runs=[dict(harness="bidi")], oracle=_BO, technique=_BIDI_T, note=_BIDI_N),
    "C19": dict(runs=[dict(harness="bidi")], oracle=_BO, technique=_BIDI_T, note=_BIDI_N +
                " Canonical equivalents of brackets pair with each other, as the official character tests require."),
    "C20": dict(runs=[dict(harness="bidi")], oracle=_BO, technique=_BIDI_T, note=_BIDI_N +
                " Every short continuation of 15 patterns of 58 - 65 and 120 - 128 nested initiators."),
    "C21": dict(runs=[dict(harness="bidi")], oracle=_BO, technique=_BIDI_T, note=_BIDI_N + " Every slice of every explored paragraph is tried as a line."),
    "C22": dict(runs=[dict(harness="bidi")], oracle=_BO, technique=_BIDI_T, note="Every code point at even and odd levels, and all strings over ten telling characters. " +
                "Trusts the level model and the mirroring table derived independently from BidiMirroring.txt. The mirroring at even levels, which the existing tests pin, is a known finding."),
    "C23": dict(runs=[dict(harness="bidi"), dict(harness="bidi", variant="asan"), dict(harness="bidi", variant="msan")], oracle=_BO, technique="exhaustive exploration of all paragraphs to a bound times every size of every output buffer on the real code",
                note="Every size from 0 to beyond the need for each of the three functions, each buffer against inaccessible pages on both sides. Sizes equal to the "
                     "number of characters may give the complete or the placeholder output, as the documentation leaves it open."),
    "C24": dict(runs=[dict(harness="pure", relink=True, extra=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=strdup"])],
                technique="explicit-state reachability over the library's hidden state: every operation in every reachable content of its writable static memory, to closure",
                note="Alphabet of all 26 functions on texts that reach their special paths, in all modes. Closure over the hidden state covers histories of any length over this alphabet; "
                     "histories of two (three) calls are also executed outright. Static memory of the C library is not part of the hidden state."),
    "C25": dict(runs=[dict(harness="sched", variant="sched", relink=True)],
                technique="systematic exploration of thread interleavings of the real code under a controlled scheduler, with partial-order reduction over recorded memory accesses",
                note="Every memory access of the library is a scheduling point. Recorded accesses show that no two calls conflict, which makes all interleavings of the recorded calls equivalent; "
                     "interleavings up to the preemption bound are executed as well. Sequentially consistent memory; a shared write without atomics is reported as a data race."),
    "C26": dict(runs=[dict(harness="seg"), dict(harness="case"), dict(harness="bidi")], oracle=["char", "word", "sent", "line", "bidi", "bidichar"],
                technique="exhaustive exploration of all unassigned code points and of out-of-range values in telling contexts on the real code against the executable models",
                note="Every unassigned code point in contexts that tell the classes apart; values above U+10FFFF at every power of two, table step and as aliases of special characters in high bits, not all 2^32."),
}
VECTORS = {"char": "GraphemeBreakTest", "word": "WordBreakTest", "sent": "SentenceBreakTest", "line": "LineBreakTest",
           "bidi": "BidiTest", "bidichar": "BidiCharacterTest"}

BASE = ["-I."]
VARIANTS = {
    # the library exactly as the Makefile builds it
    "plain": dict(make=[], link=[]),
    # address and undefined-behaviour sanitiser
    "asan": dict(make=["CC=clang", "CFLAGS=-std=c99 -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"],
                 link=["-fsanitize=address,undefined"], hcc="clang"),
    # reads of uninitialised memory
    "msan": dict(make=["CC=clang", "CFLAGS=-std=c99 -O1 -g -fno-omit-frame-pointer -fsanitize=memory"], link=["-fsanitize=memory"], hcc="clang"),
    # every memory access of the library becomes a call into the controlled scheduler
    "sched": dict(make=["CC=clang", "CFLAGS=-std=c99 -O1 -g -fsanitize=thread -fno-builtin"], link=[], hcc="gcc"),
}


class CheckError(Exception):
    pass


def run(cmd, cwd=None, env=None, timeout=None, stdin=None):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdin=stdin, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")


def tree_copy(dst):
    """the working tree without anything that was built in it"""
    skip = {"_build", ".git"}
    gen = {f[:-2] for f in os.listdir(os.path.join(REPO, "gen")) if f.endswith(".c") and f != "util.c"}
    test = {f[:-2] for d in ("test", "benchmark") if os.path.isdir(os.path.join(REPO, d))
            for f in os.listdir(os.path.join(REPO, d)) if f.endswith(".c")}

    def ignore(d, names):
        rel = os.path.relpath(d, REPO)
        out = set()
        for n in names:
            if rel == "." and n in skip:
                out.add(n)
            elif n.endswith((".o", ".a", ".d", ".so")) or ".so." in n:
                out.add(n)
            elif rel == "gen" and (n in gen or (n.endswith(".h") and n[:-2] in gen) or n == "util"):
                out.add(n)
            elif rel in ("test", "benchmark") and n in test:
                out.add(n)
        return out
    shutil.copytree(REPO, dst, ignore=ignore, symlinks=True)


def make(tree, args, target="libgrapheme.a"):
    env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MAKEFILES")}
    env["LC_ALL"] = "C.UTF-8"
    r = run(["make", "-C", tree, "--no-print-directory", "-j8", target] + args, env=env, timeout=600)
    if r.returncode != 0:
        raise CheckError("building the library failed:\n" + r.stdout[-3000:])


def build_variants(scratch, variants):
    base = os.path.join(scratch, "plain")
    tree_copy(base)
    make(base, [])
    # a second object directory reuses the generated tables
    dirs = {"plain": base}
    for v in variants:
        if v in dirs:
            continue
        d = os.path.join(scratch, v)
        shutil.copytree(base, d, symlinks=True)
        for root, _, files in os.walk(d):
            for f in files:
                if f.endswith((".o", ".a", ".d")) and not os.path.relpath(root, d).startswith("gen"):
                    os.unlink(os.path.join(root, f))
        # objects only: the generators stay as they are
        make(d, ["-o", "gen/util.o"] + VARIANTS[v]["make"])
        dirs[v] = d
    return dirs


def compile_harness(scratch, name, variant, libdir, extra, relink=False):
    out = os.path.join(scratch, "h_%s_%s" % (name, variant))
    if os.path.exists(out):
        return out
    v = VARIANTS[variant]
    lib = os.path.join(libdir, "libgrapheme.a")
    if relink:
        # one object whose writable static memory lies in sections that the harness can find
        obj = os.path.join(scratch, "lib_%s.o" % variant)
        r = run(["ld", "-r", "-d", "-T", os.path.join(H, "relink.ld"), "--whole-archive", lib, "-o", obj], timeout=300)
        if r.returncode != 0:
            raise CheckError("relinking the library failed:\n" + r.stdout[-3000:])
        lib = obj
    cmd = [v.get("hcc", "gcc"), "-std=gnu11", "-O2", "-g", "-w", "-I" + libdir, os.path.join(H, name + ".c"),
           lib, "-o", out, "-pthread"] + v["link"] + extra
    r = run(cmd, timeout=300)
    if r.returncode != 0:
        raise CheckError("compiling harness %s failed:\n%s" % (name, r.stdout[-3000:]))
    return out


def oracle_vectors(scratch, libdir, kinds):
    """the reference must reproduce the official Unicode test vectors before it is used as an oracle"""
    exe = os.path.join(scratch, "refcheck")
    r = run(["gcc", "-std=gnu11", "-O2", "-w", "-I" + libdir, os.path.join(H, "refcheck.c"), "-o", exe], timeout=300)
    if r.returncode != 0:
        raise CheckError("compiling refcheck failed:\n" + r.stdout[-3000:])
    n = 0
    for k in kinds:
        xz = os.path.join(VERIF, "ref", "vectors", VECTORS[k] + ".txt.xz")
        p = subprocess.Popen(["xz", "-dc", xz], stdout=subprocess.PIPE)
        r = run([exe, k], stdin=p.stdout, timeout=300)
        p.stdout.close()
        if p.wait() != 0 or r.returncode != 0:
            raise CheckError("the reference model disagrees with the official vectors %s: %s" % (k, r.stdout[-2000:]))
        n += int(r.stdout.split()[-1])
    return n


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="lgv-%s-" % prop)
    try:
        return check(prop, tier, seed, spec, t0, scratch)
    except CheckError as e:
        print("CHECK ERROR (%s): %s" % (prop, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK ERROR (%s): time limit: %s" % (prop, e))
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("scratch kept: " + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, spec, t0, scratch):
    runs = spec["runs"]
    dirs = build_variants(scratch, sorted({r.get("variant", "plain") for r in runs}))
    t_build = time.time() - t0
    vectors = 0
    if spec.get("oracle"):
        kinds = spec["oracle"] if isinstance(spec["oracle"], list) else [spec["oracle"]]
        vectors = oracle_vectors(scratch, dirs["plain"], kinds)
    total = dict(states=0, transitions=0, traces=0)
    samples, notes, viols, complete, parts = [], [], [], True, []
    for i, r in enumerate(runs):
        if r.get("tier") == "thorough" and tier != "thorough":
            continue
        variant = r.get("variant", "plain")
        exe = compile_harness(scratch, r["harness"], variant, dirs[variant], r.get("extra", []), r.get("relink", False))
        out = os.path.join(scratch, "out%d.json" % i)
        env = dict(os.environ)
        env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0",
                   MSAN_OPTIONS="exitcode=77:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77", VERIF_LIBDIR=dirs[variant],
                   VERIF_SCRATCH=scratch)
        p = run([exe, r.get("as", prop), tier, out], env=env, cwd=scratch, timeout=r.get("timeout", 860 if tier == "quick" else 36000))
        if p.returncode != 0 or not os.path.exists(out):
            raise CheckError("harness %s ended with status %s:\n%s" % (r["harness"], p.returncode, p.stdout[-3000:]))
        res = json.load(open(out))
        for k in total:
            total[k] += res[k]
        tag = "" if len(runs) == 1 else "[%s/%s] " % (r["harness"], variant)
        samples += [tag + s for s in res["samples"]]
        notes += [tag + s for s in res["notes"]]
        complete = complete and res["complete"]
        if p.stdout.strip() and res["violations"]:
            for v in res["violations"]:
                v["log"] = p.stdout[-4000:]
        for v in res["violations"]:
            v["harness"] = r["harness"]
            v["variant"] = variant
        viols += res["violations"]
        parts.append(dict(harness=r["harness"], variant=variant, seconds=res["seconds"], states=res["states"],
                          transitions=res["transitions"], traces=res["traces"]))
        if any(v["sig"] not in known_findings(prop) for v in viols):
            break
    known = known_findings(prop)
    seen_known, new = {}, {}
    for v in viols:
        if v["sig"] in known:
            seen_known.setdefault(v["sig"], v)
        else:
            new.setdefault(v["sig"], v)
    for sig in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[sig]))
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for k, (sig, v) in enumerate(list(new.items())[:10]):
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(sig.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump(dict(property=prop, signature=sig, message=v["msg"], harness=v["harness"], variant=v["variant"],
                           log=v.get("log", ""), rerun="python3 check.py %s %s" % (prop, tier)), f, indent=1)
        print("  %s" % v["msg"][:1200])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not samples:
        samples = ["(none recorded)"]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"),
              coverage=dict(states=total["states"], transitions=total["transitions"],
                            traces_validated_against_impl=total["traces"], samples=samples[:16], bounds=notes,
                            exhaustive=bool(complete), parts=parts),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if vectors:
        ev["coverage"]["official_vectors_reproduced_by_the_oracle"] = vectors
    ev["coverage"]["build_s"] = round(t_build, 2)
    if seen_known:
        ev["coverage"]["known_findings_seen"] = sorted(seen_known)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d states, %d transitions, %d traces, %d violation(s), %.1f s" % (
        prop, tier, total["states"], total["transitions"], total["traces"], len(new), time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
