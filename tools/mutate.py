#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes to the sources of a scratch copy of /repo, judged by the checks.

mutate.py DIR SEED COUNT [file substring]   works in DIR (made when missing: copies of /repo and /verif) and appends to DIR/log."""
import os, random, re, shutil, subprocess, sys

CHECKS = [("bland/ndarray.cpp", "P01 P02 P06 P04 P08"), ("ndarray_slice.cpp", "P01"), ("ndarray_deferred", "P07"), ("bland_tensor_internals", "P01 P02 P06"),
          ("shape_helpers", "P02 P03 P01"), ("dispatcher.hpp", "P02 P03 P04 P05"), ("ops/ops.cpp", "P01 P02 P06 P03"), ("arithmetic", "P02"),
          ("comparison", "P03"), ("statistical", "P04 P05"), ("creators", "P06"), ("elementwise", "P02 P03"), ("assignment_op", "P01 P02 P06"), ("ops_cpu", "P01 P06 P02"),
          ("io/", "P06"), ("file_io", "P06"), ("count", "P03"),
          ("core/scan.cpp", "P08 P09 P10 P20 P21"), ("core/cadence.cpp", "P10 P20 P11 P22"), ("coarse_channel", "P09 P08 P20 P11 P13 P15 P17"), ("hit.cpp", "P20 P21"), ("hit.hpp", "P20 P19 P17"),
          ("noise_power", "P12 P15"), ("frequency_drift_plane", "P13 P15 P17"), ("h5_filterbank", "P08"), ("cpnp", "P20"), ("dat_file", "P21"),
          ("hits_file", "P21"), ("events_file", "P20"), ("raii", "P20 P21"), ("flaggers", "P11"), ("estimators", "P11 P12"), ("preprocess", "P22"),
          ("integrate_drifts", "P13 P14"), ("drift_integration", "P13 P14"), ("connected_components", "P15 P17"), ("local_maxima", "P16 P17"), ("hit_search", "P17 P15"),
          ("protohit", "P15 P16 P17"), ("filter_hits", "P18"), ("event_search", "P19"), ("bliss_find_hits", "P21"), ("bliss_hits_to_dat", "P21")]
SKIP = ("tests", "_build", "python", "cuda", "clipp", "debug_demo", "generate_channelizer", "/py", ".cu", "random", "benchmark", "fft", "frequency_cpu", "ops/frequency", "drift_integration_bland")
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<=[\w\)\]]) \+ (?=[\w\(])", " - "), (r"(?<=[\w\)\]]) - (?=[\w\(])", " + "), (r"(?<=[\w\)\]]) \* (?=[\w\(])", " / "), (r"(?<=[\w\)\]]) ?/ ?(?=[\w\(])", " * "),
       (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.\"])0(?![\w.\"])", "1"), (r"(?<![\w.\"])1(?![\w.\"])", "2"), (r"(?<![\w.\"])1(?![\w.\"])", "0"),
       (r"(?<![\w.\"])2(?![\w.\"])", "1"), (r"std::max", "std::min"), (r"std::min\b", "std::max"), (r"std::floor", "std::ceil"), (r"std::round", "std::floor"), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"),
       (r"^(\s*)([\w\.\->\[\]\(\)\*]+ ?[+\-*/|&]?= [^=].*;|[\w\.\->\[\]]+\([^;]*\);)\s*$", r"\1;"), (r"std::abs", ""), (r"!(?=[\w(])", ""), (r"\+\+(\w)", r"\1"),
       (r"_raj", "_dej"), (r"_dej", "_raj"), (r"\bfch1\b", "foff"), (r"start_channel", "count")]


def sh(cmd, timeout=900, cwd=None):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=cwd)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -9, ""


def main():
    d, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4] if len(sys.argv) > 4 else ""
    rng = random.Random(seed)
    repo, ver = d + "/repo", d + "/verif"
    if not os.path.exists(ver):
        os.makedirs(d, exist_ok=True)
        sh("git clone -q /repo %s && git clone -q /verif %s && rm -rf %s/seeded" % (repo, ver, ver))
        sh("sed -i 's|-S /repo|-S %s|' %s/build.sh" % (repo, ver))
        rc, out = sh("%s/build.sh" % ver)
        if rc:
            sys.exit(out[-2000:])
    files = [f for f in sh("git ls-files", cwd=repo)[1].split() if f.endswith((".cpp", ".hpp")) and not any(s in "/" + f for s in SKIP)]
    files = [f for f in files if only in f and any(k in f for k, _ in CHECKS)]
    cands = []
    for f in files:
        comment = False
        for n, line in enumerate(open(os.path.join(repo, f))):
            s = line.strip()
            if s.startswith("/*"):
                comment = True
            if comment:
                comment = "*/" not in s
                continue
            if not s or s.startswith(("//", "#", "*", "template", "using", "case", "}", "fmt::print", "throw")) or "fmt::" in s or "constexpr std::array" in s:
                continue
            code = line.split("//")[0]
            for o, (pat, rep) in enumerate(OPS):
                for m in re.finditer(pat, code):
                    if "template" in code or "cuda" in code or "operator" in code or (o in (6, 7) and "constexpr" in code):
                        continue
                    cands.append((f, n, m.start(), m.end(), m.expand(rep), o))
    byfile = {}
    for c in cands:
        byfile.setdefault(c[0], []).append(c)
    log = open(d + "/log", "a", buffering=1)
    tried = 0
    while tried < count:
        f = rng.choice(sorted(byfile))
        if not byfile[f]:
            continue
        _, n, a, b, rep, o = byfile[f].pop(rng.randrange(len(byfile[f])))
        p = os.path.join(repo, f)
        src = open(p).read().split("\n")
        old = src[n]
        src[n] = old[:a] + rep + old[b:]
        if src[n] == old:
            continue
        tried += 1
        open(p, "w").write("\n".join(src))
        verdict = "SURVIVED"
        rc, out = sh("%s/build.sh" % ver, 600)
        if rc:
            verdict = "does not build"
        else:
            checks = next(c for k, c in CHECKS if k in f).split()
            odd = []
            for c in checks:
                rc, out = sh("VERIF_NOBUILD=1 VERIF_SEED=%d python3 %s/check.py %s quick" % (rng.randint(1, 9), ver, c), 600)
                if rc == 1 and "VIOLATION" in out:
                    verdict = "caught by " + c
                    break
                if rc:
                    odd.append("%s rc=%d %s" % (c, rc, " ".join(out[-300:].split())))
            if odd and verdict == "SURVIVED":
                verdict = "NO ANSWER " + "; ".join(odd)
        log.write("%s | %s:%d | %s  ==>  %s\n" % (verdict, f, n + 1, old.strip(), src[n].strip()))
        sh("git checkout -q -- .", cwd=repo)
    shutil.rmtree(d + "/verif/work", ignore_errors=True)


main()
