#!/usr/bin/env python3
"""Builds one simulation harness from /repo's current working tree (hooks on)
and runs the seeded search for one property.

  run_check.py <property> [--tier quick|thorough] [--replay FILE] [extra driver args]
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("PHASAR_SRC", "/repo")
BLD = os.environ.get("PHASAR_SIM_BUILD") or os.path.join(V, ".build")
sys.path.insert(0, V)
from targets import TARGETS  # noqa: E402

CXX = "clang++-14"
LLVM = "/usr/lib/llvm-14"


def gen_config():
    d = os.path.join(BLD, "gen", "phasar", "Config")
    os.makedirs(d, exist_ok=True)
    on = {"DYNAMIC_LOG", "PHASAR_HAS_SQLITE"}
    out = []
    for ln in open(os.path.join(R, "config.h.in")):
        m = re.match(r"#cmakedefine\s+(\w+)", ln)
        if m:
            ln = ("#define %s\n" if m.group(1) in on else "/* #undef %s */\n") % m.group(1)
        out.append(ln.replace("@PHASAR_CONFIG_INSTALL_DIR@", ".phasar-config/"))
    p = os.path.join(d, "phasar-config.h")
    s = "".join(out)
    if not os.path.exists(p) or open(p).read() != s:
        with open(p, "w") as f:
            f.write(s)


_h = {}


def fhash(p):
    if p not in _h:
        try:
            with open(p, "rb") as f:
                _h[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _h[p] = "-"
    return _h[p]


def compile_one(src, flags, odir):
    """content-hash cached compile; returns (object, error text or None)"""
    key = hashlib.sha1((src + "\0" + " ".join(flags)).encode()).hexdigest()[:16]
    obj = os.path.join(odir, os.path.basename(src) + "." + key + ".o")
    meta = obj + ".deps"
    if os.path.exists(obj) and os.path.exists(meta):
        deps = json.load(open(meta))
        if all(fhash(p) == h for p, h in deps.items()):
            return obj, None
    dep = obj + ".d"
    r = subprocess.run([CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    txt = open(dep).read().replace("\\\n", " ")
    files = txt.split(":", 1)[1].split()
    deps = {p: fhash(p) for p in files if not p.startswith("/usr/")}
    with open(meta, "w") as f:
        json.dump(deps, f)
    return obj, None


def build(name, quiet=False):
    t = TARGETS[name]
    os.makedirs(BLD, exist_ok=True)
    gen_config()
    odir = os.path.join(BLD, "obj")
    os.makedirs(odir, exist_ok=True)
    base = ["-std=c++17", "-fno-pie", "-g0", "-w", "-ffunction-sections", "-fdata-sections",
            "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
            '-DPHASAR_BUILD_DIR="/nonexistent"', '-DPHASAR_SRC_DIR="%s"' % R,
            "-I" + os.path.join(BLD, "gen"), "-I" + os.path.join(R, "include"), "-I" + LLVM + "/include",
            "-I" + V, "-idirafter", os.path.join(V, "stub"), "-DPHASAR_SIM_HOOKS"]
    repo_flags = base + t.get("repo_flags", ["-O1"])
    chk_flags = base + t.get("check_flags", ["-O1"])
    sim_flags = ["-std=c++17", "-fno-pie", "-g0", "-w", "-O1", "-D_GNU_SOURCE"]
    jobs = [(os.path.join(V, s), chk_flags, odir) for s in t["checks"]]
    jobs += [(os.path.join(V, s), sim_flags, odir) for s in t["sim"]]
    repo = [os.path.join(R, s) for s in t.get("repo", [])]
    missing = [s for s in repo if not os.path.exists(s)]
    whole = bool(missing)
    repo = [s for s in repo if os.path.exists(s)]
    jobs += [(s, repo_flags, odir) for s in repo]

    def run(js):
        objs = []
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            for (src, _, _), (o, e) in zip(js, ex.map(lambda j: compile_one(*j), js)):
                if o is None:
                    print("ERROR: cannot compile %s\n%s" % (src, e[-4000:]))
                    sys.exit(2)
                objs.append(o)
        return objs

    objs = run(jobs)
    exe = os.path.join(BLD, name)
    link = ["-no-pie", "-fuse-ld=lld", "-Wl,--export-dynamic", "-Wl,--gc-sections"]
    libs = t.get("libs", []) + ["-L" + LLVM + "/lib", "-lLLVM-14", "-lpthread", "-ldl"]

    def do_link(objs, extra):
        return subprocess.run([CXX] + link + objs + extra + libs + ["-o", exe + ".tmp"], capture_output=True, text=True)

    def do_link_min(objs):
        return do_link(objs, [])

    r = do_link_min(objs) if not whole else None
    if whole or (r.returncode and "undefined symbol" in r.stderr):
        # code moved between translation units: take the whole library
        print("build: explicit source list is not enough, compiling the whole library" + ("" if whole else "\n" + "\n".join(l for l in r.stderr.split("\n") if "undefined" in l)[:3000]))
        allsrc = sorted(glob.glob(os.path.join(R, "lib", "**", "*.cpp"), recursive=True))
        allsrc = [s for s in allsrc if "/PhasarClang/" not in s and "/PhasarPass/" not in s and s not in repo]
        skip = t.get("skip", [])
        allsrc = [s for s in allsrc if os.path.basename(s) not in skip]
        more = run([(s, repo_flags, odir) for s in allsrc])
        ar = exe + ".a"
        if os.path.exists(ar):
            os.unlink(ar)
        subprocess.run(["ar", "qcs", ar] + more, check=True)
        r = do_link(objs, [ar])
    if r.returncode:
        print("ERROR: link failed\n" + r.stderr[-4000:])
        sys.exit(2)
    os.rename(exe + ".tmp", exe)
    return exe


def target_of(prop):
    for n, t in TARGETS.items():
        if prop in t["props"]:
            return n
    print("ERROR: unknown property " + prop)
    sys.exit(2)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for n in a[1:] or list(TARGETS):
            t0 = time.time()
            build(n)
            print("built %s in %.1fs" % (n, time.time() - t0))
        return 0
    prop = a[0]
    rest = a[1:]
    if "--replay" in rest:
        i = rest.index("--replay") + 1
        rest[i] = os.path.abspath(rest[i])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in rest:
        i = rest.index("--tier")
        tier = rest[i + 1]
        del rest[i:i + 2]
    seed = os.environ.get("VERIF_SEED", "1")
    seed = seed if seed.isdigit() else str(int(hashlib.sha1(seed.encode()).hexdigest()[:8], 16))
    t0 = time.time()
    exe = build(target_of(prop))
    setup = time.time() - t0
    print("build: %s in %.1fs" % (os.path.basename(exe), setup), flush=True)
    out = os.path.join(V, "replays")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cmd = [exe, "--prop", prop, "--tier", tier, "--seed", seed, "--known", os.path.join(V, "KNOWN_FINDINGS.txt"), "--out", out, "--setup-s", "%.1f" % setup]
    if not any(x in rest for x in ("--one", "--replay", "--runs", "--no-evidence")):
        cmd += ["--evidence", os.path.join(V, "evidence", prop + ".json")]
    rest = [x for x in rest if x != "--no-evidence"]
    os.chdir(BLD)
    return subprocess.run(cmd + rest).returncode


if __name__ == "__main__":
    sys.exit(main())
