#!/usr/bin/env python3
"""Builds the harness of a property from /repo's working tree and runs its check.

  check.py PROPERTY [--tier quick|thorough]      the registered commands
  check.py --build HARNESS                       only build
  check.py --replay FILE                         re-run a replay file
  check.py --determinism PROPERTY N              run N seeds three times and compare
"""
import glob, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GSIM_REPO", "/repo")
B = os.environ.get("GSIM_BUILD", os.path.join(V, ".build"))
T0 = time.time()

CXX = "clang++"
BASE = f"-std=c++17 -w -include cstdint -ftemplate-depth=1024 -pthread -fPIC -DDEBUG -DGEM_TESTING -DBOOST_ALL_DYN_LINK -I{B}/gen/include -I{REPO}/include -I{V}"
TSAN = "-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -mllvm -tsan-instrument-memintrinsics=0"
BOOST = "-lboost_date_time -lboost_filesystem -lboost_iostreams -lboost_program_options -lboost_regex -lboost_serialization -lboost_system -lboost_timer -lboost_chrono -lboost_unit_test_framework -lboost_thread"

# harness -> (harness sources, needs, properties)
HARNESS = {
    "common":   dict(src=["harness/h_common.cpp"], libs=["common"], opt="-O1 " + TSAN),
    "hap":      dict(src=["harness/h_hap.cpp"], libs=["common", "hap"], opt="-O1 " + TSAN, defs="-DGENEVA_HAP_RANDOM_FACTORY_DEFAULT_ARRAY_SIZE=8 -DGENEVA_HAP_RANDOM_FACTORY_DEFAULT_BUFFER_SIZE=3 -DGENEVA_HAP_RANDOM_FACTORY_SEED_VECTOR_SIZE=40"),
    "courtier": dict(src=["harness/h_local.cpp", "harness/h_asio.cpp", "harness/h_ws.cpp"], libs=["common-all", "hap", "courtier"], opt="-O1 " + TSAN),
    "geneva":   dict(src=["harness/h_geneva.cpp", "harness/h_store.cpp", "harness/h_go2.cpp", "harness/h_ext.cpp"], libs=["common-all", "hap", "courtier", "geneva"], opt="-O1 " + TSAN, defs="-DGENEVA_HAP_RANDOM_FACTORY_DEFAULT_BUFFER_SIZE=20"),
}
PROPS = {}
for p in "C01 C02 C03 C04 C05 C06 C07".split(): PROPS[p] = "common"
for p in "C08 C09".split(): PROPS[p] = "hap"
for p in "C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22".split(): PROPS[p] = "courtier"
for p in "C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35".split(): PROPS[p] = "geneva"
# seconds of search per property: quick, thorough
TIME = {}
DEFAULT_TIME = (20, 600)


def src(*pat):
    out = []
    for p in pat:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    return out


def gen_defines():
    """common/GGlobalDefines.hpp is generated by cmake in the tree; make our own."""
    t = open(f"{REPO}/include/common/GGlobalDefines.hpp.in").read()
    cm = ""
    for f in ("CMakeLists.txt", "CMakeModules/CommonGenevaBuild.cmake", "CMakeModules/GenevaVersions.cmake"):
        if os.path.exists(f"{REPO}/{f}"):
            cm += open(f"{REPO}/{f}").read()
    def var(n, d):
        m = re.search(r"SET\s*\(\s*" + n + r"\s+\"?([^\s\")]+)", cm, re.I)
        return m.group(1) if m and "$" not in m.group(1) else d
    t = t.replace("@GENEVA_API_VERSION@", var("GENEVA_API_VERSION", "01100"))
    t = t.replace("@GENEVA_MIN_BOOST_API_VERSION@", var("GENEVA_MIN_BOOST_API_VERSION", "107000"))
    t = t.replace("@GENEVA_MIN_BOOST_VERSION@", var("GENEVA_MIN_BOOST_VERSION", "1.70"))
    d = f"{B}/gen/include/common"
    os.makedirs(d, exist_ok=True)
    write_if_changed(f"{d}/GGlobalDefines.hpp", t)


def write_if_changed(f, t):
    if not os.path.exists(f) or open(f).read() != t:
        with open(f, "w") as o:
            o.write(t)


HEAVY = ("GPlotDesigner.cpp", "GFormulaParserT.cpp", "GParserBuilder.cpp")


def lib_objects(lib, opt_instr):
    """[(name, source, flags)] of a group of repository sources"""
    r = []
    if lib in ("common", "common-all"):
        for s in src("src/common/*.cpp"):
            b = os.path.basename(s)
            if b in HEAVY:
                if lib == "common-all":
                    r.append((f"common_{b}", s, "-O0"))
            else:
                r.append((f"common_{b}", s, "-O1 " + TSAN))
    elif lib == "hap":
        for s in src("src/hap/*.cpp"):
            r.append((f"hap_{os.path.basename(s)}", s, "-O1 " + TSAN))
    elif lib == "courtier":
        for s in src("src/courtier/*.cpp"):
            if "MPI" in os.path.basename(s):
                continue
            r.append((f"courtier_{os.path.basename(s)}", s, "-O1 " + TSAN))
    elif lib in ("geneva",):
        files = [f for f in src("src/geneva/*.cpp") if not os.path.basename(f).startswith("GMPI")]
        files += [f for n in ("GFunctionIndividual", "GExternalEvaluatorIndividual") for f in src(f"src/geneva-individuals/{n}.cpp")]
        files.sort(key=lambda f: (-os.path.getsize(f), f))
        n = 8
        for i in range(n):
            chunk = files[i::n]
            u = f"{B}/gen/geneva_{i}.cpp"
            write_if_changed(u, "".join(f'#include "{f}"\n' for f in chunk))
            r.append((f"geneva_{i}", u, "-O0"))
    return r


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, **kw)


def build(h, extra_libs=(), unity=True):
    os.makedirs(f"{B}/gen", exist_ok=True)
    gen_defines()
    H = HARNESS[h]
    libs = list(H["libs"]) + list(extra_libs)
    objs = []
    out = [f"rule cc\n  command = {CXX} {BASE} $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n",
           f"rule link\n  command = {CXX} -rdynamic -fuse-ld=lld -o $out $in $libs\n"]
    def add(name, s, flags):
        o = f"{B}/{h}/{name}.o"
        objs.append(o)
        out.append(f"build {o}: cc {s}\n  flags = {flags} {H.get('defs', '')}\n")
    hobjs = [(f"h_{i}", os.path.join(V, s), H["opt"] + " -fno-omit-frame-pointer") for i, s in enumerate(H["src"])]
    # largest first
    for n, s, f in hobjs: add(n, s, f)
    for n, s, f in H.get("extra", lambda: [])(): add(n, s, f)
    for l in libs:
        for n, s, f in lib_objects(l, H["opt"]):
            if unity or not n.startswith("geneva_"):
                add(n, s, f)
            else:
                for k, line in enumerate(open(s).read().splitlines()):
                    m = re.match(r'#include "(.*)"', line)
                    if m: add(f"{n}_{k}", m.group(1), f)
    for s in ("sim", "mem", "net", "fs", "driver"):
        if os.path.exists(f"{V}/sim/{s}.cpp"):
            add(f"sim_{s}", f"{V}/sim/{s}.cpp", "-O2")
    exe = f"{B}/{h}/{h}"
    out.append(f"build {exe}: link {' '.join(objs)}\n  libs = {BOOST} -ldl -lpthread\n")
    os.makedirs(f"{B}/{h}", exist_ok=True)
    nf = f"{B}/{h}/build.ninja"
    write_if_changed(nf, "\n".join(out))
    r = subprocess.run(["ninja", "-C", B, "-f", nf, exe], capture_output=True, text=True)
    return exe, r


def build_any(h):
    exe, r = build(h)
    if r.returncode:
        err = r.stdout + r.stderr
        if "undefined symbol" in err or "undefined reference" in err:
            if "common" in HARNESS[h]["libs"]:
                HARNESS[h]["libs"] = ["common-all" if l == "common" else l for l in HARNESS[h]["libs"]]
                exe, r = build(h)
        if r.returncode and "geneva" in HARNESS[h]["libs"] and "/geneva_" in r.stdout + r.stderr:
            exe, r = build(h, unity=False)
    if r.returncode:
        sys.stdout.write((r.stdout + r.stderr)[-6000:])
        print("BUILD-ERROR: harness does not compile against the tree")
        sys.exit(3)
    return exe


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 3
    if a[0] == "--build":
        for h in (a[1:] or HARNESS): build_any(h)
        return 0
    if a[0] == "--replay":
        prop = re.search(r"^property (\S+)", open(a[1]).read(), re.M).group(1)
        exe = build_any(PROPS[prop])
        return subprocess.call([exe, "--replay", os.path.abspath(a[1])])
    if a[0] == "--determinism":
        exe = build_any(PROPS[a[1]])
        return subprocess.call([exe, "--prop", a[1], "--determinism", a[2]])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = os.environ.get("VERIF_SEED", "1")
    h = PROPS[prop]
    exe = build_any(h)
    tq, tt = TIME.get(prop, DEFAULT_TIME)
    secs = tq if tier == "quick" else tt
    if "--time" in a: secs = float(a[a.index("--time") + 1])
    os.makedirs(f"{V}/evidence", exist_ok=True)
    rd = f"{V}/replays"
    os.makedirs(rd, exist_ok=True)
    cmd = [exe, "--harness", h, "--prop", prop, "--tier", tier, "--seed", seed, "--time", str(secs), "--evidence", f"{V}/evidence/{prop}.json",
           "--replay-dir", rd, "--known", f"{V}/known_findings.txt", "--t0", str(T0)]
    if "--scenario" in a: cmd += ["--scenario", a[a.index("--scenario") + 1]]
    if "--runs" in a: cmd += ["--runs", a[a.index("--runs") + 1]]
    print(f"build: {time.time()-T0:.1f} s", flush=True)
    return subprocess.call(cmd)


if __name__ == "__main__":
    sys.exit(main())
