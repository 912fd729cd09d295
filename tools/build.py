"""Builds the simulator for one property from /repo's working tree (never inside /repo)."""
import os, subprocess, sys, glob, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
RT = ["rt_core", "rt_heap", "rt_fmt", "rt_sync", "rt_env", "rt_main"]

def repo_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "library")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".c")) and not f.endswith(("Test.cpp", "Benchmark.cpp")):
                out.append(os.path.join(root, f))
    return out

def build(prop, scen_files, builddir=None, quiet=True):
    """Returns the path of the simulator executable, or raises RuntimeError."""
    b = builddir or os.path.join(VERIF, "build")
    os.makedirs(b, exist_ok=True)
    sim = os.path.join(VERIF, "sim")
    inc = f"-I{REPO} -I{REPO}/library -I{sim}"
    san = "-fsanitize=thread --param tsan-distinguish-volatile=0 -fno-omit-frame-pointer"
    common = f"-D_GNU_SOURCE -DNATIVE_SIM -O1 -g1 -w -fno-pie {san} {inc}"
    n = []
    w = n.append
    w("ninja_required_version = 1.3")
    w(f"builddir = {b}")
    w(f"rule pch\n  command = cp {sim}/pre.h $dir/pre.h && g++ -std=gnu++11 {common} -x c++-header -MD -MF $out.d -c {sim}/pre.h -o $out\n  depfile = $out.d\n  deps = gcc\n  description = PCH")
    w(f"rule cxx\n  command = g++ -std=gnu++11 {common} -include {b}/pch/pre.h -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    w(f"rule cc\n  command = gcc {common} $extra -MD -MF $out.d -c $in -o $out $post\n  depfile = $out.d\n  deps = gcc\n  description = CC $in")
    w(f"rule rt\n  command = g++ -std=gnu++17 -O2 -g1 -fno-pie -fno-threadsafe-statics -fno-builtin -fno-tree-loop-distribute-patterns -fno-stack-protector -w -I{sim} -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = RT $in")
    w("rule localize\n  command = ld -r --force-group-allocation -o $out.tmp $in && nm -f posix --defined-only $out.tmp | awk '$$2 ~ /^[TDBRGSC]$$/ {print $$1}' > $out.sym && objcopy --keep-global-symbols=$out.sym $out.tmp $out && rm -f $out.tmp\n  description = LD -r $out")
    w("rule link\n  command = g++ -no-pie -rdynamic -o $out $in -lpthread -lrt -lm -ldl\n  description = LINK $out")
    w(f"build {b}/pch/pre.h.gch: pch {sim}/pre.h\n  dir = {b}/pch")
    objs = []
    for s in repo_sources():
        rel = os.path.relpath(s, REPO)
        o = f"{b}/lib/" + rel.replace("/", "_") + ".o"
        objs.append(o)
        proc = "/UUID/" in rel
        post = f"&& objcopy --set-section-flags .bss=alloc,load,data,contents --rename-section .bss=simproc_data,alloc,load,data,contents --rename-section .data=simproc_data,alloc,load,data,contents --rename-section .data.rel.local=simproc_data,alloc,load,data,contents --rename-section .data.rel=simproc_data,alloc,load,data,contents {o}" if proc else ""
        if s.endswith(".c"):
            w(f"build {o}: cc {s}\n  extra = {'-fno-zero-initialized-in-bss -fno-common' if proc else ''}\n  post = {post}")
        elif proc:
            w(f"build {o}: cxxp {s} | {b}/pch/pre.h.gch\n  post = {post}")
        else:
            w(f"build {o}: cxx {s} | {b}/pch/pre.h.gch")
    w(f"rule cxxp\n  command = g++ -std=gnu++11 {common} -fno-zero-initialized-in-bss -include {b}/pch/pre.h -MD -MF $out.d -c $in -o $out $post\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    rts = []
    for r in RT + sorted({c for f in scen_files for c in checkers(f)}):
        o = f"{b}/rt/{r}.o"
        if o not in rts:
            rts.append(o)
            w(f"build {o}: rt {sim}/{r}.cpp")
    sc = []
    for f in scen_files:
        o = f"{b}/scen/{f}.o"
        sc.append(o)
        w(f"build {o}: cxx {sim}/scen/{f}.cpp | {b}/pch/pre.h.gch")
    w(f"build {b}/rt-{prop}.o: localize {' '.join(rts)}")
    exe = f"{b}/sim-{prop}"
    w(f"build {exe}: link {b}/rt-{prop}.o {' '.join(sc)} {b}/libnative.a")
    w(f"rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out")
    w(f"build {b}/libnative.a: ar {' '.join(objs)}")
    # rules must precede their use
    rules = [x for x in n if x.startswith("rule")]
    rest = [x for x in n if not x.startswith("rule")]
    nf = f"{b}/build-{prop}.ninja"
    text = "\n".join(rest[:2] + rules + rest[2:]) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-C", b, "-f", nf, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("build failed:\n" + r.stdout[:3000] + "\n...\n" + r.stdout[-3000:])
    if not quiet:
        print(r.stdout[-2000:])
    return exe

def checkers(scen):
    """Uninstrumented companion units named in the scenario: a line '// uses: chk_xxx'."""
    for l in open(os.path.join(VERIF, "sim", "scen", scen + ".cpp")):
        if l.startswith("// uses:"):
            return l.split(":", 1)[1].split()
    return []

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:], quiet=False))
