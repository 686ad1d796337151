"""Builds the simulators from /repo's current working tree. A small compiler cache (content of the source,
of every header it read, and of the command) in /verif/build keeps rebuilds to what changed."""
import concurrent.futures, fcntl, hashlib, os, pathlib, subprocess, sys

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("SIM_REPO", "/repo"))
BUILD = pathlib.Path(os.environ.get("SIM_BUILD", VERIF / "build"))
COMMON = ["-std=c++20", "-include", "cmath", "-include", "stdexcept", "-I", str(REPO / "include"), "-I", "/usr/include/eigen3",
          "-I", str(VERIF / "sim"), "-O1", "-g1", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-w"]
WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc"]
# name: (flags for instrumented code, flags for the simulator's own hot code, simulator sources, link flags)
SIM_A = ["market", "options", "random", "models", "mc", "fdm", "faults", "builders", "law", "kernels", "lifetime", "soak", "relations", "refuse", "table"]
SIM_B = ["threads", "table_threads"]
CONFIGS = {
    "asan": dict(instr=["-fsanitize=address", "-DSIM_ASAN"], hot=["-DSIM_ASAN"], src=SIM_A, main="main", hots=["hot", "hooks", "rt_none"],
                 link=["-fsanitize=address"] + WRAP),
    "sched": dict(instr=["-fsanitize=thread", "-DSIM_SCHED"], hot=["-DSIM_SCHED", "-O2"], src=SIM_B, main=None, hots=["main", "hot", "hooks", "rt_sched"],
                  link=["-lpthread"]),
    "export": dict(instr=["-I", str(REPO)], hot=[], src=["export"], main=None, hots=["main", "hot", "hooks", "rt_none"], link=WRAP, repo=[]),
}

class BuildError(Exception):
    pass

def sha(b):
    return hashlib.sha256(b).hexdigest()

def deps_of(dfile):
    try:
        txt = dfile.read_text().replace("\\\n", " ")
    except OSError:
        return None
    out = []
    for tok in txt.split(":", 1)[-1].split():
        if tok.startswith(("/usr/", "/lib/")):
            continue
        out.append(tok)
    return out

def key_of(cmd, src, deps, layout):
    h = hashlib.sha256()
    h.update("\0".join(map(str, cmd)).encode()); h.update(layout.encode())
    for p in [str(src)] + sorted(set(deps)):
        try:
            h.update(p.encode()); h.update(sha(pathlib.Path(p).read_bytes()).encode())
        except OSError:
            return None
    return h.hexdigest()

def build(config, verbose=False):
    c = CONFIGS[config]
    out = BUILD / config
    out.mkdir(parents=True, exist_ok=True)
    lock = open(BUILD / ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    layout = "\n".join(sorted(str(p.relative_to(REPO)) for p in (REPO / "include").rglob("*")))
    jobs = []  # (source, object, command)
    if c.get("repo") is None:
        for p in sorted((REPO / "src").rglob("*.cpp")):
            jobs.append((p, out / ("repo_" + str(p.relative_to(REPO / "src")).replace("/", "__") + ".o"), c["instr"]))
    for s in c["src"]:
        jobs.append((VERIF / "sim" / (s + ".cpp"), out / (s + ".o"), c["instr"]))
    if c["main"]:
        jobs.append((VERIF / "sim" / (c["main"] + ".cpp"), out / (c["main"] + ".o"), c["instr"]))
    for s in c["hots"]:
        jobs.append((VERIF / "sim" / (s + ".cpp"), out / (s + ".o"), c["hot"]))

    def one(job):
        src, obj, flags = job
        dfile, kfile = obj.with_suffix(".d"), obj.with_suffix(".key")
        cmd = ["g++"] + COMMON + flags + ["-c", str(src), "-o", str(obj)]
        if obj.exists() and kfile.exists():
            deps = deps_of(dfile)
            if deps is not None and key_of(cmd, src, deps, layout) == kfile.read_text():
                return None
        kfile.unlink(missing_ok=True)
        tmp = str(obj) + ".tmp.o"
        r = subprocess.run(["g++"] + COMMON + flags + ["-MMD", "-MF", str(dfile), "-c", str(src), "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
        os.replace(tmp, obj)
        kfile.write_text(key_of(cmd, src, deps_of(dfile), layout) or "")
        return src
    # the slow ones (Eigen) first
    jobs.sort(key=lambda j: (0 if j[0].parent.name == "sim" else 1, str(j[0])))
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("SIM_JOBS", "8"))) as ex:
        done = [x for x in ex.map(one, jobs) if x]
    exe = out / "sim"
    # instrumented objects first: their template instantiations are the ones that get linked
    objs = [str(j[1]) for j in sorted(jobs, key=lambda j: j[0].stem in c["hots"])]
    # objects of sources that are gone must not linger
    for f in out.glob("*.o"):
        if str(f) not in objs:
            f.unlink()
    stamp = out / "link.key"
    lk = sha(("\n".join(o + pathlib.Path(o).with_suffix(".key").read_text() for o in objs) + str(c["link"])).encode())
    if not exe.exists() or not stamp.exists() or stamp.read_text() != lk:
        stamp.unlink(missing_ok=True)
        r = subprocess.run(["g++", "-g1", "-o", str(exe) + ".tmp"] + objs + c["link"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (config, r.stderr[-6000:]))
        os.replace(str(exe) + ".tmp", exe)
        stamp.write_text(lk)
    if verbose:
        print("%s: %d of %d files compiled" % (config, len(done), len(jobs)))
    lock.close()
    return exe, sorted(str(d) for d in done)

if __name__ == "__main__":
    try:
        for name in sys.argv[1:] or [c for c in CONFIGS if all((VERIF / "sim" / (s + ".cpp")).exists() for s in CONFIGS[c]["src"])]:
            build(name, verbose=True)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
