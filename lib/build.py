"""Builds the instrumented broker from /repo's working tree."""
import os, sys, hashlib, subprocess, glob, shutil, fcntl, time

REPO = os.environ.get("VERIF_REPO", "/repo")  # the override is for experiments with planted bugs only
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
COMMON = ["-std=c++20", "-msse4.2", "-DOPENSSL_API_COMPAT=0x10100000L", '-DFLASHMQ_VERSION="verif"', "-DFMQ_VERIF",
          "-fvisibility=hidden", "-w", "-g1", "-fno-omit-frame-pointer"]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread", "-finstrument-functions-after-inlining"],
    "noise": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-finstrument-functions-after-inlining"],
}
LIBS = ["-lpthread", "-ldl", "-lssl", "-lcrypto", "-lresolv", "-lanl"]
EXCLUDE = {"flashmqtestclient.cpp"}

class BuildError(Exception): pass

def sources():
    return sorted(f for f in glob.glob(REPO + "/*.cpp") if os.path.basename(f) not in EXCLUDE)

def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(glob.glob(REPO + "/*.cpp") + glob.glob(REPO + "/*.h") + [VERIF + "/shim/shim.cpp", os.path.abspath(__file__)]):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def _run(jobs):
    """Run compile jobs (cmd, log) with 8 in parallel; return failing indices."""
    running, failed, i = [], [], 0
    n = os.cpu_count() or 8
    while i < len(jobs) or running:
        while i < len(jobs) and len(running) < n:
            cmd, log = jobs[i]
            running.append((i, subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT)))
            i += 1
        done = [(k, p) for k, p in running if p.poll() is not None]
        if not done:
            time.sleep(0.02); continue
        for k, p in done:
            running.remove((k, p))
            if p.returncode != 0: failed.append(k)
    return failed

def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    flags = COMMON + VARIANTS[variant]
    key = variant + "-" + tree_hash(" ".join(flags))
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, "flashmq")
    with open(os.path.join(BUILD, "lock." + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(out)
            return exe
        # keep few old builds
        olds = sorted((d for d in glob.glob(BUILD + "/" + variant + "-*") if os.path.isdir(d)), key=os.path.getmtime)
        for d in olds[:-2]: shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        t0 = time.time()
        srcs = sources()
        ok = False
        # balanced "unity" groups: much faster than single files; falls back to single files if they clash
        srcs_by_size = sorted(srcs, key=os.path.getsize, reverse=True)
        ngroups = 14
        groups = [[] for _ in range(ngroups)]
        w = [0] * ngroups
        for s in srcs_by_size:
            k = w.index(min(w)); groups[k].append(s); w[k] += os.path.getsize(s) + 9000
        jobs, objs = [], []
        for k, g in enumerate(groups):
            u = "%s/u%d.cpp" % (out, k)
            with open(u, "w") as f:
                for s in g: f.write('#include "%s"\n' % s)
            o = "%s/u%d.o" % (out, k); objs.append(o)
            jobs.append((["clang++"] + flags + ["-I" + REPO, "-c", u, "-o", o], o + ".log"))
        shim_o = out + "/shim.o"
        jobs.append((["clang++", "-std=c++20", "-O2", "-g1", "-w", "-fPIC", "-c", VERIF + "/shim/shim.cpp", "-o", shim_o], shim_o + ".log"))
        if not _run(jobs): ok = True
        if not ok:
            jobs, objs = [jobs[-1]], []
            for s in srcs:
                o = "%s/%s.o" % (out, os.path.basename(s)); objs.append(o)
                jobs.append((["clang++"] + flags + ["-I" + REPO, "-c", s, "-o", o], o + ".log"))
            bad = _run(jobs)
            if bad:
                raise BuildError("compile failed: " + open(jobs[bad[0]][1]).read()[-3000:])
        r = subprocess.run(["clang++"] + flags + ["-rdynamic"] + objs + [shim_o, "-o", exe + ".tmp"] + LIBS, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("link failed: " + r.stderr[-3000:])
        os.rename(exe + ".tmp", exe)
        for f in glob.glob(out + "/*.o") + glob.glob(out + "/*.log") + glob.glob(out + "/u*.cpp"): os.unlink(f)
        print("built %s broker in %.1f s (%s)" % (variant, time.time() - t0, "unity" if ok else "single"), file=sys.stderr)
    return exe

def build_plugin(src, name, flags=()):
    """Compile a monitor plugin (.so) against /repo's plugin header."""
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read())
    for f in sorted(glob.glob(REPO + "/flashmq_p*.h")): h.update(open(f, "rb").read())
    h.update(repr(flags).encode()); out = os.path.join(BUILD, "%s-%s.so" % (name, h.hexdigest()[:16]))
    if not os.path.exists(out):
        r = subprocess.run(["clang++", "-std=c++20", "-O1", "-g1", "-w", "-fPIC", "-shared"] + list(flags) + ["-I" + REPO, src, "-o", out + ".tmp%d" % os.getpid()], capture_output=True, text=True)
        if r.returncode != 0: raise BuildError("plugin: " + r.stderr[-3000:])
        os.rename(out + ".tmp%d" % os.getpid(), out)
    return out

if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]: print(build(v))
