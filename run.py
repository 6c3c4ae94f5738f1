#!/usr/bin/env python3
"""run.py <ID> [--replay FILE]: builds the harness of one property against /repo's working tree and runs it."""
import os, sys, subprocess, shutil, tempfile, glob, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SAN = ["-fsanitize=address,bounds,null,integer-divide-by-zero,return,unreachable",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["clang", "-std=gnu11", "-g1", "-O1", "-w", "-fwrapv", "-fno-strict-aliasing", "-I", REPO]
# what the project's compiler only warns about is no reason to give no answer
LAX = ["-std=c99", "-Wno-implicit-function-declaration", "-Wno-implicit-int", "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types", "-Wno-return-type"]

def sources():
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in (".git", "_build", "test_harbol_plugins")]
        for f in files:
            if f.endswith(".c") and not f.startswith("test_"):
                out.append(os.path.join(d, f))
    return sorted(out)

def run(cmd, instead=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode and instead: return run(instead)
    if p.returncode:
        sys.stderr.write("build step failed: %s\n%s\n" % (" ".join(cmd), p.stdout[-4000:]))
        sys.exit(2)

def build(pid, bd):
    eng = os.path.join(HERE, "engine")
    cov = ["-fsanitize-coverage=inline-8bit-counters"]
    jobs, objs = [], []
    for i, s in enumerate(sources()):
        o = os.path.join(bd, "lib%d.o" % i)
        # the library is compiled as its own makefiles do
        tail = ["-include", os.path.join(eng, "shim.h"), "-c", s, "-o", o]; objs.append(o)
        # (a file that only their compiler takes is checked without coverage and sanitizers)
        jobs.append((BASE + LAX + SAN + cov + tail, ["gcc", "-std=c99", "-g1", "-O1", "-w", "-fwrapv", "-fno-strict-aliasing", "-I", REPO] + tail))
    h = os.path.join(bd, "harness.o"); objs.append(h)
    jobs.append((BASE + SAN + cov + ["-include", os.path.join(eng, "shim.h"), "-I", eng, "-I", os.path.join(HERE, "harness"),
                             "-c", os.path.join(HERE, "harness", pid + ".c"), "-o", h],))
    e = os.path.join(bd, "pbt.o"); objs.append(e)
    jobs.append((["clang", "-std=gnu11", "-O2", "-g1", "-w", "-I", eng, "-c", os.path.join(eng, "pbt.c"), "-o", e],))
    # shared libraries that a harness loads (several versions of one source)
    plug = os.path.join(HERE, "harness", pid + ".plugin.c")
    if os.path.exists(plug):
        for v in range(1, 5):
            jobs.append((["clang", "-shared", "-fPIC", "-O1", "-w", "-DVERSION=%d" % v, plug, "-o", os.path.join(bd, "plugin%d.so" % v)],))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: run(*j), jobs))
    exe = os.path.join(bd, "check")
    run(["clang"] + SAN + cov + objs + ["-lm", "-ldl", "-rdynamic", "-o", exe])
    return exe

def main():
    pid = sys.argv[1]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    bd = tempfile.mkdtemp(prefix=pid + ".", dir=os.path.join(HERE, "build"))
    try:
        exe = build(pid, bd)
        env = dict(os.environ)
        for k in [k for k in env if k.startswith(("ASAN_", "UBSAN_", "LSAN_", "MALLOC_"))]: del env[k]
        log = os.path.join(bd, "asan")
        env["ASAN_OPTIONS"] = ("exitcode=86:detect_leaks=0:allocator_may_return_null=1:log_path=%s:handle_abort=1:"
                               "detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=165:quarantine_size_mb=16:"
                               "allocator_release_to_os_interval_ms=-1:symbolize=1:disable_coredump=1" % log)
        env["UBSAN_OPTIONS"] = "exitcode=86:print_stacktrace=1:log_path=%s" % log
        env["VF_ASAN_LOG"] = log
        env["VF_BUILD"] = bd
        env["VF_REPO"] = REPO
        env.setdefault("VF_EVIDENCE", os.path.join(HERE, "evidence", pid + ".json"))
        env.setdefault("VF_REPLAYS", os.path.join(HERE, "replays"))
        env["LC_ALL"] = "C.UTF-8"; env["TZ"] = "UTC"
        args = [exe] + sys.argv[2:]
        if "--replay" in sys.argv: env.pop("VF_EVIDENCE", None)

        # library diagnostics go to stderr in bulk: discard them
        p = subprocess.run(args, env=env, cwd=HERE, stdin=subprocess.DEVNULL, stderr=None if os.environ.get("VF_STDERR") else subprocess.DEVNULL)

        rc = p.returncode
        if rc not in (0, 1): sys.stderr.write("check ended with status %d\n" % rc)
        return rc if rc >= 0 else 2
    finally:
        if not os.environ.get("VF_KEEP"): shutil.rmtree(bd, ignore_errors=True)

sys.exit(main())
