"""Shared machinery: builds the encoding (LLVM IR of the real code) and runs the symbolic executor."""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
CACHE = os.path.join(VERIF, ".cache")
TC = "1.85.1"
LLVM = "/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin"
SX = os.path.join(VERIF, "sx/target/release/sx")
STD_CRATES = ("core alloc std hashbrown compiler_builtins std_detect memchr libc panic_unwind unwind cfg_if "
              "rustc_demangle addr2line gimli object miniz_oxide adler").split()


class Inconclusive(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:] + "\n")
        raise Inconclusive("command failed (%d): %s" % (r.returncode, " ".join(map(str, cmd))[:300]))
    return r.stdout


def cargo_env(extra=""):
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUST_LOG", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    for k in [k for k in e if k.startswith("CARGO_PROFILE_")]:
        e.pop(k)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             RUSTUP_TOOLCHAIN=TC, RUSTFLAGS=extra)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


class Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_sx():
    e = cargo_env("")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(VERIF, "sx"), env=e)


def build_std():
    """Bitcode of the standard library the real build links against."""
    d = os.path.join(CACHE, "std")
    if os.path.exists(os.path.join(d, "done")):
        return
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sysroot = run(["rustc", "--print", "sysroot"], env=cargo_env()).strip()
    lib = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/lib")
    tmp = os.path.join(d, "tmp")
    for c in STD_CRATES:
        for rlib in glob.glob(os.path.join(lib, "lib%s-*.rlib" % c)):
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            run(["ar", "x", rlib], cwd=tmp)
            for n, o in enumerate(sorted(glob.glob(os.path.join(tmp, "*.o")))):
                bc = os.path.join(d, "%s-%d.bc" % (c, n))
                subprocess.run([LLVM + "/llvm-objcopy", "--dump-section", ".llvmbc=" + bc, o, "/dev/null"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(bc) and os.path.getsize(bc) < 16:
                    os.remove(bc)
    shutil.rmtree(tmp, ignore_errors=True)
    if len(glob.glob(os.path.join(d, "core-*.bc"))) == 0:
        raise Inconclusive("no bitcode in the standard library")
    open(os.path.join(d, "done"), "w").write("ok")


def build_ir(outdir, entries):
    """Compiles /repo's working tree and the harness to bitcode, links it with std, reduces it to the entries.
    Returns (path of the .ll, path of the native replay binary)."""
    build_std()
    h = os.path.join(VERIF, "harness")
    tgt = os.path.join(CACHE, "target")
    deps = os.path.join(tgt, "debug", "deps")
    for pat in ("debug/.fingerprint/ledger-rs-lib-*", "debug/.fingerprint/lsx-harness-*"):
        for p in glob.glob(os.path.join(tgt, pat)):
            shutil.rmtree(p, ignore_errors=True)
    for pat in ("ledger_rs_lib-*", "ledger_rs_lib.*", "libledger_rs_lib*", "lsx_harness-*", "liblsx_harness*", "replay-*"):
        for p in glob.glob(os.path.join(deps, pat)):
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.remove(p)
    if not os.path.exists(os.path.join(h, "Cargo.lock")):
        raise Inconclusive("harness/Cargo.lock is missing")
    flags = "-W invalid_reference_casting --cfg ledger_verif --emit=llvm-bc -Awarnings"
    env = cargo_env(flags)
    features = []
    if any(e.startswith("h_c23") for e in entries):
        # The program's text, less what may only stand at the beginning of a file.
        with open(os.path.join(REPO, "src", "main.rs")) as f:
            text = f.read().lstrip("\ufeff")
        text = re.sub(r"(?m)^(\s*)//!", r"\1//", text)
        text = re.sub(r"(?m)^(\s*)/\*!", r"\1/*", text)
        text = re.sub(r"(?m)^\s*#!\[[^\n]*\]\s*$", "", text)
        env["LSX_MAIN"] = os.path.join(tgt, "program.rs")
        os.makedirs(tgt, exist_ok=True)
        with open(env["LSX_MAIN"], "w") as f:
            f.write(text)
        features = ["--features", "cli"]
    run(["cargo", "build", "--offline", "--quiet", "--target-dir", tgt] + features, cwd=h, env=env)
    os.makedirs(outdir, exist_ok=True)
    replay = os.path.join(outdir, "replay")
    shutil.copy(os.path.join(tgt, "debug", "replay"), replay)
    bcs = []
    for p in sorted(glob.glob(os.path.join(deps, "*.bc"))):
        b = os.path.basename(p)
        if b.startswith(("replay-", "build_script", "autocfg", "wasm_bindgen")):
            continue
        bcs.append(p)
    names = [re.sub(r"(-[0-9a-f]{16})?\.bc$", "", os.path.basename(p)) for p in bcs]
    for need in ("ledger_rs_lib", "lsx_harness", "rust_decimal", "chrono", "petgraph"):
        if names.count(need) != 1:
            raise Inconclusive("bitcode of %s: %d files" % (need, names.count(need)))
    allbc = os.path.join(outdir, "all.bc")
    obc = os.path.join(outdir, "o.bc")
    ll = os.path.join(outdir, "o.ll")
    std = sorted(glob.glob(os.path.join(CACHE, "std", "*.bc")))
    run([LLVM + "/llvm-link", "-o", allbc] + bcs + std)
    api = ",".join(list(entries) + ["sxm_memchr", "sxm_memrchr"])
    run([LLVM + "/opt", "-passes=internalize,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce",
         "-internalize-public-api-list=" + api, "-strip-debug", allbc, "-o", obc])
    run([LLVM + "/llvm-dis", obc, "-o", ll])
    os.remove(allbc)
    os.remove(obc)
    return ll, replay


MERGE_SUM = ("paths", "infeasible", "steps", "forks", "asserts_folded", "asserts_solver", "pending", "nodes")


def sx_run(ll, entry, out, jobs, secs, params=(), extra=()):
    for f in glob.glob(out + "*"):
        os.remove(f)
    t = time.time()
    cmd = [SX, ll, entry, "--out", out, "--jobs", str(jobs), "--time", str(secs),
           "--params", ",".join(map(str, params))] + list(extra)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    files = sorted(glob.glob(out + "*"))
    res = None
    for f in files:
        try:
            j = json.load(open(f))
        except ValueError as e:
            raise Inconclusive("report of %s: %s" % (entry, e))
        if res is None:
            res = j
            continue
        for k in MERGE_SUM:
            res[k] += j[k]
        for k in ("max_steps", "max_inputs"):
            res[k] = max(res[k], j[k])
        res["complete"] = res["complete"] and j["complete"]
        for k, v in j["solver"].items():
            res["solver"][k] = max(res["solver"][k], v) if k == "max_s" else res["solver"][k] + v
        for k in ("refused", "errors"):
            for m, n in j[k].items():
                res[k][m] = res[k].get(m, 0) + n
        for k in ("covers", "functions"):
            res[k] = sorted(set(res[k]) | set(j[k]))
        for k in ("violations", "samples"):
            res[k] += j[k]
    if res is None or r.returncode:
        sys.stdout.write(r.stdout[-3000:])
        if res is None:
            raise Inconclusive("executor failed on %s" % entry)
        # a worker died (out of memory, say): what it had is not explored
        res["complete"] = False
    res["wall_s"] = round(time.time() - t, 2)
    for f in files:
        os.remove(f)
    return res


def write_case(path, harness, params, inputs, note=""):
    with open(path, "w") as f:
        f.write("#harness %s\n#params %s\n" % (harness, ",".join(map(str, params))))
        for l in note.splitlines():
            f.write("#%s\n" % l)
        for i in inputs:
            f.write("%d\n" % i)


def native(replay, harness, files, cwd, timeout=60, valgrind=False):
    """Runs recorded inputs on the native build. Returns (list of {out,end}, exit code, timed out, stderr)."""
    cmd = [replay, harness] + files
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--undef-value-errors=no", "--leak-check=no"] + cmd
    e = dict(os.environ)
    e.pop("RUST_LOG", None)
    e["TZ"] = "UTC"
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        so, se, rc, to = r.stdout, r.stderr, r.returncode, False
    except subprocess.TimeoutExpired as x:
        so, se, rc, to = x.stdout or b"", x.stderr or b"", -1, True
    res = []
    for l in so.decode(errors="replace").splitlines():
        if l.startswith("BEGIN "):
            res.append({"out": [], "end": None})
        elif l.startswith("OUT") and res:
            res[-1]["out"].append(l[4:].strip())
        elif l.startswith("END ") and res:
            res[-1]["end"] = l[4:].strip()
    return res, rc, to, se.decode(errors="replace")
