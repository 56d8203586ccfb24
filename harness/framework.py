"""Builds and runs the checks, confirms violations by replaying them, and writes the evidence."""
import concurrent.futures, glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
sys.path.insert(0, H)

class CheckError(Exception):
    """The check cannot give an answer"""

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def parallel(cmds, jobs=8):
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for cmd, r in zip(cmds, ex.map(run, cmds)):
            if r.returncode:
                raise CheckError("could not compile:\n%s\n%s" % (" ".join(cmd), r.stdout))

SAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
WRAPS = ["mmap", "mmap64", "munmap", "madvise"]

def lib_sources():
    return sorted(s for s in glob.glob(os.path.join(REPO, "src", "*.c"))
        if not os.path.basename(s).startswith("test-"))

def build_lib(build, jobs, cflags=(), cc="gcc"):
    """Compiles all of libloc's sources from the working tree; returns the objects"""
    cmds, objs = [], []
    for s in lib_sources():
        o = os.path.join(build, "lib-" + os.path.basename(s)[:-2] + ".o")
        cmds.append([cc, "-g", "-O1", "-w", "-DLIBLOC_PRIVATE", "-include", os.path.join(H, "c", "config.h"),
            "-include", os.path.join(H, "c", "pre.h"), "-I" + os.path.join(H, "c"), "-I" + os.path.join(REPO, "src"),
            *cflags, "-c", "-o", o, s])
        objs.append(o)
    parallel(cmds, jobs)
    return objs

def build_harness(spec, build, jobs):
    cflags = SAN if spec.get("san", True) else []
    objs, cmds = [], []
    extra = spec.get("cflags", [])
    srcs = ["mc.c", "lk.c"] + spec["src"]
    for s in srcs:
        o = os.path.join(build, "h-" + s[:-2] + ".o")
        flags = cflags if s != "mc.c" else []
        cmds.append(["gcc", "-g", "-O1", "-Wall", "-Wno-unused-function", "-Wno-unused-variable", "-Werror=implicit-function-declaration",
            "-D_GNU_SOURCE", "-DLIBLOC_PRIVATE",
            "-I" + os.path.join(H, "c"), "-I" + os.path.join(REPO, "src"),
            *flags, *extra, "-c", "-o", o, os.path.join(H, "c", s)])
        objs.append(o)
    parallel(cmds, jobs)
    objs = build_lib(build, jobs, cflags + spec.get("libcflags", [])) + objs
    exe = os.path.join(build, "explore")
    wraps = WRAPS + spec.get("wraps", [])
    r = run(["gcc", "-o", exe, *cflags, *objs, *["-Wl,--wrap=" + w for w in wraps], "-lcrypto", "-lresolv", "-lm"])
    if r.returncode:
        raise CheckError("could not link:\n" + r.stdout)
    return [exe]

# The bindings and scripts

def build_shared(build, jobs, cflags=()):
    """Builds libloc.so from the working tree"""
    cmds, objs = [], []
    for s in lib_sources():
        o = os.path.join(build, "so-" + os.path.basename(s)[:-2] + ".o")
        cmds.append(["gcc", "-g", "-O1", "-w", "-fPIC", "-DLIBLOC_PRIVATE", "-include", os.path.join(H, "c", "config.h"),
            "-I" + os.path.join(H, "c"), "-I" + os.path.join(REPO, "src"), *cflags, "-c", "-o", o, s])
        objs.append(o)
    return cmds, objs

def link_shared(build, name, objs, cflags=(), libs=()):
    out = os.path.join(build, name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = run(["gcc", "-shared", "-o", out, *cflags, *objs, "-L" + build, "-Wl,-rpath," + build, *libs])
    if r.returncode:
        raise CheckError("could not link:\n" + r.stdout)
    return out

def pkg_config(*args):
    r = run(["pkg-config", *args])
    return r.stdout.split() if r.returncode == 0 else []

OOM = ["malloc", "calloc", "realloc", "reallocarray", "strdup", "__strdup", "strndup", "asprintf", "vasprintf", "fopen", "fdopen"]

def build_bindings(build, jobs, san=True, languages=("python",), oom=False):
    """Builds libloc.so and the bindings into the build directory"""
    cflags = SAN if san else []
    common = ["gcc", "-g", "-O1", "-w", "-fPIC", "-include", os.path.join(H, "c", "config.h"),
        "-I" + os.path.join(REPO, "src"), *cflags]
    cmds, objs = build_shared(build, jobs, cflags)
    sets = { "libloc.so" : objs }
    for lang, name, inc in (("python", "py/_location.so", ["-I/usr/include/python3.12"]),
            ("lua", "lua/location.so", pkg_config("--cflags", "lua5.4") or ["-I/usr/include/lua5.4"])):
        if lang not in languages:
            continue
        sets[name] = []
        for s in sorted(glob.glob(os.path.join(REPO, "src", lang, "*.c"))):
            o = os.path.join(build, lang + "-" + os.path.basename(s)[:-2] + ".o")
            cmds.append([*common, *inc, "-c", "-o", o, s])
            sets[name].append(o)
    if "perl" in languages:
        c = os.path.join(build, "Location.c")
        x = subprocess.run(["xsubpp", "-noprototypes", "-typemap", "/usr/share/perl/5.38/ExtUtils/typemap",
            "-typemap", os.path.join(REPO, "src", "perl", "typemap"), os.path.join(REPO, "src", "perl", "Location.xs")],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if x.returncode:
            raise CheckError("xsubpp failed:\n" + x.stderr)
        with open(c, "w") as f:
            f.write(x.stdout)
        flags = run(["perl", "-MConfig", "-e", "print \"$Config{ccflags} -I$Config{archlib}/CORE\""]).stdout.split()
        o = os.path.join(build, "perl-Location.o")
        cmds.append([*common, *flags, '-DVERSION="0.01"', '-DXS_VERSION="0.01"', "-c", "-o", o, c])
        sets["perl/auto/Location/Location.so"] = [o]
    wraps = []
    if oom:
        o = os.path.join(build, "oom.o")
        cmds.append(["gcc", "-g", "-O1", "-w", "-fPIC", "-c", "-o", o, os.path.join(H, "c", "oom.c")])
        wraps = ["-Wl,--wrap=" + w for w in OOM]
    parallel(cmds, jobs)
    if oom:
        # The stand-ins call the originals
        link_shared(build, "liboom.so", [o], [], ["-ldl"])
        wraps += ["-Wl,--no-as-needed", "-loom"]
    link_shared(build, "libloc.so", sets.pop("libloc.so"), cflags, wraps + ["-lcrypto", "-lresolv", "-lm"])
    for name, o in sets.items():
        link_shared(build, name, o, cflags, wraps + ["-lloc"])
    if "python" in languages:
        shutil.copytree(os.path.join(REPO, "src", "python", "location"), os.path.join(build, "py", "location"))
        for s in ("location", "location-importer"):
            text = open(os.path.join(REPO, "src", "scripts", s + ".in")).read()
            text = text.replace("@VERSION@", "0.9.17").replace("@databasedir@", os.path.join(build, "nodb"))
            with open(os.path.join(build, "py", s + ".script"), "w") as f:
                f.write(text)
    if "perl" in languages:
        shutil.copy(os.path.join(REPO, "src", "perl", "lib", "Location.pm"), os.path.join(build, "perl", "Location.pm"))

def python_harness(script, san=False, languages=("python",), shim=None, oom=False):
    """Returns a build function for a harness written in Python"""
    def f(spec, build, jobs):
        build_bindings(build, jobs, san, languages, oom)
        cmd = ["env", "PYTHONPATH=%s:%s" % (os.path.join(build, "py"), os.path.join(H, "py")), "PYTHONDONTWRITEBYTECODE=1", "PYTHONHASHSEED=0"]
        if san:
            lib = run(["gcc", "-print-file-name=libasan.so"]).stdout.strip()
            cmd += ["LD_PRELOAD=" + os.path.realpath(lib), "PYTHONMALLOC=malloc"]
        if shim:
            so = os.path.join(build, "shim.so")
            r = run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(H, "c", shim), "-ldl"])
            if r.returncode:
                raise CheckError("could not build the shim:\n" + r.stdout)
            cmd += ["LD_PRELOAD=" + (os.path.realpath(lib) + ":" if san else "") + so]
        return cmd + ["/usr/bin/python3", os.path.join(H, "py", script)]
    return f

def environment(build):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:quarantine_size_mb=8:" \
        "malloc_context_size=8:max_free_fill_size=512:detect_stack_use_after_return=0:log_path=%s" % os.path.join(build, "asan")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77:log_path=%s" % os.path.join(build, "asan")
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    env["VERIF_BUILD"] = build
    env["VERIF_REPO"] = REPO
    for k in ("LOC_LOG",):
        env.pop(k, None)
    return env

def asan_report(build):
    out = ""
    for f in sorted(glob.glob(os.path.join(build, "asan.*"))):
        try:
            out += open(f, errors="replace").read()[:6000]
        except OSError:
            pass
        os.unlink(f)
    return out

def explore(cmd, build, jobs, thorough, deadline, hang):
    out = os.path.join(build, "result.json")
    if os.path.exists(out):
        os.unlink(out)
    asan_report(build)
    c = cmd + ["--jobs", str(jobs), "--out", out, "--deadline", str(deadline), "--hang", str(hang)]
    if thorough:
        c.append("--thorough")
    r = run(c, env=environment(build), cwd=build)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("exploration failed with exit code %s\n%s" % (r.returncode, r.stdout[-4000:]))
    res = json.load(open(out))
    res["output"] = r.stdout[-4000:]
    res["asan"] = asan_report(build) if res["violation"] else ""
    return res

def replay_once(cmd, build, path, thorough, hang):
    c = cmd + ["--replay", ",".join(map(str, path)), "--hang", str(hang)]
    if thorough:
        c.append("--thorough")
    asan_report(build)
    try:
        r = run(c, env=environment(build), cwd=build, timeout=hang + 60)
        rc, text = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, text = -signal.SIGALRM, "did not terminate"
    text += asan_report(build)
    if rc == 0:
        return False, text
    if rc in (2, 43):
        raise CheckError("replay failed (%s)\n%s" % (rc, text[-3000:]))
    if rc < 0:
        text += "\nended by signal %d%s" % (-rc, " (did not terminate within %d s)" % hang if -rc == signal.SIGALRM else "")
    elif rc not in (1, 42):
        text += "\nended with exit code %d" % rc
    return True, text

def known_findings(prop):
    """Findings that are recorded rather than repaired: (property, key, text)"""
    res = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                assert key.startswith("key="), line
                res.append((key[4:], text))
    except FileNotFoundError:
        pass
    return res

def check(prop, thorough=False, replay=None, jobs=8, keep=False):
    import registry
    t0 = time.time()
    spec = registry.CHECKS[prop]
    tier = "thorough" if thorough else "quick"
    build = os.path.join(VERIF, "build", prop)
    if os.environ.get("VERIF_BUILD_TAG"):
        build += "-" + os.environ["VERIF_BUILD_TAG"]
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build)
    try:
        if "build" in spec:
            cmd = spec["build"](spec, build, jobs)
        else:
            cmd = build_harness(spec, build, jobs)
        if replay:
            d = json.load(open(replay))
            bad, text = replay_once(cmd, build, d["path"], d["tier"] == "thorough", 120)
            print(text)
            if bad:
                print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(replay)))
                return 1
            return 0

        deadline = spec.get("deadline", {}).get(tier, 420 if tier == "quick" else 3000)
        hang = max(spec.get("hang", 60), 120 if thorough else 0)
        violation, confirmed = None, ""
        res = explore(cmd, build, jobs, thorough, deadline, hang)
        for attempt in range(2):
            v = res["violation"]
            if not v:
                break
            if v["kind"].startswith("killed by signal 9"):
                raise CheckError("a worker was killed (out of memory?)")
            bad, text = replay_once(cmd, build, v["path"], thorough, 120)
            if bad:
                violation, confirmed = v, text
                break
            if attempt == 1 and v["kind"] != "hang":
                # Twice found by exploring, though not by replaying alone: depends on earlier executions
                violation, confirmed = v, "reproduced by a second exploration, not by a replay on its own\n" + res["asan"]
                break
            res = explore(cmd, build, jobs, thorough, deadline, hang)

        if res["violation"] and not violation:
            raise CheckError("no progress within %d s, which a replay does not confirm" % hang)

        wall = time.time() - t0
        write_evidence(prop, spec, tier, res, wall, 1 if violation else 0)
        if violation:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            digest = hashlib.sha1(json.dumps(violation["path"]).encode()).hexdigest()[:8]
            f = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, digest))
            json.dump({"property": prop, "tier": tier, "path": violation["path"], "kind": violation["kind"],
                "message": violation["message"], "report": confirmed, "how": "bin/check %s --replay %s" % (prop, f)},
                open(f, "w"), indent=1)
            print("%s: %s: %s" % (prop, violation["kind"], violation["message"]))
            print(confirmed[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, f))
            return 1
        for key, text in res.get("known", []):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        print("%s: held on %d executions, %d states, %d transitions, %d comparisons (%.1f s%s)" % (prop, res["executions"],
            res["states"], res["ops"], res["checks"], wall, "" if res["complete"] else ", STOPPED at the time limit"))
        return 0
    except CheckError as e:
        print("%s: ERROR: %s" % (prop, e), file=sys.stderr)
        return 2
    finally:
        if not keep:
            shutil.rmtree(build, ignore_errors=True)

def write_evidence(prop, spec, tier, res, wall, violations):
    level = spec.get("level", "model_checking")
    cov = {
        "exhaustive": bool(res["complete"]),
        "comparisons": res["checks"],
        "max_decisions": res["max_decisions"],
        "bounds": spec["bounds"][tier] if isinstance(spec.get("bounds"), dict) else spec.get("bounds", ""),
        "samples": res["samples"][:8],
    }
    if level == "model_checking":
        cov.update(states=res["states"], transitions=res["ops"], traces_validated_against_impl=res["executions"])
    else:
        cov.update(evaluations=res["executions"], distinct_nontrivial=res["states"], transitions=res["ops"], rule=spec["rule"])
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
