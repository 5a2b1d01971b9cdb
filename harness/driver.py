"""Builds the harnesses from the working tree of the repository, runs them and reports."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")

# property -> parts; a part is a harness, or harness:property for another property id in it.
PARTS = {}
for _p in "T01 T02 T03 T04 T07 T08 E01 E02 E03 E04 E05 E06 Q01 Q02 I01 G01".split():
    PARTS[_p] = ["h6"]
for _p in "L01 L02 L03 L04 L05 L06 L07".split():
    PARTS[_p] = ["h5", "h4"]
PARTS["L08"] = ["h5tools", "h4tools"]
PARTS["L09"] = ["s5h:L09H", "s4h:L09H", "s5", "s4", "s5race:L09R", "s4race:L09R"]
PARTS["X01"] = ["h6tools"]
PARTS["T04"] = ["h6", "h6msan:T04M"]
PARTS["T05"] = ["s6", "s6mem:T05C", "s6race:T05R"]
PARTS["T06"] = ["h6asan"]


def env():
    e = dict(os.environ)
    e.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME="/root", LANG="C.UTF-8", TZ="America/St_Johns",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOPROXY="off",
             GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="1", GOFLAGS="")
    return e


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-6000:]))
    return p.stdout


def modfile(tmp, name, text, sums):
    """Writes a go.mod and go.sum used instead of those of the module."""
    d = os.path.join(tmp, "mod-" + name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write(text)
    with open(os.path.join(d, "go.sum"), "w") as f:
        f.write("".join(open(s).read() for s in sums if os.path.exists(s)))
    return os.path.join(d, "go.mod")


def build_h6(tmp, name="h6", flags=(), **more):
    text = open(os.path.join(HERE, "h6", "go.mod")).read()
    text = text.replace("=> /repo/v6", "=> " + REPO + "/v6").replace("=> ../common", "=> " + HERE + "/common")
    m = modfile(tmp, "h6", text, [os.path.join(HERE, "h6", "go.sum")])
    out = os.path.join(tmp, name)
    run(["go", "build"] + list(flags) + ["-mod=mod", "-modfile=" + m, "-o", out, "."], cwd=os.path.join(HERE, "h6"), env=dict(env(), **more))
    return out


def build_h6tools(tmp):
    d = os.path.join(tmp, "tools6")
    os.makedirs(d, exist_ok=True)
    run(["go", "build", "-o", d + "/", "./cmd/tsl", "./cmd/tsl_parser", "./cmd/tsl_mem"], cwd=REPO + "/v6", env=env())
    os.environ["VERIF_TOOLS6"] = d
    return build_h6(tmp)


def build_h6asan(tmp):
    return build_h6(tmp, "h6asan", ["-asan"])


def build_h6msan(tmp):
    return build_h6(tmp, "h6msan", ["-msan"], CC="clang")


def instrument(tmp, version, dirs, cflags="", name=""):
    """Copies a version of the library and inserts the calls of the scheduler in it. Its C code is built with
    cflags, the C code of others (the one of the Go runtime) is not."""
    tool = os.path.join(tmp, "instr")
    if not os.path.exists(tool):
        run(["go", "build", "-o", tool, "."], cwd=os.path.join(HERE, "instr"), env=env())
    d = os.path.join(tmp, "src-" + version + name)
    if os.path.exists(d):
        return d
    shutil.copytree(os.path.join(REPO, version), d, ignore=shutil.ignore_patterns("*_test.go"))
    run([tool] + [os.path.join(d, x) for x in dirs if os.path.isdir(os.path.join(d, x))], env=env())
    for x in dirs if cflags else []:
        for at, _, files in os.walk(os.path.join(d, x)):
            texts = [open(os.path.join(at, f), errors="replace").read() for f in files if f.endswith(".go")]
            texts = [t for t in texts if re.search(r'^(import)?\s*"C"', t, re.M)]
            if texts:
                with open(os.path.join(at, "vsched_cflags.go"), "w") as fh:
                    fh.write("package %s\n\n// #cgo CFLAGS: %s\nimport \"C\"\n" % (re.search(r"^package (\w+)", texts[0], re.M).group(1), cflags))
    return d


def build_s6(tmp):
    d = instrument(tmp, "v6", ["pkg"], "-fsanitize-coverage=trace-pc -finstrument-functions")
    text = open(os.path.join(HERE, "s6", "go.mod")).read()
    text = text.replace("=> /repo/v6", "=> " + d).replace("=> ../", "=> " + HERE + "/")
    m = modfile(tmp, "s6", text, [os.path.join(HERE, "s6", "go.sum")])
    out = os.path.join(tmp, "s6")
    # The instrumented package is linked once before the functions it then calls are there.
    e = dict(env(), CGO_CFLAGS="-O1 -g", CGO_LDFLAGS="-Wl,--unresolved-symbols=ignore-all", CGO_LDFLAGS_ALLOW=".*", CGO_CFLAGS_ALLOW=".*")
    run(["go", "build", "-mod=mod", "-modfile=" + m, "-o", out, "."], cwd=os.path.join(HERE, "s6"), env=e)
    return out


def build_s6mem(tmp):
    """The C code announces its accesses to memory, the Go code its statements."""
    d = instrument(tmp, "v6", ["pkg"], "-DVS_TSAN -D_GNU_SOURCE= -fsanitize=thread -include " + os.path.join(HERE, "sched", "vslibc.h"), "mem")
    text = open(os.path.join(HERE, "s6", "go.mod")).read()
    text = text.replace("=> /repo/v6", "=> " + d).replace("=> ../", "=> " + HERE + "/")
    m = modfile(tmp, "s6mem", text, [os.path.join(HERE, "s6", "go.sum")])
    out = os.path.join(tmp, "s6mem")
    e = dict(env(), CGO_CFLAGS="-O1 -g -DVS_TSAN", CGO_LDFLAGS="-Wl,--unresolved-symbols=ignore-all", CGO_LDFLAGS_ALLOW=".*", CGO_CFLAGS_ALLOW=".*")
    run(["go", "build", "-mod=mod", "-modfile=" + m, "-o", out, "."], cwd=os.path.join(HERE, "s6"), env=e)
    return out


def build_s6race(tmp):
    """The same bodies on the code as it is, with the race detector."""
    text = open(os.path.join(HERE, "s6", "go.mod")).read()
    text = text.replace("=> /repo/v6", "=> " + REPO + "/v6").replace("=> ../", "=> " + HERE + "/")
    m = modfile(tmp, "s6race", text, [os.path.join(HERE, "s6", "go.sum")])
    out = os.path.join(tmp, "s6race")
    e = dict(env(), CGO_CFLAGS_ALLOW=".*")
    run(["go", "build", "-race", "-mod=mod", "-modfile=" + m, "-o", out, "."], cwd=os.path.join(HERE, "s6"), env=e)
    return out


def legacy(tmp, v, name, src, lib, flags=(), **more):
    """Builds a harness of version 5, or the same for version 4, against the library in lib."""
    d = os.path.join(tmp, name + "-src")
    shutil.copytree(os.path.join(HERE, src), d, dirs_exist_ok=True)
    for f in os.listdir(d):
        if f.endswith(".go") or f == "go.mod":
            p = os.path.join(d, f)
            text = open(p).read()
            if f == "go.mod":
                text = text.replace("=> /repo/v5", "=> " + lib).replace("=> ../", "=> " + HERE + "/")
            if v == "v4":
                text = text.replace("tree-search-language/v5", "tree-search-language/v4").replace("v5.0.0", "v4.0.0").replace("squirrel v1.4.0", "squirrel v1.1.0").replace("yaml.v2 v2.3.0", "yaml.v2 v2.2.8")
                text = text.replace("const version = 5", "const version = 4")
            with open(p, "w") as fh:
                fh.write(text)
    shutil.copy(os.path.join(HERE, "h5", "go%s.sum" % v[1:]), os.path.join(d, "go.sum"))
    out = os.path.join(tmp, name)
    run(["go", "build"] + list(flags) + ["-mod=mod", "-o", out, "."], cwd=d, env=dict(env(), **more))
    return out


def build_h5(tmp):
    return legacy(tmp, "v5", "h5", "h5", REPO + "/v5")


def build_h4(tmp):
    return legacy(tmp, "v4", "h4", "h5", REPO + "/v4")


def legacy_tools(tmp, v):
    """Builds the tools of a version, and the harness that runs them."""
    d = os.path.join(tmp, "tools-" + v)
    os.makedirs(d, exist_ok=True)
    m = modfile(tmp, "tools-" + v, open(os.path.join(REPO, v, "go.mod")).read(), [os.path.join(HERE, "h5", "go%s.sum" % v[1:])])
    run(["go", "build", "-mod=mod", "-modfile=" + m, "-o", d + "/", "./cmd/..."], cwd=os.path.join(REPO, v), env=env())
    os.environ["VERIF_TOOLS"] = d
    os.environ["VERIF_TMP"] = tmp
    return legacy(tmp, v, "h" + v[1:], "h5", os.path.join(REPO, v))


def build_h5tools(tmp):
    return legacy_tools(tmp, "v5")


def build_h4tools(tmp):
    return legacy_tools(tmp, "v4")


def build_s(v, kind):
    def build(tmp):
        name = "s%s%s" % (v[1:], kind)
        if kind:
            return legacy(tmp, v, name, "s5", os.path.join(REPO, v), ["-race"] if kind == "race" else [], CGO_CFLAGS_ALLOW=".*")
        return legacy(tmp, v, name, "s5", instrument(tmp, v, ["pkg"]), CGO_CFLAGS_ALLOW=".*")
    return build


BUILD = {"h5tools": build_h5tools, "h4tools": build_h4tools, "h5": build_h5, "h4": build_h4, "s6race": build_s6race, "s6": build_s6, "s6mem": build_s6mem, "h6msan": build_h6msan, "h6asan": build_h6asan, "h6": build_h6, "h6tools": build_h6tools}


for _v in ("v4", "v5"):
    for _k in ("", "h", "race"):
        BUILD["s" + _v[1:] + _k] = build_s(_v, _k)


def seconds(tier, parts):
    total = float(os.environ.get("VERIF_SECONDS", "240" if tier == "quick" else "780"))
    return total / max(1, parts)


def merge(tot, r, part):
    tot["states"] += r["states"]
    tot["transitions"] += r["transitions"]
    tot["traces_validated_against_impl"] += r["traces"]
    tot["evaluations"] += r["cases"]
    for k, v in (r.get("outcomes") or {}).items():
        tot["outcomes"][k] = tot["outcomes"].get(k, 0) + v
    for s in r.get("stages") or []:
        s = dict(s)
        s["part"] = part
        tot["stages"].append(s)
        tot["exhaustive"] = tot["exhaustive"] and s["complete"]
    tot["samples"] += (r.get("samples") or [])[:12]
    if r.get("capped"):
        tot["state_count_capped"] = True
    for k, v in (r.get("extra") or {}).items():
        tot[k] = v


def main(args):
    if args and args[0] == "--list":
        print(" ".join(sorted(PARTS)))
        return 0
    if args and args[0] == "--setup":
        # Warms the build cache where it is kept; every check builds what it needs by itself.
        tmp = tempfile.mkdtemp(prefix="tslcheck-")
        try:
            for part in sorted(BUILD):
                d = os.path.join(tmp, part)
                os.makedirs(d)
                try:
                    BUILD[part](d)
                except BuildError as e:
                    print("%s is not built yet: %s" % (part, e))
                shutil.rmtree(d, ignore_errors=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    if not args or args[0] not in PARTS:
        print(__doc__ or "usage: check PROPERTY", file=sys.stderr)
        return 2
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="tslcheck-")
    try:
        if len(args) > 2 and args[1] == "--replay":
            return replay(tmp, prop, args[2])
        return explore(tmp, prop, tier, t0)
    except BuildError as e:
        print("the harness does not build:\n%s" % e)
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def harness_env(tier, secs):
    e = env()
    e.update(ASAN_OPTIONS="detect_leaks=0:malloc_context_size=8:quarantine_size_mb=32:exitcode=77",
             GORACE="halt_on_error=1 exitcode=66", MSAN_OPTIONS="exitcode=77",
             VERIF_TIER=tier, VERIF_KNOWN=KNOWN, VERIF_DEADLINE=str(secs))
    return e


def explore(tmp, prop, tier, t0):
    parts = PARTS[prop]
    tot = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0, outcomes={}, stages=[],
               samples=[], exhaustive=True)
    failure, known = None, {}
    for k, part in enumerate(parts):
        binary, name = BUILD[part.split(":")[0]](tmp), (part.split(":") + [prop])[1]
        out = os.path.join(tmp, part.replace(":", "-") + ".json")
        secs = seconds(tier, len(parts))
        p = subprocess.run([binary, "run", name, out], env=harness_env(tier, secs))
        if p.returncode != 0 or not os.path.exists(out):
            print("part %s of the check ended with %s" % (part, p.returncode))
            return 3
        r = json.load(open(out))
        if r.get("error"):
            print("part %s: %s" % (part, r["error"]))
            return 3
        merge(tot, r, part)
        known.update(r.get("known") or {})
        if r.get("fail"):
            failure = (part, r["fail"])
            break
    for sig in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, sig, known[sig].replace("\n", " ")))
    code = 0
    if failure:
        part, f = failure
        f = dict(f, part=part, property=prop, tier=tier)
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % prop)
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        print("part %s, case %s:" % (part, f["case"]["kind"]))
        for a in f["case"].get("args") or []:
            print("  " + a[:2000])
        print(f["msg"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        tot["exhaustive"] = False
        code = 1
    tot["known_findings_seen"] = sorted(known)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=tot, wall_s=round(time.time() - t0, 2), violations=1 if code else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    print("%s %s: %s, states %d, transitions %d, traces %d, cases %d, exhaustive within bounds: %s, %.1f s" % (
        prop, tier, "VIOLATED" if code else "holds", tot["states"], tot["transitions"],
        tot["traces_validated_against_impl"], tot["evaluations"], tot["exhaustive"], time.time() - t0))
    return code


def replay(tmp, prop, path):
    f = json.load(open(path))
    part = f.get("part", PARTS[prop][0])
    binary, name = BUILD[part.split(":")[0]](tmp), (part.split(":") + [prop])[1]
    p = subprocess.run([binary, "replay", name, path], env=harness_env(f.get("tier", "quick"), 60))
    if p.returncode == 0:
        return 0
    if p.returncode == 3:
        return 3
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
