#!/usr/bin/env python3
"""Decide one property of /verif/properties.jsonl for /repo's working tree.

usage: check.py ID [--tier quick|thorough] [--replay FILE]

Builds the harness of the property together with the code of /repo (through a
build overlay: nothing is written below /repo), generates cases in several
processes, writes evidence/ID.json, and ends with
  0  the property held on everything explored
  1  a line "VIOLATION property=ID replay=FILE" was printed
  other: the check could not answer (for example, the harness does not build)
"""
import hashlib, json, os, resource, shutil, subprocess, sys, tempfile, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
GO = "/opt/veriftools/go1.25.14/bin"
STANDIN = str(VERIF / "h" / "mathclass")
sys.path.insert(0, str(VERIF))
from meta import P as META  # noqa: E402
from table import CHECKS  # noqa: E402


def die(msg, code=2):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(code)


def go_env(scratch):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("VERIF_") or k in ("GOFLAGS", "GOROOT", "GOOS", "GOARCH"):
            del env[k]
    env.update(
        PATH=GO + ":" + env.get("PATH", "/usr/bin:/bin"),
        GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOWORK="off", GOENV="off",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
        GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
        HOME=os.environ.get("HOME", "/root"),
    )
    shutil.copy(REPO / "go.mod", scratch / "m.mod")
    shutil.copy(REPO / "go.sum", scratch / "m.sum")
    edit = ["go", "mod", "edit", "-require=pgregory.net/rapid@v1.3.0"]
    if "mathclass" in (REPO / "go.mod").read_text() and os.path.isdir(STANDIN):
        edit.append(f"-replace=github.com/mewmew/mathclass={STANDIN}")
    run(edit + [str(scratch / "m.mod")], env, scratch)
    env["GOFLAGS"] = f"-mod=mod -modfile={scratch}/m.mod"
    return env


def run(cmd, env, cwd, **kw):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die(f"{' '.join(map(str, cmd))} failed with {p.returncode}")
    return p.stdout


def overlay(spec, scratch):
    """The overlay adds the harness, and leaves out the package's own tests."""
    rep = {}
    for lib in spec.get("libs", ["vh"]):
        for f in sorted((VERIF / "h" / lib).glob("*.go")):
            rep[str(REPO / "zz_verif" / lib / f.name)] = str(f)
    # A bridge exports what the harness needs of the package's internals.
    for f in spec.get("bridge", []):
        src = VERIF / "h" / f
        rep[str(REPO / src.parent.name.replace("_", "/") / ("zz_verif_" + src.name))] = str(src)
    pkg = spec["pkg"]
    for f in spec["files"]:
        src = VERIF / "h" / f
        rep[str(REPO / pkg / ("zz_verif_" + src.name))] = str(src)
    p = scratch / "overlay.json"
    p.write_text(json.dumps({"Replace": rep}))
    return p


def build(ident, spec, scratch, env):
    ov = overlay(spec, scratch)
    out = scratch / "check.test"
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", str(ov), "-o", str(out)]
    if spec.get("race"):
        cmd.append("-race")
    cmd.append("./" + spec["pkg"])
    run(cmd, env, REPO)
    for name in spec.get("bins", []):
        run(["go", "build", "-o", str(scratch / name), "./cmd/" + name], env, REPO)
        (scratch / name).chmod(0o755)
    return out


def worker_env(spec, env, out, extra):
    e = dict(env)
    e.update(VERIF_OUT=str(out), VERIF_WORK=str(spec["work"]), VERIF_BIN=str(out.parent), VERIF_SHRINK="20s",
             VERIF_REPO_DIR=str(REPO), GOTRACEBACK="single", GOMAXPROCS="2",
             VERIF_KNOWN=",".join(known_findings(spec["id"])))
    e.update(spec.get("env", {}))
    e.update(extra)
    return e


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def start(binary, ident, e, out, log):
    return subprocess.Popen(
        [str(binary), "-test.run", f"^TestV_{ident}$", "-test.timeout", "0", "-test.v"],
        env=e, cwd=out, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits)


def replay_once(binary, ident, spec, env, scratch, path, cpu=40, wall=200):
    out = Path(tempfile.mkdtemp(prefix="r", dir=scratch))
    out.chmod(0o755)
    e = worker_env(spec, env, out, {"VERIF_REPLAY": str(path), "VERIF_CPU": str(cpu), "VERIF_MEM": "4000"})
    log = out / "log"
    with open(log, "w") as f:
        p = start(binary, ident, e, out, f)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
    text = log.read_text(errors="replace")
    return rc, text


def main():
    args = sys.argv[1:]
    if not args or args[0] not in CHECKS:
        die(f"usage: check.py ID [--tier T] [--replay FILE]; known: {' '.join(CHECKS)}")
    ident = args[0]
    spec = dict(CHECKS[ident], id=ident)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--replay":
            replay = Path(args[i + 1]).resolve()
        elif args[i] == "--n":
            spec["n"] = spec["n_thorough"] = int(args[i + 1])
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = Path(tempfile.mkdtemp(prefix=f"verif-{ident}-", dir="/tmp"))
    scratch.chmod(0o755)  # commands run as another user
    # Commands work on files in memory, where there is such a place.
    spec["work"] = Path(tempfile.mkdtemp(prefix=f"verif-{ident}-", dir="/dev/shm" if spec.get("bins") and os.access("/dev/shm", os.W_OK | os.X_OK) else scratch))
    spec["work"].chmod(0o755)
    code = 3
    try:
        code = check(ident, spec, tier, seed, replay, scratch, t0)
    finally:
        shutil.rmtree(spec["work"], ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def check(ident, spec, tier, seed, replay, scratch, t0):
    env = go_env(scratch)
    binary = build(ident, spec, scratch, env)
    if replay:
        rc, text = replay_once(binary, ident, spec, env, scratch, replay)
        print(text)
        if rc == 0:
            return 0
        print(f"VIOLATION property={ident} replay={replay}")
        return 1

    shards = spec.get("shards", 8)
    n = spec["n"] if tier == "quick" else spec.get("n_thorough", spec["n"] * 12)
    procs = []
    for s in range(shards):
        out = scratch / f"s{s}"
        out.mkdir()
        out.chmod(0o755)
        # rapid takes 0 as "random".
        h = hashlib.sha256(f"{seed}/{s}/{tier}".encode()).digest()
        rseed = int.from_bytes(h[:7], "big") | 1
        extra = dict(VERIF_N=str(max(1, n // shards)), VERIF_RAPID_SEED=str(rseed),
                     VERIF_SHARD=str(s), VERIF_SHARDS=str(shards), VERIF_TIER=tier,
                     VERIF_SEED=str(seed), VERIF_SOFT="420" if tier == "quick" else "700")
        corpus = VERIF / "corpus" / ident
        if s == 0 and corpus.is_dir():
            extra["VERIF_CORPUS"] = str(corpus)
        log = open(out / "log", "w")
        procs.append((s, out, start(binary, ident, worker_env(spec, env, out, extra), out, log)))
    deadline = t0 + 840
    stuck = False
    for s, out, p in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            stuck = True
            p.kill()
            p.wait()

    evaluations, nontrivial, labels, samples, known = 0, set(), {}, [], {}
    failures, broken, truncated = [], [], False
    for s, out, p in procs:
        for f in sorted(out.glob("result.*.json")):
            r = json.loads(f.read_text())
            evaluations += r["evaluations"]
            truncated = truncated or r["truncated"]
            nontrivial.update(r["prop"] + ":" + x for x in r["nontrivial"] or [])
            for k, v in r["labels"].items():
                key = r["prop"] + "/" + k
                labels[key] = labels.get(key, 0) + v
            for k, v in r["known"].items():
                known[k] = known.get(k, 0) + v
            if s < 3:
                samples += [{"prop": r["prop"], "case": c} for c in (r["samples"] or [])]
            if r["failure"]:
                failures.append(r["failure"])
        if p.returncode != 0 and not any(
                json.loads(f.read_text())["failure"] for f in out.glob("result.*.json")):
            broken.append((s, out, p.returncode))

    rdir = VERIF / "evidence" / "replay"
    rdir.mkdir(parents=True, exist_ok=True)

    def keep(fail):
        raw = json.dumps(fail, indent=1, ensure_ascii=False)
        path = rdir / f"{ident}-{hashlib.sha256(raw.encode()).hexdigest()[:12]}.json"
        path.write_text(raw)
        return path

    violation = None
    if failures:
        fail = min(failures, key=lambda f: len(json.dumps(f["case"])))
        path = keep(fail)
        rc, _ = replay_once(binary, ident, spec, env, scratch, path)
        print(f"prop {fail['prop']}: {fail['error'][:3000]}")
        print(f"case: {json.dumps(fail['case'], ensure_ascii=False)[:3000]}")
        print("the case fails again on its own" if rc != 0 else
              f"the case passes on its own: it needs what ran before it (seed {seed}, tier {tier})")
        violation = path
    errors = []
    if violation is None:
        for s, out, rc in broken:
            text = (out / "log").read_text(errors="replace")
            case = None
            hang = out / "hang.json"
            fatal = "fatal error: " in text or "runtime: goroutine stack exceeds" in text or "WARNING: DATA RACE" in text
            if hang.exists():
                case = json.loads(hang.read_text())
            elif fatal and (out / "current.json").exists():
                case = json.loads((out / "current.json").read_text())
            if case is None:
                errors.append(f"shard {s} ended with {rc}\n{text[-3000:]}")
                continue
            if "DATA RACE" in text and spec.get("race"):
                case["error"] = text[text.index("WARNING: DATA RACE"):][:4000]
                violation = keep(case)
                print(case["error"])
                break
            case["error"] = "hang or fatal error: " + (
                (out / "hang.why").read_text() if (out / "hang.why").exists() else text[-500:])
            path = keep(case)
            # A fresh process must fail in the same way, with more room.
            rc2, text2 = replay_once(binary, ident, spec, env, scratch, path)
            again = rc2 == 97 or (rc2 not in (0, "timeout") and (
                "fatal error: " in text2 or "REPLAY fail" in text2))
            if again:
                print(case["error"])
                print(f"case: {json.dumps(case['case'], ensure_ascii=False)[:3000]}")
                violation = path
                break
            errors.append(f"shard {s}: {case['error']}, not seen again")
            path.unlink()
    if stuck and violation is None:
        errors.append("out of time")

    listed = known_findings(ident)
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={ident} {listed[k]}")

    wall = time.time() - t0
    evidence = dict(
        property=ident, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=evaluations, distinct_nontrivial=len(nontrivial),
                      rule=f"{META[ident]['technique']}; a case is non-trivial by: {spec['rule']}", samples=samples[:12], classes=dict(sorted(labels.items())),
                      shards=shards, truncated=truncated),
        assumptions=spec.get("assumptions", []), wall_s=round(wall, 2),
        violations=1 if violation else 0)
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{ident}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=False))
    if violation:
        print(f"VIOLATION property={ident} replay={violation}")
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 3
    print(f"{ident}: {evaluations} cases, {len(nontrivial)} distinct and non-trivial, {wall:.1f} s")
    return 0


def known_findings(ident):
    out = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            # known: property=<id> key=<key> <what fails>
            if line.startswith(f"known: property={ident} key="):
                key, what = line[len(f"known: property={ident} key="):].split(" ", 1)
                out[key] = what
    return out


if __name__ == "__main__":
    main()
