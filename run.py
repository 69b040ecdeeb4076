#!/usr/bin/env python3
"""Build and run the check of one property against /repo's working tree.

  run.py C01                 quick tier (or VERIF_TIER)
  run.py C01 --tier thorough
  run.py replay FILE         re-run a saved counterexample
"""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

CONFIGS = {
    "varint": ["spec"],
    "fixed": ["spec", "fixed"],
    "plain": [],
    "fixedplain": ["fixed"],
}
sys.path.insert(0, os.path.join(VERIF, "lib"))
from props import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_BOOTSTRAP="engine", RUSTC_WRAPPER="",
           PATH=os.environ.get("PATH", "") + ":/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)
ENV.setdefault("HOME", "/root")


# Memory checkers: how to build under them, and how to run what was built.
HOST = "x86_64-unknown-linux-gnu"
MIRI_ENV = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows", "RUSTUP_TOOLCHAIN": "nightly"}
ASAN_ENV = {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=address --cfg under_asan"}


class ToolError(Exception):
    pass


class NoMiri(Exception):
    """Miri does not run here; the rest of the check does."""


class Rejected(Exception):
    """The crate builds, but declarations it should accept do not."""


def gen_derived(seed, count, style=""):
    """Write the generated type declarations; a pure function of the arguments."""
    import gen
    out = os.path.join(BUILD, "gen")
    os.makedirs(out, exist_ok=True)
    ENV["DERIVED_GEN"] = out
    return gen.write_all(out, seed, count, style)


class Unit:
    """What to build and run: a bin, a configuration, whether with third-party
    types, the declarations generated, as (seed, number of random families,
    style), the number of iterations, and the memory checker it runs under."""

    def __init__(self, b, cfg, g, tier):
        self.bin, self.cfg, self.g = b["bin"], cfg, g
        self.third = b.get("third", False)
        self.iters = b["iters"][tier]
        self.mem = b.get("mem")
        self.sample = b.get("sample", {}).get(tier, 0)
        self.without = b.get("without", "")
        self.limit = b.get("limit", {}).get(tier)

    @property
    def name(self):
        g = self.g
        return self.cfg + (f"/gen{g[0]}x{g[1]}{g[2]}" if g else "") + (f"+{self.mem}" if self.mem else "")


def units(p, tier):
    out = []
    for b in p.get("bins") or [p]:
        configs = b.get("configs", p.get("configs"))[tier]
        if "gen" in b:
            rounds, count = b["gen"][tier]
            for k in range(rounds):
                for j, cfg in enumerate(configs):
                    # other declarations in each configuration
                    out.append(Unit(b, cfg, (SEED + 1000 * k + 100000 * j, count, b.get("style", "")), tier))
        else:
            out += [Unit(b, cfg, None, tier) for cfg in configs]
    return out


def cargo(u, target, env, extra=()):
    feats = list(CONFIGS[u.cfg]) + (["third"] if u.third else []) + (["derived"] if u.g else [])
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--target-dir", target,
           "-p", "checks", "--bin", u.bin, "--features", ",".join(feats), *extra]
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        txt = r.stdout.decode("utf8", "replace")
        failed = re.findall(r"could not compile `([\w-]+)`", txt)
        if u.g is not None and failed == ["derived"] and re.search(r"^error", txt, re.M) and "signal" not in txt:
            raise Rejected(txt)
        sys.stdout.write(txt[-6000:])
        raise ToolError(f"build of {u.bin} ({u.name}) failed")


def build(u):
    """Build a unit; the program to start, and the environment to start it in."""
    if u.g is not None:
        gen_derived(*u.g)
    env = dict(ENV)
    built = os.path.join(TARGET, "debug", u.bin)
    if u.mem == "asan":
        target = TARGET + "-asan"
        cargo(u, target, {**ENV, **ASAN_ENV}, ["--target", HOST])
        built = os.path.join(target, HOST, "debug", u.bin)
        env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:symbolize=1"
    else:
        cargo(u, TARGET, ENV)
    if u.mem == "miri":
        # The program itself only hands out the work.
        feats = list(CONFIGS[u.cfg]) + (["third"] if u.third else []) + (["derived"] if u.g else [])
        env.update(MIRI_ENV)
        env.pop("RUSTC_BOOTSTRAP")
        run = ["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--target-dir", TARGET + "-miri", "--manifest-path",
               os.path.join(HARNESS, "Cargo.toml"), "-p", "checks", "--bin", u.bin, "--features", ",".join(feats), "--"]
        r = subprocess.run(run + ["list"], env={**env, "VERIF_MEM": "miri"}, cwd=HARNESS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise NoMiri(r.stdout.decode("utf8", "replace")[-1500:])
        env["VERIF_RUNNER"] = " ".join(run)
    if u.mem:
        env["VERIF_MEM"] = u.mem
    dst = os.path.join(BUILD, "bin", u.cfg + (u.mem or ""))
    os.makedirs(dst, exist_ok=True)
    exe = os.path.join(dst, u.bin)
    if os.path.exists(exe):
        os.remove(exe)
    shutil.copy2(built, exe)
    return exe, env


def known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: "):
                rest = line[len("known: "):].strip()
                pr, sg, what = rest.split(" ", 2)
                out[(pr.split("=", 1)[1], sg.split("=", 1)[1])] = what
    return out


def check(prop, tier):
    t0 = time.time()
    p = PROPS[prop]
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(REPLAYS, f))
    if "python" in p:
        import importlib
        mod = importlib.import_module(p["python"])
        cov, violations, knowns, extra = mod.check(prop, tier, SEED, sys.modules[__name__])
    else:
        cov, violations, knowns, extra = rust_check(prop, tier, p)
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "exploration",
        "coverage": cov, "assumptions": p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    ev.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in knowns:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for msg, replay in violations:
        print(f"  {msg}"[:1500])
        print(f"VIOLATION property={prop} replay={replay}")
    print(f"{prop} {tier}: {cov.get('evaluations')} evaluations, {cov.get('distinct_nontrivial')} distinct non-trivial, "
          f"{len(violations)} violations, {ev['wall_s']} s")
    sys.stdout.flush()
    return 1 if violations else 0


def rejected(prop, name, txt):
    """Valid declarations that do not compile: nothing holds of their values."""
    first = re.search(r"^error.*(?:\n.*){0,3}", txt, re.M)[0]
    path = os.path.join(REPLAYS, f"{prop}-{name.replace('/', '_')}-declarations.replay")
    with open(path, "w") as f:
        f.write(f"property: {prop}\nconfig: {name}\ncase: declarations\n\n{txt[:20000]}")
    return (f"[{name}] valid declarations of types are refused: {first}", path)


def rust_check(prop, tier, p):
    kn = known()
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": p["rule"], "samples": [], "by_config": {}}
    violations, knowns, inconclusive = [], [], []
    t0 = time.time()
    for u in units(p, tier):
        name = u.name
        if violations and time.time() - t0 > 240:
            break
        tb = time.time()
        try:
            exe, env = build(u)
        except Rejected as e:
            violations.append(rejected(prop, name, str(e)))
            continue
        except NoMiri as e:
            cov["by_config"][f"{u.bin} {name}"] = {"not run": str(e)}
            print(f"Miri does not run here: {e}")
            continue
        except ToolError:
            if violations:
                break
            raise
        tb = time.time() - tb
        out = os.path.join(BUILD, f"{prop}-{u.bin}.json")
        if os.path.exists(out):
            os.remove(out)
        limit = u.limit or p.get("limit", {}).get(tier, 300 if tier == "quick" else 3000)
        r = subprocess.run([exe, "run", "--seed", str(SEED), "--tier", tier, "--iters", str(u.iters),
                            "--workers", "8", "--config", name, "--out", out, "--replays", REPLAYS,
                            "--sample", str(u.sample), "--without", u.without, "--time-limit", str(limit)]
                           + (["--stall", "240"] if u.mem else []),
                           env=env, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(out):
            sys.stdout.write(r.stdout.decode("utf8", "replace")[-3000:])
            if violations:
                break
            raise ToolError(f"{u.bin} ({name}) ended with {r.returncode}")
        j = json.load(open(out))
        cov["evaluations"] += j["evaluations"]
        cov["distinct_nontrivial"] += j["distinct_nontrivial"]
        cov["samples"] += [f"[{u.bin} {name}] {s}" for s in j["samples"]]
        c = {k: j[k] for k in ("cases", "runs", "evaluations", "nontrivial", "distinct_nontrivial", "labels", "wall_s")}
        c["build_s"] = round(tb, 2)
        cov["by_config"][f"{u.bin} {name}"] = c
        if j["inconclusive"]:
            inconclusive.append(f"{u.bin} {name}: {j['inconclusive']}")
        for f in j["failures"]:
            w = kn.get((prop, f["sig"])) if f["sig"] else None
            if w:
                if w not in knowns:
                    knowns.append(w)
                continue
            violations.append((f"[{name}] {f['case']}: {f['msg']}", f["replay"]))
        if len(violations) >= 12 or any(f["sig"] == "stuck" for f in j["failures"]):
            break
    if inconclusive and not violations:
        raise ToolError("inconclusive: " + "; ".join(inconclusive))
    return cov, violations, knowns, ({"inconclusive": inconclusive} if inconclusive else {})


def replay(path):
    head = dict(l.split(": ", 1) for l in open(path).read().splitlines() if ": " in l)
    prop, name = head["property"], head["config"]
    p = PROPS[prop]
    if "python" in p:
        import importlib
        return importlib.import_module(p["python"]).replay(prop, path, sys.modules[__name__])
    m = re.fullmatch(r"(\w+?)(?:/gen(\d+)x(\d+)(\w*))?(?:\+(\w+))?", name)
    g = (int(m[2]), int(m[3]), m[4]) if m[2] else None
    b = next(b for b in (p.get("bins") or [p]) if ("gen" in b) == (g is not None) and b.get("mem") == m[5])
    try:
        exe, env = build(Unit(b, m[1], g, "quick"))
    except Rejected as e:
        print(f"{e}\nVIOLATION property={prop} replay={path}")
        return 1
    if head.get("case") == "declarations":
        print("the declarations compile")
        return 0
    print(f"case: {head.get('case')}\nmessage when found: {head.get('message')}")
    return subprocess.run([exe, "replay", os.path.abspath(path)], env=env, cwd=HARNESS).returncode


def setup():
    """Build what the checks share; a failure here is not fatal, since every
    check builds what it needs."""
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "--target-dir", TARGET,
                        "-p", "subjects", "--features", "spec,third"], cwd=HARNESS, env=ENV)
    return r.returncode


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        if a[0] == "setup":
            return setup()
        if a[0] == "replay":
            return replay(a[1])
        return check(a[0], tier)
    except ToolError as e:
        print(f"ERROR: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
