#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] | --setup

Builds the harness against /repo's working tree, once per configuration the
property is checked in, runs the property's parts in each, and writes
evidence/PROPERTY.json. Exit 0: held on everything explored. Exit 1, with a
VIOLATION line: broken. Exit 2: the machinery itself failed."""
import concurrent.futures as cf
import errno
import glob
import hashlib
import json
import os
import random
import resource
import shutil
import subprocess
import sys
import threading
import time
import tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")

# property -> configurations of the quick tier, further ones of the thorough
# tier. D is the build without a crypto provider.
PROPS = {
    "C01": (["A", "C", "F", "E", "D", "I"], ["B", "G", "H"]),
    "C02": (["A", "I", "B", "C", "F"], []),
    "C03": (["A", "B", "C", "D", "F", "I"], ["E", "G", "H"]),
    "C04": (["A", "B", "C", "D", "F", "I"], ["E", "G", "H"]),
    "C05": (["A", "B", "C", "D", "F", "I"], ["E", "G", "H"]),
    "C06": (["A", "B", "C", "D", "F", "I"], ["E", "G", "H"]),
    "C07": (["A", "B", "C", "D", "F", "I"], ["E", "G", "H"]),
    "C08": (["A", "C", "D", "I", "E", "G"], ["B", "F", "H"]),
    "C09": (["A", "I", "D", "C", "G"], ["B", "E", "F", "H"]),
    "C10": (["A", "C", "D", "E", "G", "I"], ["B", "F", "H"]),
    "C11": (["A", "C", "I", "D", "B"], ["E", "F", "G", "H"]),
    "C12": (["A", "I", "D", "B", "C"], ["E", "F", "G", "H"]),
    "C13": (["A", "I", "D", "C"], ["B", "E", "F", "G", "H"]),
    "C14": (["A", "D", "C", "I"], ["B", "E", "F", "G", "H"]),
    "C15": (["A", "C", "H", "D", "I"], ["B", "E", "F", "G"]),
    "C16": (["A", "B", "C", "F", "I"], ["E"]),
    "C17": (["A", "B", "I", "C", "F"], []),
    "C18": (["A", "C", "D", "I", "B"], ["E", "F", "G", "H"]),
    "C19": (["A", "C", "D", "I"], ["B", "E", "F", "G", "H"]),
    "C20": (["A", "D"], ["C"]),
    "C21": (["A", "B", "C", "F", "I"], ["D", "E", "G", "H"]),
    "C22": (["A", "B"], ["C", "E", "F", "G", "H", "I"]),
    "C23": (["A", "B"], ["C", "E", "F", "G", "H", "I"]),
    "C24": (["A", "B", "D", "C"], ["E", "F", "G", "H", "I"]),
    "C25": (["A", "B", "C", "D", "E", "F", "G", "H", "I"], []),
    "C26": (["D", "E", "G", "H", "A", "C"], ["B", "F", "I"]),
    "C27": (["A", "I", "C", "F"], ["B", "E", "G", "H"]),
    "C28": (["A", "B", "C", "I"], ["E", "F", "G", "H"]),
    "C29": (["A", "I", "C", "D"], ["B", "E", "F", "G", "H"]),
}
NO_CRYPTO = {"D"}
# properties also checked in so many random configurations (quick, thorough)
RANDOM = {"C25": (2, 24)}
CAPS = ["CERT_CAP", "CHAL_CAP", "ENCRYPT_CAP", "MAC_CAP", "MUT_AUTH_CAP", "KEY_EX_CAP", "KEY_UPD_CAP"]


# seconds after which the quick tier starts no further cases
QUICK_S = int(os.environ.get("VERIF_QUICK_S", "600"))


class Broken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def toml_path(name):
    """The configuration file; that of a random configuration is written first.
    Its name, R<seed>x<index>, says it all."""
    if not name.startswith("R"):
        return os.path.join(HERE, "configs", name + ".toml")
    path = os.path.join(BUILD, "configs", name + ".toml")
    if os.path.exists(path):
        return path
    r = random.Random(name)
    pick = lambda lo, hi, *odd: r.choice([lo, hi, *odd]) if r.random() < 0.3 else r.randint(lo, hi)
    caps = [] if no_crypto(name) else r.sample(CAPS, r.randint(0, 7)) if r.random() < 0.4 else r.sample(CAPS, 7)
    text = f"""capabilities = {json.dumps(caps)}
[cert_chains]
num_slots = {pick(1, 8)}
buf_size = {pick(600, 4000, 65536, 65535, 0, 36) if r.random() < 0.8 else r.randint(0, 65536)}
max_depth = {pick(0, 24)}
[transcript]
buf_size = {pick(800, 9000, 0, 300, 65536, 200000)}
[algorithms]
max_digest_size = {r.choice([64, 64, 65, 80])}
asymmetric_signing = ["ECDSA_ECC_NIST_P256"]
[measurement]
max_blocks = {pick(0, 40)}
max_size = {pick(0, 400, 1, 2000)}
[opaque_data]
max_elements = {pick(0, 16, 100)}
max_element_data_size = {pick(0, 100, 1, 300, 1000)}
"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + f".{os.getpid()}", "w") as f:
        f.write(text)
    os.rename(path + f".{os.getpid()}", path)
    return path


def no_crypto(name):
    return name in NO_CRYPTO or (name.startswith("R") and int(name.split("x")[1]) % 4 == 3)


def settings(name):
    """What the TOML file says, for the oracles."""
    with open(toml_path(name), "rb") as f:
        t = tomllib.load(f)
    return {
        "name": name,
        "capabilities": t["capabilities"],
        "slots": t["cert_chains"]["num_slots"],
        "buf": t["cert_chains"]["buf_size"],
        "depth": t["cert_chains"]["max_depth"],
        "transcript": t["transcript"]["buf_size"],
        "max_digest": t["algorithms"]["max_digest_size"],
        "blocks": t["measurement"]["max_blocks"],
        "meas": t["measurement"]["max_size"],
        "elems": t["opaque_data"]["max_elements"],
        "edata": t["opaque_data"]["max_element_data_size"],
    }


# the quick tier's binaries are built faster, the thorough tier's run faster
OPT = "0"


def tree_key(config):
    """What the binary for a configuration is built from."""
    h = hashlib.sha256(OPT.encode())

    def add(path):
        h.update(path.encode())
        with open(path, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())

    roots = [REPO + "/src", REPO + "/test-utils", HERE + "/harness/src", HERE + "/vcommon/src", HERE + "/getrandom-shim/src"]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                add(os.path.join(d, f))
    for f in [
        REPO + "/Cargo.toml", REPO + "/build.rs", REPO + "/config.rs.template",
        HERE + "/harness/Cargo.toml", HERE + "/harness/Cargo.lock", HERE + "/harness/.cargo/config.toml",
        HERE + "/vcommon/Cargo.toml", HERE + "/getrandom-shim/Cargo.toml",
        toml_path(config),
    ]:
        add(f)
    return h.hexdigest()[:24]


def cargo(config, target):
    env = dict(os.environ)
    env["SPDM_CONFIG"] = toml_path(config)
    env.pop("RUSTFLAGS", None)
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_PROFILE_DEV_OPT_LEVEL"] = OPT
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet"]
    cmd += ["--features", "full" if no_crypto(config) else "full,crypto"]
    p = subprocess.run(cmd, cwd=HERE + "/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        errs = [l for l in p.stdout.splitlines() if not l.startswith("warning")]
        raise Broken(f"the harness does not build in configuration {config}:\n" + "\n".join(errs[-60:]))


base_lock = threading.Lock()
target_locks = {}


def build(config):
    """The path of the harness binary for this configuration."""
    key = tree_key(config)
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)
    out = os.path.join(bindir, f"{config}-{key}")
    if os.path.exists(out):
        return out
    # random configurations share a few target directories
    tname = config if not config.startswith("R") else "R" + str(int(config.split("x")[1]) % 8)
    target = os.path.join(BUILD, "t-" + tname)
    base = os.path.join(BUILD, "base")
    with base_lock:
        # the dependencies are built once, and copied
        if not os.path.exists(base + "/ok"):
            shutil.rmtree(base, ignore_errors=True)
            env = dict(os.environ)
            env["SPDM_CONFIG"] = os.path.join(HERE, "configs/A.toml")
            env["CARGO_TARGET_DIR"] = base
            env.pop("RUSTFLAGS", None)
            cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--features", "crypto", "--lib"]
            p = subprocess.run(cmd, cwd=HERE + "/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise Broken("the dependencies do not build:\n" + p.stdout[-3000:])
            open(base + "/ok", "w").close()
    with target_locks.setdefault(tname, threading.Lock()):
        if not os.path.isdir(target):
            tmp = target + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            subprocess.run(["cp", "-a", base, tmp], check=True)
            os.rename(tmp, target)
        cargo(config, target)
        for f in os.listdir(bindir):
            if f.startswith(config + "-") and not f.endswith(".tmp"):
                os.unlink(os.path.join(bindir, f))
        # the build script, for the property that is about it: the one cargo
        # built last is the one for this tree
        scripts = glob.glob(target + "/debug/build/spdm-*/build-script-build")
        if not scripts:
            raise Broken("no build script in " + target)
        shutil.copy2(max(scripts, key=os.path.getmtime), out + ".script")
        # by a process of its own: a program that a thread here is writing
        # cannot be started while another thread's child still has it open
        subprocess.run(["cp", "-p", os.path.join(target, "debug", "harness"), out + f".{os.getpid()}"], check=True)
        os.rename(out + f".{os.getpid()}", out)
    return out


def run_env(config):
    env = dict(os.environ)
    env["VCFG"] = json.dumps(settings(config))
    env["VERIF_HOME"] = HERE
    env["RUST_BACKTRACE"] = "0"
    env["VSCRIPT"] = build(config) + ".script"
    return env


def run_binary(args, **kw):
    """subprocess.run, patient with a program that was only just written."""
    for i in range(50):
        try:
            return subprocess.run(args, **kw)
        except OSError as e:
            if e.errno != errno.ETXTBSY or i == 49:
                raise
            time.sleep(0.1)


def run_one(prop, tier, config, work, until=None, patience=None):
    """The report of one configuration."""
    try:
        binary = build(config)
    except Broken as e:
        # a configuration file within the documented ranges must give a
        # library that builds, if any does
        if config.startswith("R") and "does not build in" in str(e):
            build("D" if no_crypto(config) else "A")
            with open(toml_path(config)) as f:
                return {"parts": [], "violations": [{"part": "build", "case": f.read(), "message": str(e), "config": config}]}
        raise
    out = os.path.join(work, config + ".json")
    t = time.time()
    env = run_env(config)
    if until:
        env["VUNTIL"] = str(int(until))
    if patience:
        env["VHANG"] = str(patience)
    p = run_binary([binary, prop, tier, out], env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode == 0:
        with open(out) as f:
            rep = json.load(f)
        for v in rep["violations"]:
            v["config"] = config
            if v["message"].startswith("no result after"):
                # a case that does not end: only if it uses up its processor
                # time alone in a process of its own
                st, msg = replay_case(prop, config, v["part"], v["case"], work)
                if st != "fails":
                    if not patience:
                        return run_one(prop, tier, config, work, until, 300)
                    raise Broken(f"a case took too long, but not when repeated: {prop} {config} {v['part']}")
                v["message"] = msg
        rep["wall"] = time.time() - t
        return rep
    if p.returncode > 0:
        raise Broken(f"harness {config}: exit {p.returncode}: {p.stderr.decode(errors='replace')[-2000:]}")
    # killed by a signal: find the case that does it
    jd = os.path.join(work, "journal-" + config)
    os.makedirs(jd, exist_ok=True)
    env = run_env(config)
    env["VJOURNAL"] = jd
    first = p.returncode
    subprocess.run([binary, prop, tier, out], env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    for f in sorted(os.listdir(jd)):
        with open(os.path.join(jd, f)) as fh:
            try:
                j = json.load(fh)
            except ValueError:
                continue
        st, msg = replay_case(prop, config, j["part"], j["case"], work)
        if st == "fails":
            return {"parts": [], "violations": [{"part": j["part"], "case": j["case"], "message": msg, "config": config}]}
    raise Broken(f"harness {config} died of signal {-first}; no single case does: {p.stderr.decode(errors='replace')[-1000:]}")


def replay_case(prop, config, part, case, work):
    binary = build(config)
    f = os.path.join(work, f"replay-{config}.json")
    with open(f, "w") as fh:
        json.dump({"part": part, "case": case}, fh)

    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (60, 70))

    try:
        p = run_binary([binary, prop, "replay", f], env=run_env(config), cwd=work, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, preexec_fn=lim, timeout=600)
    except subprocess.TimeoutExpired:
        raise Broken("replay neither ends nor computes")
    if p.returncode == 0:
        return "holds", ""
    if p.returncode == 1:
        return "fails", p.stdout.decode(errors="replace").strip()
    if p.returncode < 0:
        if -p.returncode in (24, 9):
            return "fails", "does not end: 60 s of processor time on one case"
        return "fails", f"the process dies of signal {-p.returncode}"
    raise Broken("replay: " + p.stderr.decode(errors="replace")[-1000:])


def known(prop):
    """Findings recorded and not repaired: KNOWN property=ID config=X part=P case=JSON -- what."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("KNOWN property=" + prop + " "):
                head, what = line.rstrip("\n").split(" -- ", 1)
                f = dict(x.split("=", 1) for x in head.split(" ", 4)[1:])
                out.append({"config": f["config"], "part": f["part"], "case": json.loads(f["case"]), "what": what})
    return out


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        try:
            with cf.ThreadPoolExecutor(9) as ex:
                list(ex.map(build, "ABCDEFGHI"))
        except Broken as e:
            log(e)
            return 2
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    only = None
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 2
        elif args[i] == "--replay":
            replay = args[i + 1]
            i += 2
        elif args[i] == "--configs":
            only = args[i + 1].split(",")
            i += 2
        else:
            raise SystemExit("usage")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if tier == "thorough":
        global OPT
        OPT = "1"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.environ["VERIF_SEED"] = str(seed)
    work = os.path.join(BUILD, "work", f"{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    start = time.time()
    try:
        if replay:
            with open(replay) as f:
                r = json.load(f)
            if r["part"] == "build":
                try:
                    build(r["config"])
                    print("holds")
                    return 0
                except Broken as e:
                    print(f"VIOLATION property={prop} replay={replay}")
                    print(e)
                    return 1
            st, msg = replay_case(prop, r["config"], r["part"], r["case"], work)
            if st == "fails":
                print(f"VIOLATION property={prop} replay={replay}")
                print(msg)
                return 1
            print("holds")
            return 0
        configs = list(PROPS[prop][0])
        if tier == "thorough":
            configs += PROPS[prop][1]
        if prop in RANDOM:
            configs += [f"R{seed}x{i}" for i in range(RANDOM[prop][tier == "thorough"])]
        if only:
            configs = only
        with cf.ThreadPoolExecutor(min(len(configs), 12)) as ex:
            # a machine that is too busy for all cases still gets its answer
            until = start + QUICK_S if tier == "quick" else None
            reps = list(ex.map(lambda c: (c, run_one(prop, tier, c, work, until)), configs))
        kn = known(prop)
        for k in kn:
            st, _ = replay_case(prop, k["config"], k["part"], k["case"], work)
            if st == "fails":
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        viols = []
        for c, r in reps:
            for v in r["violations"]:
                if any(k["config"] == c and k["part"] == v["part"] and k["case"] == v["case"] for k in kn):
                    continue
                viols.append(v)
        evidence(prop, tier, seed, reps, viols, time.time() - start)
        if not viols:
            ev = sum(p["evaluations"] for _, r in reps for p in r["parts"])
            print(f"{prop}: held on {ev} cases in {len(reps)} configurations, {time.time() - start:.1f} s")
            return 0
        os.makedirs(REPLAYS, exist_ok=True)
        for v in viols:
            body = json.dumps({"property": prop, **v}, indent=1)
            name = f"{prop}-{v['config']}-{v['part']}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.json"
            path = os.path.join(REPLAYS, name)
            with open(path, "w") as f:
                f.write(body)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  [{v['config']}/{v['part']}] {v['message'][:1500]}")
        return 1
    except Broken as e:
        log(e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(prop, tier, seed, reps, viols, wall):
    rules = {}
    samples = []
    parts = []
    for c, r in reps:
        for p in r["parts"]:
            rules[p["name"]] = p["rule"]
            parts.append({"config": c, **{k: p[k] for k in ("name", "evaluations", "nontrivial", "distinct_nontrivial", "classes", "left_out", "cpu_s")}})
            if p["samples"] and sum(1 for s in samples if s["part"] == p["name"]) < 2:
                samples.append({"part": p["name"], "config": c, **p["samples"][0]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
            "rule": "A case counts when, per part: " + "; ".join(f"{n}: {r}" for n, r in rules.items())
            + ". Distinct within its part and configuration.",
            "samples": samples,
            "parts": parts,
            "configurations": {c: settings(c) for c, _ in reps},
        },
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    path = os.path.join(EVID, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
