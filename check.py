#!/usr/bin/env python3
"""check.py <property> <quick|thorough> [--replay FILE]: builds the model checker of a property from
/repo's working tree and runs it.  check.py --build-all builds every checker."""
import fcntl, hashlib, json, os, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
CRATE = {}
for crate, ids in {
    "syn": "C08 C09 C10 C11 C12 C13 C14 C15",
    "fs": "C17 C18 C19 C20 C23 C24 C25 C26 C27",
    "db": "C16 C21 C22",
    "srv": "C01 C02 C03 C04 C05 C06 C07 C28 C29 C34 C35",
}.items():
    for i in ids.split():
        CRATE[i] = crate
TS = "C30 C31 C32 C33".split()
# A crash of the process is a violation of these properties (the explored code runs in the checker).
CRASH_IS_VIOLATION = {"C04", "C08"}


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET,
             RUSTFLAGS="--cfg mls_verif -Awarnings", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="0",
             VERIF_DIR=VERIF, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    for k in ("RUSTC_WRAPPER", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


def source_hash():
    h = hashlib.sha256()
    for base in ("crates", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if "/node_modules" not in d)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def build(crate):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = os.path.join(VERIF, "mc", crate)
        stamp = os.path.join(TARGET, ".repo-hash-" + crate)
        want = source_hash()
        have = open(stamp).read() if os.path.exists(stamp) else None
        if have is not None and have != want:
            # cargo goes by time stamps, which a copied or restored tree need not respect
            for c in sorted(os.listdir(os.path.join(REPO, "crates"))):
                subprocess.run(["cargo", "clean", "-q", "-p", c], cwd=d, env=env(),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "-q", "--offline", "--bins"], cwd=d, env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:] + "\nbuild of mc/%s failed\n" % crate)
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(want)


def build_app():
    """The server's executable as it is shipped: without the hooks."""
    target = os.path.join(TARGET, "app")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".repo-hash")
        want = source_hash()
        have = open(stamp).read() if os.path.exists(stamp) else None
        e = env()
        e.update(CARGO_TARGET_DIR=target, RUSTFLAGS="-Awarnings", MOVE_LANGUAGE_SERVER_REV="verif")
        d = os.path.join(REPO, "crates", "move_language_server")
        if have is not None and have != want:
            for c in sorted(os.listdir(os.path.join(REPO, "crates"))):
                subprocess.run(["cargo", "clean", "-q", "-p", c], cwd=d, env=e,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "-q", "--offline", "--locked", "--bin", "move_language_server"], cwd=d,
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:] + "\nbuild of the executable failed\n")
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(want)


def main():
    if sys.argv[1] == "--build-all":
        for c in sorted(set(CRATE.values())):
            if os.path.isdir(os.path.join(VERIF, "mc", c)):
                build(c)
        build_app()
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rest = sys.argv[3:]
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if not rest and os.path.exists(ev):
        os.remove(ev)
    start = time.time()
    if pid in TS:
        cmd = ["node", os.path.join(VERIF, "mc", "ts", "run.js"), pid, tier] + rest
    else:
        build(CRATE[pid])
        if pid == "C34":
            build_app()
        cmd = [os.path.join(TARGET, "debug", "mc_" + CRATE[pid]), pid, tier] + rest
    e = env()
    e["VERIF_TIER"] = tier
    p = subprocess.Popen(cmd, cwd=VERIF, env=e, stdout=subprocess.PIPE, text=True, errors="replace")
    seen = False
    for line in p.stdout:
        seen = seen or line.startswith("VIOLATION ")
        sys.stdout.write(line)
        sys.stdout.flush()
    rc = p.wait()
    if rc in (0, 1) and (rc == 1) == seen:
        return rc
    if rc < 0 and not seen and pid in CRASH_IS_VIOLATION and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS):
        rp = os.path.join(VERIF, "evidence", "replay", pid + "-crash.txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            f.write("property %s\nthe process running the code died with signal %d (%s)\n" % (pid, -rc, " ".join(cmd)))
        with open(ev, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": int(e["VERIF_SEED"]), "level": "model_checking",
                       "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                                    "samples": ["the explored code crashed the process"]},
                       "wall_s": time.time() - start, "violations": 1}, f)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if seen:
        return 1
    sys.stderr.write("no answer: the checker ended with status %d\n" % rc)
    return 2


if __name__ == "__main__":
    sys.exit(main())
