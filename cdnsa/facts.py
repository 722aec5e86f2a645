"""Extracts MIR facts from /repo's current working tree.

A mirror of the workspace (sources copied, jf-signature replaced by the type-only stub) is kept in
/verif/.cache; `cargo +nightly check` runs over it with the driver as RUSTC_WORKSPACE_WRAPPER.  Results are
cached by a hash of every input; nothing of /repo is written.
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CDN_REPO", "/repo")
CACHE = os.environ.get("CDN_CACHE", os.path.join(VERIF, ".cache"))
TOOLCHAIN = "nightly"
CRATES = ["cdn-proto", "cdn-broker", "cdn-marshal", "cdn-client"]
EXPECT = ["cdn_proto", "cdn_broker", "cdn_marshal", "cdn_client"]


class FactsError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, env=kw.pop("env", env()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def members():
    """(member, [files]) of the library crates."""
    out = []
    for m in CRATES:
        base = os.path.join(REPO, m)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "benches"))
            for f in sorted(files):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def read(rel):
    with open(os.path.join(REPO, rel), "rb") as f:
        return f.read()


def source_hash():
    parts = []
    for rel in ["Cargo.toml", "Cargo.lock"] + members():
        parts += [rel, read(rel)]
    for base in ("driver", "stub"):
        for d, _, files in os.walk(os.path.join(VERIF, base)):
            for f in sorted(files):
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    parts += [os.path.relpath(p, VERIF), fh.read()]
    return sha(*parts)


def build_driver():
    src = os.path.join(VERIF, "driver", "driver.rs")
    with open(src, "rb") as f:
        h = sha(f.read())
    out = os.path.join(CACHE, "driver", h)
    exe = os.path.join(out, "cdn-facts-driver")
    if os.path.exists(exe):
        return exe
    os.makedirs(out, exist_ok=True)
    r = run(["rustc", "+" + TOOLCHAIN, "-O", "--edition", "2021", src, "-o", exe + ".tmp"])
    if r.returncode != 0:
        raise FactsError("the fact extractor does not build:\n" + r.stdout[-3000:])
    os.rename(exe + ".tmp", exe)
    return exe


def without_tables(text, names):
    out = []
    for part in re.split(r"(?m)^(?=\[)", text):
        if any(part.startswith(n) for n in names):
            continue
        out.append(part)
    return "".join(out)


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    with open(path, "wb") as f:
        f.write(data)


def mirror(ws):
    """Writes the mirror of the workspace."""
    keep = {"Cargo.toml", "Cargo.lock"}
    root = read("Cargo.toml").decode()
    # the stub in the place of the git dependency
    root = re.sub(
        r"(?ms)^jf-signature\s*=\s*\{.*?\}\s*$",
        'jf-signature = { path = "%s", features = ["std", "bls"] }' % os.path.join(VERIF, "stub", "jf-signature"),
        root,
        count=1,
    )
    mem = tomllib.loads(root)["workspace"]["members"]
    for m in mem:
        if m not in CRATES:
            root = re.sub(rf',?\s*"{re.escape(m)}"', "", root)
    put(os.path.join(ws, "Cargo.toml"), root.encode())
    for rel in members():
        keep.add(rel)
        data = read(rel)
        if rel.endswith("/Cargo.toml"):
            text = without_tables(data.decode(), ("[[bench]]",))
            text = text.replace("[package]\n", "[package]\nautobenches = false\nautobins = false\nautotests = false\n", 1)
            data = text.encode()
        put(os.path.join(ws, rel), data)
    lock = read("Cargo.lock").decode()
    lock = re.sub(
        r'(?ms)^\[\[package\]\]\nname = "jf-signature"\n.*?(?=^\[\[package\]\]|\Z)',
        '[[package]]\nname = "jf-signature"\nversion = "0.4.0"\ndependencies = [\n "ark-serialize",\n]\n\n',
        lock,
    )
    put(os.path.join(ws, "Cargo.lock.base"), lock.encode())
    keep.add("Cargo.lock.base")
    lk = os.path.join(ws, "Cargo.lock")
    stamp = os.path.join(ws, ".lockhash")
    h = sha(lock)
    if not (os.path.exists(lk) and os.path.exists(stamp) and open(stamp).read() == h):
        with open(lk, "w") as f:
            f.write(lock)
        with open(stamp, "w") as f:
            f.write(h)
    keep.add(".lockhash")
    for d, dirs, files in os.walk(ws):
        for f in files:
            p = os.path.join(d, f)
            if os.path.relpath(p, ws) not in keep:
                os.unlink(p)


BINS = ["broker", "marshal"]  # the programs; the crate's own dependencies come with it
VARIANTS = {
    "programs": ["--bin", "broker", "--bin", "marshal"],
    "default": [],
    "global-permits": ["--features", "cdn-broker/global-permits,cdn-marshal/global-permits"],
    "eventual": ["--no-default-features"],
}


def extract(variant="default"):
    """The facts of the variant as a dict crate -> facts; cached by content."""
    t0 = time.time()
    expect = EXPECT + (BINS if variant == "programs" else [])
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lockf:
        fcntl.flock(lockf, fcntl.LOCK_EX)
        h = source_hash()
        out = os.path.join(CACHE, "facts", f"{variant}-{h}")
        done = os.path.join(out, "DONE")
        cached = os.path.exists(done)
        if not cached:
            drv = build_driver()
            ws = os.path.join(CACHE, "ws")
            mirror(ws)
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            target = os.path.join(CACHE, "target")
            # force the four crates through the driver: cargo's freshness check would skip it
            for crate in CRATES:
                lib = os.path.join(ws, crate, "src", "lib.rs")
                if os.path.exists(lib):
                    os.utime(lib)
                # either layout of cargo's build directory
                for d in glob.glob(os.path.join(target, "debug", "build", crate, "*", "fingerprint")) + glob.glob(os.path.join(target, "debug", ".fingerprint", crate + "-*")):
                    if any(x.startswith(("lib-", "test-lib-", "bin-")) for x in os.listdir(d)):
                        shutil.rmtree(d)
            e = env()
            sysroot = run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"]).stdout.strip().splitlines()[-1]
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
            e["CARGO_TARGET_DIR"] = target
            e["CDN_FACTS_DIR"] = tmp
            cmd = ["cargo", "+" + TOOLCHAIN, "check", "--offline", "--lib", "--workspace"] + VARIANTS[variant]
            r = run(cmd, cwd=ws, env=e)
            if r.returncode != 0:
                raise FactsError("cargo check failed on the current tree:\n" + r.stdout[-4000:])
            missing = [c for c in expect if not os.path.exists(os.path.join(tmp, c + ".json"))]
            if missing:
                raise FactsError(f"no facts for {missing} (did cargo skip the driver?)\n" + r.stdout[-2000:])
            with open(os.path.join(tmp, "DONE"), "w") as f:
                f.write(h)
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
            # keep a few
            base = os.path.join(CACHE, "facts")
            olds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
            for d in olds[:-12]:
                shutil.rmtree(d, ignore_errors=True)
    facts = {}
    for c in expect:
        with open(os.path.join(out, c + ".json")) as f:
            facts[c] = json.load(f)
    return facts, {"hash": h, "cached": cached, "extract_s": round(time.time() - t0, 1), "dir": out}


if __name__ == "__main__":
    for v in sys.argv[1:] or ["default"]:
        _, info = extract(v)
        print(v, info)
