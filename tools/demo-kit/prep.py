"""prep.py KIT WS CRATE HOST DEMO: a copy of the workspace in the current directory, with the demonstration as a
test module of HOST (a source file of CRATE) and a toy in the place of jf-signature."""
import os
import re
import shutil
import sys

kit, ws, crate, host, demo = sys.argv[1:6]
CRATES = ["cdn-proto", "cdn-broker", "cdn-marshal", "cdn-client"]
for c in CRATES:
    shutil.copytree(c, os.path.join(ws, c), ignore=shutil.ignore_patterns("target", "benches"))
    p = os.path.join(ws, c, "Cargo.toml")
    with open(p) as f:
        t = f.read()
    t = "".join(x for x in re.split(r"(?m)^(?=\[)", t) if not x.startswith(("[[bin]]", "[[bench]]")))
    if c == crate:
        for dep in ('async-trait = "0.1"', 'rand.workspace = true', 'anyhow = "1"', 'cdn-proto = { path = "../cdn-proto" }'):
            if not re.search(r"(?m)^%s\b" % re.escape(dep.split()[0].split(".")[0]), t) and c != "cdn-proto":
                t = t.replace("[dependencies]\n", "[dependencies]\n" + dep + "\n", 1)
    t = t.replace("[package]\n", "[package]\nautobenches = false\nautobins = false\nautotests = false\n", 1)
    with open(p, "w") as f:
        f.write(t)
with open("Cargo.toml") as f:
    t = f.read()
t = re.sub(r"(?ms)^jf-signature\s*=\s*\{.*?\}\s*$", 'jf-signature = { path = "./jf", features = ["std", "bls"] }', t, count=1)
t = re.sub(r',?\s*"tests"', "", t)
# paused clocks
t = re.sub(r'(?m)^(tokio\s*=\s*\{[^]]*?features\s*=\s*\[)', r'\1"test-util", "time", "net", "io-util", "sync", ', t, count=1)
with open(os.path.join(ws, "Cargo.toml"), "w") as f:
    f.write(t)
shutil.copytree(os.path.join(kit, "jf"), os.path.join(ws, "jf"))
with open("Cargo.lock") as f:
    t = f.read()
t = re.sub(r'(?ms)^\[\[package\]\]\nname = "jf-signature"\n.*?(?=^\[\[package\]\]|\Z)',
           '[[package]]\nname = "jf-signature"\nversion = "0.4.0"\ndependencies = [\n "ark-serialize",\n "rand",\n]\n\n', t)
with open(os.path.join(ws, "Cargo.lock"), "w") as f:
    f.write(t)
shutil.copy(demo, os.path.join(ws, "vp_demo.rs"))
for f in ("common.rs", "broker.rs"):
    shutil.copy(os.path.join(kit, f), os.path.join(ws, f))
with open(os.path.join(ws, crate, host), "a") as f:
    f.write('\n#[cfg(test)]\n#[path = "%s"]\nmod vp_demo;\n' % os.path.join(ws, "vp_demo.rs"))
