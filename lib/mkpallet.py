#!/usr/bin/env python3
"""Helper for planting pallet bugs: writes seeded/<id>/ with a demo that carries its own copy of the stand-ins
(the demo may use nothing else of this directory), and leaves the change in /tmp/seedwt for newseed.py."""
import json
import os
import shutil
import subprocess

V = "/verif"
KIT = {
    "pay": dict(crates=["vk", "shim", "shim-macro", "thin", "pallet-payments"], harness="pay", files=["runtime.rs", "ledger.rs"],
                pallets=["pallet-payments"]),
    "com": dict(crates=["vk", "shim", "shim-macro", "thin", "pallet-communities", "pallet-communities-manager"], harness="com",
                files=["runtime.rs"], pallets=["pallet-communities", "pallet-communities-manager"]),
    "rt": dict(crates=["vk", "shim", "shim-macro", "thin", "bs58-switch", "pallet-communities", "pallet-payments", "virto-common"],
               harness="rt", files=["lib.rs", "parts.rs", "standins.rs", "world.rs"],
               pallets=["pallet-communities", "pallet-payments", "virto-common"]),
}


def seed(kit, sid, prop, needs, breaks, edits, main):
    k = KIT[kit]
    d = f"{V}/seeded/{sid}"
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(f"rm -rf /tmp/seedwt && git clone -q {os.environ.get('DRY', '/repo')} /tmp/seedwt", shell=True, check=True)
    for f, old, new in edits:
        p = f"/tmp/seedwt/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for c in k["crates"]:
        shutil.copytree(f"{V}/crates/{c}", f"{d}/kit/crates/{c}", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    p = f"{d}/kit/crates/shim/src/sp_runtime.rs"
    s = open(p).read()
    i, j = s.index("/// floor(a / b), as a value"), s.index("/// Leaves open what a percentage")
    s = s[:i] + ("fn div_floor(a: u128, b: u64) -> u64 {\n    (a / b as u128) as u64\n}\n"
                 "fn div_floor_narrow(a: u64, b: u64) -> u64 {\n    a / b\n}\n\n") + s[j:]
    open(p, "w").write(s)
    for c in k["pallets"]:
        p = f"{d}/kit/crates/{c}/Cargo.toml"
        s = open(p).read()
        open(p, "w").write(s.replace("/repo/", "@REPO@/"))
    os.makedirs(f"{d}/kit/demo/src")
    h = f"{V}/harness/{k['harness']}"
    s = open(f"{h}/Cargo.toml").read().replace("../../crates", "../crates").replace(f'name = "{k["harness"]}"', 'name = "demo"')
    if kit == "rt":
        s = s.replace("[dependencies]", '[lib]\nname = "rt"\n\n[dependencies]')
    open(f"{d}/kit/demo/Cargo.toml", "w").write(s)
    for f in k["files"]:
        s = open(f"{h}/src/{f}").read()
        if f == "ledger.rs":
            # operations take place if covered
            i = s.index("/// Whether the operation takes place.")
            j = s.index("const NO: DispatchError")
            s = s[:i] + ("pub static mut REFUSE: Option<Acc> = None;\npub fn goes(covered: bool) -> bool {\n    covered\n}\n") + s[j:]
            s = s.replace("let n = taken(there, n, Precision::Exact).ok_or(NO)?;\n        cell(a, from).free -= n;",
                          "if unsafe { REFUSE == Some(*to) } {\n            return Err(NO);\n        }\n"
                          "        let n = taken(there, n, Precision::Exact).ok_or(NO)?;\n        cell(a, from).free -= n;")
        if kit == "rt":
            s = s.replace("/repo/", "@REPO@/")
            if f == "lib.rs":
                i = s.index("pub mod assets;")
                s = s[:i] + "pub mod world;\n"
        open(f"{d}/kit/demo/src/{f}", "w").write(s)
    open(f"{d}/kit/demo/src/main.rs", "w").write(main)
    open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# Builds parts of the tree in the current directory against small stand-ins of its dependencies and runs one
# scenario: exit 0 if the behaviour is right.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -r "$here/kit/." "$d/"
grep -rl @REPO@ "$d" | xargs sed -i "s|@REPO@|$repo|"
cd "$d/demo"
CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly cargo run --quiet --offline 2> "$d/log" || { grep -A3 panicked "$d/log" || tail -30 "$d/log"; exit 1; }
''')
    print(sid, flush=True)
    if not os.environ.get("DRY"):
        subprocess.run(["python3", f"{V}/lib/newseed.py", sid])
