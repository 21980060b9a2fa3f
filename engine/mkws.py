#!/usr/bin/env python3
"""Derive a type-checkable cargo workspace over /repo's sources.

Every source file is a symlink to the file in /repo; only manifests are derived (reth-* git
dependencies become path dependencies on the signature-only stand-ins in /verif/stubs, dev-
dependencies are dropped). Nothing of it is ever run: it exists so that rustc can resolve and
type-check the crates and hand their MIR to the fact extractor."""
import os, re, shutil, sys

REPO = os.environ.get("TN_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(VERIF, "stubs")

# crate dir -> package name
MEMBERS = {
    "crates/tn-utils": "tn-utils",
    "crates/types": "tn-types",
    "crates/network-types": "tn-network-types",
    "crates/config": "tn-config",
    "crates/tn-metrics": "tn-metrics",
    "crates/storage": "tn-storage",
    "crates/network-libp2p": "tn-network-libp2p",
    "crates/consensus/primary": "tn-primary",
    "crates/consensus/worker": "tn-worker",
    "crates/state-sync": "state-sync",
    "crates/consensus/executor": "tn-executor",
    "bin/worker-gateway": "tn-worker-gateway",
}

# crates that exist only as stubs
STUB_DIRS = sorted(d for d in (os.listdir(STUBS) if os.path.isdir(STUBS) else [])
                   if os.path.isfile(os.path.join(STUBS, d, "Cargo.toml")))


def main(ws):
    wanted = set()

    def write(rel, text):
        path = os.path.join(ws, rel)
        wanted.add(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.islink(path):
            os.remove(path)
        if not os.path.isfile(path) or open(path, encoding="utf-8").read() != text:
            with open(path, "w", encoding="utf-8") as f:
                f.write(text)

    def link(rel, target=None):
        path, target = os.path.join(ws, rel), target or os.path.join(REPO, rel)
        wanted.add(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.islink(path) and os.readlink(path) == target:
            return
        if os.path.lexists(path):
            os.remove(path)
        os.symlink(target, path)

    def link_tree(rel, root=None):
        base = root or REPO
        for d, subdirs, files in os.walk(os.path.join(base, rel)):
            subdirs[:] = [s for s in subdirs if s not in ("target", ".git")]
            for f in files:
                full = os.path.join(d, f)
                link(os.path.relpath(full, base), full)

    # nothing enables `reth-libmdbx/read-tx-timeouts` and friends: stubs have no features unless declared
    stub_names = set(STUB_DIRS)

    def manifest(rel):
        out, skip = [], False
        text = open(os.path.join(REPO, rel, "Cargo.toml"), encoding="utf-8").read()
        for line in text.splitlines():
            if line.startswith("["):
                skip = line.startswith("[dev-dependencies") or line.startswith("[[test") \
                    or line.startswith("[[bench")
            if not skip:
                out.append(line)
        write(f"{rel}/Cargo.toml", "\n".join(out) + "\n")

    for rel in MEMBERS:
        manifest(rel)
        link_tree(f"{rel}/src")
        if os.path.isfile(os.path.join(REPO, rel, "build.rs")):
            link(f"{rel}/build.rs")

    # the stand-alone module of tn-reth that needs none of the (absent) reth sources
    write("crates/tn-reth-part/Cargo.toml",
          '[package]\nname = "tn-reth-part"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\ntracing = { workspace = true }\n')
    write("crates/tn-reth-part/src/lib.rs", "pub mod evm;\n")
    write("crates/tn-reth-part/src/evm/mod.rs", "pub mod utils;\n")
    link("crates/tn-reth-part/src/evm/utils.rs", os.path.join(REPO, "crates/tn-reth/src/evm/utils.rs"))
    for d in STUB_DIRS:
        link_tree(f"stubs/{d}", VERIF)
    if os.path.isdir(os.path.join(STUBS, "tn-contracts")):
        for d, _, files in os.walk(os.path.join(STUBS, "tn-contracts")):
            for f in files:
                full = os.path.join(d, f)
                link(os.path.relpath(full, STUBS), full)
    link_tree("chain-configs")

    text = open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8").read()
    members = list(MEMBERS) + ["crates/tn-reth-part"] + [f"stubs/{d}" for d in STUB_DIRS]
    text = re.sub(r"(?s)\bmembers = \[.*?\]\n",
                  "members = [\n" + "".join(f'    "{m}",\n' for m in members) + "]\n", text, count=1)
    # git reth -> stub
    def dep(m):
        name = m.group(1)
        return f'{name} = {{ path = "stubs/{name}" }}' if name in stub_names else ""
    text = re.sub(r'(?ms)^(reth[\w-]*) = \{ git = .*?\}(?=\n)', dep, text)
    for name in stub_names:
        if name.startswith("tn-") or name == "state-sync":
            text = re.sub(rf'(?m)^{re.escape(name)} = .*$', f'{name} = {{ path = "stubs/{name}" }}', text)
    text = text.replace('alloy = { version = "1.6.3", features = ["full"] }',
                        'alloy = { version = "1.6.3", features = ["full", "rand"] }')
    text = re.sub(r"(?ms)^\[profile\..*", "", text)
    text += "\n[profile.dev]\ndebug = false\nincremental = false\n"
    write("Cargo.toml", text)
    lock = open(os.path.join(REPO, "Cargo.lock")).read()
    lp = os.path.join(ws, "Cargo.lock.src")
    if not os.path.isfile(lp) or open(lp).read() != lock or not os.path.isfile(os.path.join(ws, "Cargo.lock")):
        open(lp, "w").write(lock)
        open(os.path.join(ws, "Cargo.lock"), "w").write(lock)

    for top in ("crates", "bin", "stubs", "chain-configs", "tn-contracts"):
        for d, subdirs, files in os.walk(os.path.join(ws, top)):
            for f in files:
                p = os.path.join(d, f)
                if p not in wanted:
                    os.remove(p)


if __name__ == "__main__":
    main(sys.argv[1])
