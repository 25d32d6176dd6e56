#!/usr/bin/env python3
"""Lay a buildable copy of the working tree of REPO at OUT.

Every source file is copied as it stands (files are rewritten only when they differ, so cargo rebuilds
only what changed). The manifests are the repository's own, with three edits that let them load
offline: the malachite and rocksdb dependencies, which this sandbox does not have, point at the
stand-ins under /verif/shims; moka gets the "sync" feature that the real malachite crates switch on;
every private item of the copy is made public (tools/openvis.py), so that generated-input checks can call
helpers without hooks in /repo; SystemTime::now() reads a clock that a check can move;
pre-commit goes (its build script installs a git hook);  default-run goes (src/main.rs and the dump_wal binary need crates with no stand-in and are left out).
"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from openvis import openvis

repo, out, shims = sys.argv[1:4]
SKIP = {"src/main.rs", "src/bin/dump_wal.rs", "src/bin/trie_only_perftest.rs",
        "src/bin/engine_only_perftest.rs"}
KEEP_TOP = {"src", "proto", "cli", "config", "scripts", "Cargo.toml", "Cargo.lock", "validators.toml"}

# the wall clock as a check sees it: the real one, moved by what the running thread asked for
CLOCK = re.compile(rb'(?:::)?(?:\bstd::)?(?:\btime::)?\bSystemTime::now\(\)')

def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    with open(path, "wb") as f:
        f.write(data)

def manifest(rel, text):
    up = "../" * rel.count("/")
    def mb(m):
        return f'{m.group(1)} = {{ path = "{shims}/malachite/{m.group(1)[len("informalsystems-malachitebft-"):]}" }}'
    text = re.sub(r'^(informalsystems-malachitebft-[\w-]+)\s*=.*$', mb, text, flags=re.M)
    text = re.sub(r'^rocksdb\s*=.*$', f'rocksdb = {{ path = "{shims}/rocksdb" }}', text, flags=re.M)
    text = text.replace('moka = { version = "0.12.10", features = ["future"] }',
                        'moka = { version = "0.12.10", features = ["future", "sync"] }')
    text = re.sub(r'^pre-commit\s*=.*\n', '', text, flags=re.M)
    text = re.sub(r'^default-run\s*=.*\n', '', text, flags=re.M)
    return text

seen = set()
for base, dirs, files in os.walk(repo):
    rel = os.path.relpath(base, repo)
    if rel == ".":
        dirs[:] = [d for d in dirs if d in KEEP_TOP]
        files = [f for f in files if f in KEEP_TOP]
        rel = ""
    dirs[:] = [d for d in dirs if d not in ("target", ".git", "node_modules")]
    for f in files:
        r = os.path.join(rel, f)
        if r in SKIP:
            continue
        src = os.path.join(base, f)
        if os.path.islink(src) and not os.path.exists(src):
            continue
        data = open(src, "rb").read()
        if f == "Cargo.toml":
            data = manifest(r, data.decode()).encode()
        if f.endswith(".rs") and (r.startswith("src/") or r.startswith("cli/src/")) and not f.endswith("_tests.rs"):
            data = openvis(data.decode()).encode()
            if r.startswith("src/"):
                data = CLOCK.sub(b"::rocksdb::shim::now()", data)
        if r == "src/lib.rs":
            # the harness installs its own allocator (it watches the size of single allocations)
            data = re.sub(rb'^#\[global_allocator\]\n', b'', data, flags=re.M)
        if r == "Cargo.lock":
            # cargo drops what the stand-ins do not need; keep what it wrote if the source is unchanged
            stamp = os.path.join(out, ".lock-src")
            seen.add(r)
            if os.path.exists(stamp) and open(stamp, "rb").read() == data and os.path.exists(os.path.join(out, r)):
                continue
            put(os.path.join(out, r), data)
            put(stamp, data)
            continue
        seen.add(r)
        put(os.path.join(out, r), data)
for base, dirs, files in os.walk(out):
    rel = os.path.relpath(base, out)
    rel = "" if rel == "." else rel
    dirs[:] = [d for d in dirs if d != "target"]
    for f in files:
        r = os.path.join(rel, f)
        if r not in seen and r != ".lock-src":
            os.remove(os.path.join(base, f))
