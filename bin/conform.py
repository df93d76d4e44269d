#!/usr/bin/env python3
"""Compares the models of std::net, std::thread, std::sync and tokio with the real ones: builds the
real servers of /repo (into a scratch directory), plays the same scenarios against them (port 7878
of the loopback network) and against the servers under the models. Not one of the registered
checks, because it uses real time and a fixed port; run by hand after changes to the models."""
import os, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get("VERIF_REPO", "/repo")
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
with tempfile.TemporaryDirectory(prefix="conform") as d:
    subprocess.check_call(["cargo", "build", "--offline", "--workspace", "--bins", "--target-dir", d], cwd=repo, env=env)
    names = {os.path.splitext(f)[0] for f in os.listdir(os.path.join(d, "debug")) if f.endswith(".d")}
    print("binaries:", sorted(names))
    subprocess.check_call([os.path.join(here, "check.sh"), "--build"])
    sys.exit(subprocess.call([os.path.join(here, "harness/target/release/checks"), "--conform", os.path.join(d, "debug")]))
