#!/usr/bin/env python3
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), HOME="/root", CARGO_NET_OFFLINE="true",
         CARGO_TARGET_DIR=os.path.join(HERE, "target"), RUSTUP_TOOLCHAIN="1.87")
cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(HERE, "harness/Cargo.toml")]
rc = subprocess.call(cmd, env=e)
# the race detector needs an instrumented standard library
t = dict(e, RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=thread", CARGO_TARGET_DIR=os.path.join(HERE, "target", "san-thread"))
rc2 = subprocess.call(cmd + ["--target", "x86_64-unknown-linux-gnu", "-Zbuild-std"], env=t)
sys.exit(rc or rc2)
