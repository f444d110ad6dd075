#!/bin/bash
# Builds the extractor and, against /repo's current tree, the replay harness.
set -e
cd "$(dirname "$0")"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR
python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, ".")
import check
vx = check.build_vx()
if not vx: sys.exit("the extractor does not build")
for f in ("buffers", "codec", "columns", "io", "segment"):
    w = tempfile.mkdtemp(prefix="vx-setup-")
    b, e = check.build_replay(vx, f, w)
    shutil.rmtree(w)
    print(f, "built" if b else "does not build: " + e)
P
