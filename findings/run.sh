#!/bin/bash
# run.sh FILE.rs: compiles FILE.rs against the libraries build.sh just built, and runs it in a scratch directory.
[ -f "$1" ] || exit 4
. /opt/vp/env.sh
D=/repo/target/debug/deps
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
unset CARGO_MANIFEST_DIR
ok=1
for b in $(ls -t $D/libbonsaidb-*.rlib); do
  deps=$(RUSTC_BOOTSTRAP=1 rustc -Z ls=root "$b" 2>/dev/null | grep -oE "^[0-9]+ [a-z0-9_]+-[0-9a-f]{16} " | cut -d' ' -f2)
  e="--extern bonsaidb=$b"
  for x in serde tokio futures bincode pot tokio_tungstenite bonsaidb_core bonsaidb_local bonsaidb_files nebari flume; do
    grep -q "\b$x::" "$1" || continue
    h=$(echo "$deps" | grep -E "^$x-" | head -1)
    [ -n "$h" ] || h=$(basename "$(ls -t $D/lib$x-*.rlib 2>/dev/null | head -1)" .rlib | sed s/^lib//)
    e="$e --extern $x=$D/lib$h.rlib"
  done
  if rustc --edition 2021 -C debuginfo=0 --cap-lints allow -L dependency=$D $e -o "$S/demo" "$1" 2>"$S/err"; then ok=0; break; fi
  cp "$S/err" "$S/err.$((n=n+1))"
done
if [ $ok != 0 ]; then cat "$S/err.1"; echo "demo does not compile"; exit 3; fi
cd "$S" && timeout 120 ./demo "$S/db"
