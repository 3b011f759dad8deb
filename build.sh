#!/bin/bash
# build.sh <property>: build the checker that decides it and print its path.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_BOOTSTRAP
cd "$here/harness"
case $1 in
C28) # with the serde support of lfa
  cargo build --release --offline --quiet --target-dir target-serde --features serde
  echo "$here/harness/target-serde/release/mc" ;;
C30) # instrumented for the thread sanitizer, with our own runtime below (runtime.c)
  export RUSTC_BOOTSTRAP=1
  export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
  t=$(rustc -vV | sed -n 's/^host: //p')
  cargo build --release --offline --quiet --target-dir target-sched --features sched --target "$t"
  echo "$here/harness/target-sched/$t/release/mc" ;;
*)
  cargo build --release --offline --quiet --target-dir target
  echo "$here/harness/target/release/mc" ;;
esac
