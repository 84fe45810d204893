#!/bin/bash
# check.sh ID [TIER]: builds the harness against /repo's working tree and runs one check.
# check.sh --build: only builds.
# Exit 0: quiet. Exit 1 with a VIOLATION line: broken. Anything else: the check could not run.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export RUSTUP_TOOLCHAIN=1.97.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
id=$1
tier=${2:-${VERIF_TIER:-quick}}
case $id in
  --build) bins="--bins" ;;
  C14 | C16 | C17 | C21 | C23) bin=unit ;;
  C11 | C18 | C19 | C20 | C22 | C24 | C25) bin=net ;;
  C*) bin=sim ;;
  *) echo "usage: check.sh ID [quick|thorough]" >&2; exit 2 ;;
esac
mkdir -p "$here/target" || exit 2
# cargo decides by modification time; make sure that a tree with other contents is always rebuilt
sum=$(cd /repo && find crates -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$here/target/.repo-sum" 2>/dev/null)" != "$sum" ]; then
  rm -rf "$here"/target/debug/.fingerprint/stream-download*
  echo "$sum" > "$here/target/.repo-sum"
fi
if ! log=$(cd "$here/harness" && cargo build --offline ${bins:---bin $bin} 2>&1); then
  echo "$log" | tail -60 >&2
  echo "building the harness against /repo failed" >&2
  exit 2
fi
[ "$id" = --build ] && exit 0
cd "$here" || exit 2
"$here/target/debug/$bin" --property "$id" --tier "$tier" 2> "$here/target/$id.stderr"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  tail -20 "$here/target/$id.stderr" >&2
fi
exit $rc
