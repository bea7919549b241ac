#!/bin/bash
# check.sh <ID> [quick|thorough] [--only FAMILY INDEX]   decides one property on /repo's working tree
# check.sh --build                                       builds every check (setup_cmd)
# Exit 0: held on everything explored; 1: VIOLATION; anything else: the check could not run.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$V CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
T=$V/target
mkdir -p "$T" "$V/evidence"
ulimit -v 25165824 2>/dev/null

# cargo goes by modification times; the checks have to go by content. When the content of /repo's
# sources is not what was built last, forget what cargo knows about that crate.
stamp() { (cd /repo && { find src examples -type f -print0; printf 'Cargo.toml\0'; } | sort -z | xargs -0 sha256sum | sha256sum); }
fresh() {
  local s; s=$(stamp)
  if [ "$(cat "$T/.repo-stamp" 2>/dev/null)" != "$s" ]; then
    find "$T" -type d -path '*/.fingerprint/henriks-parsing-project-*' -prune -exec rm -rf {} + 2>/dev/null
    echo "$s" >"$T/.repo-stamp"
  fi
}
build() { # build <cargo args>: quiet unless it fails
  if ! cargo build --offline "$@" >"$T/build.log" 2>&1; then
    cat "$T/build.log" >&2
    echo "check.sh: the build failed" >&2
    exit 3
  fi
}
# The code under test against hash containers whose iteration order is controlled (C14). Fails if
# the sources use something ctlstd does not have; the plain build is used then.
ctl() {
  local C=$T/ctl
  mkdir -p "$C/subject" "$C/harness" || return 1
  rm -rf "$C/subject/src.new"
  cp -r /repo/src "$C/subject/src.new" || return 1
  find "$C/subject/src.new" -name '*.rs' -exec sed -i -E 's/(^|[^A-Za-z0-9_])std::/\1ctlstd::/g; s/^(\s*)use std;/\1use ctlstd as std;/' {} +
  # no doc or unit tests here; keep modification times of what did not change
  if ! diff -r -q "$C/subject/src.new" "$C/subject/src" >/dev/null 2>&1; then
    rm -rf "$C/subject/src" && mv "$C/subject/src.new" "$C/subject/src"
    find "$C" -type d -path '*/.fingerprint/henriks-parsing-project-*' -prune -exec rm -rf {} + 2>/dev/null
  fi
  rm -rf "$C/subject/src.new"
  local ed; ed=$(sed -n 's/^edition *= *"\([0-9]*\)".*/\1/p' /repo/Cargo.toml | head -1)
  cat >"$C/subject/Cargo.toml" <<EOF
[package]
name = "henriks-parsing-project"
version = "0.1.0"
edition = "${ed:-2024}"
autobins = false
[lib]
name = "henriks_parsing_project"
path = "src/lib.rs"
[dependencies]
ctlstd = { path = "$V/ctlstd" }
EOF
  cat >"$C/harness/Cargo.toml" <<EOF
[package]
name = "hpp-harness-ctl"
version = "0.1.0"
edition = "2021"
autobins = false
[workspace]
[features]
default = ["ctl"]
ctl = []
[lib]
name = "hx"
path = "$V/harness/src/lib.rs"
[[bin]]
name = "c14"
path = "$V/harness/src/bin/c14.rs"
[dependencies]
henriks-parsing-project = { path = "../subject" }
ctlstd = { path = "$V/ctlstd" }
[profile.release]
opt-level = 2
debug-assertions = true
overflow-checks = true
debug = "line-tables-only"
incremental = false
EOF
  cargo build --offline --release --bin c14 --manifest-path "$C/harness/Cargo.toml" --target-dir "$C/target" >"$T/build-ctl.log" 2>&1
}
cli() { build --release --bin henriks-parsing-project --manifest-path /repo/Cargo.toml --target-dir "$T/cli"; }

fresh
if [ "${1:-}" = "--build" ]; then
  build --release --manifest-path "$V/harness/Cargo.toml" --target-dir "$T"
  cli
  ctl
  exit 0
fi
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
b=$(echo "$id" | tr 'A-Z' 'a-z')
if [ "$b" = c14 ]; then
  if ctl; then
    exec "$T/ctl/target/release/c14" "$tier" "$@"
  fi
  echo "check.sh: the order-controlled build failed (see target/build-ctl.log), using the plain one" >&2
fi
build --release --bin "$b" --manifest-path "$V/harness/Cargo.toml" --target-dir "$T"
case $b in
  c22) cli ;;
esac
exec "$T/release/$b" "$tier" "$@"
