#!/bin/bash
# usage: build.sh part...   (parts: mc, hook, bins)
# NEED: the features of the harness the caller needs, when not all of them build
# Builds from /repo's current working tree into $VERIF_DIR/build.
VERIF_DIR=${VERIF_DIR:-$(cd "$(dirname "$0")" && pwd)}
REPO_DIR=${REPO_DIR:-/repo}
export VERIF_DIR REPO_DIR
. "$VERIF_DIR/env.sh"
B=$VERIF_DIR/build
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
hash=$(cd "$REPO_DIR" && find . \( -path ./target -o -path ./.git -o -name node_modules \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.pest' -o -name '*.lock' -o -name '*.ys' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
own=$(cd "$VERIF_DIR" && cat harness/src/*.rs harness/Cargo.toml hook/gen.rs | sha256sum)
# run cargo in $1 (directory) with target dir $2 and further arguments; a changed tree recompiles the crates of /repo
run() {
  local dir=$1 tgt=$2; shift 2
  mkdir -p "$tgt"
  if [ -f "$tgt/src.hash" ] && [ "$(cat "$tgt/src.hash")" != "$hash" ]; then
    (cd "$dir" && CARGO_TARGET_DIR=$tgt cargo clean --release --offline -p y86-sim -p sim_macro -p y86-dbg -p binutils) >/dev/null 2>&1
    rm -f "$tgt/src.hash"
  fi
  if ! (cd "$dir" && CARGO_TARGET_DIR=$tgt cargo build --release --offline "$@") >"$tgt/build.log" 2>&1; then
    tail -n 60 "$tgt/build.log" >&2
    echo "build of $dir failed (see above)" >&2
    return 2
  fi
  printf '%s\n' "$hash" > "$tgt/src.hash"
}
# the harness with all its features, or, when that fails, with the ones the check needs
harness() {
  local tgt=$1
  if [ "$(cat "$tgt/partial.hash" 2>/dev/null)" != "$hash $own" ]; then
    rm -f "$tgt/partial.hash"
    run "$VERIF_DIR/harness" "$tgt" && return
    [ -n "${NEED+x}" ] || return 2
    cp "$tgt/build.log" "$tgt/build-all.log"
  fi
  run "$VERIF_DIR/harness" "$tgt" --no-default-features --features "$NEED" || { cp "$tgt/build-all.log" "$tgt/build.log"; return 2; }
  printf '%s\n' "$hash $own" > "$tgt/partial.hash"
  echo "part of the harness does not build with this tree; the features of this check do: ${NEED:-none}" >&2
}
for part in "$@"; do
  case $part in
    mc) harness "$B/mc" ;;
    hook) Y86_VERIF_INC=$VERIF_DIR/hook/gen.rs RUSTFLAGS="--cfg y86_verif" harness "$B/hook" ;;
    bins) CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true run "$REPO_DIR" "$B/bins" --workspace --bins ;;
  esac || exit 2
done
