#!/bin/bash
# run.sh <property> <quick|thorough>: rebuild from /repo's working tree, then monitor.
# Exit 0: held on everything observed. Exit 1: VIOLATION line printed. Anything
# else: the check could not give an answer.
set -u
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export REPO_DIR=/repo
export VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable
export RUSTFLAGS="--cap-lints allow"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
mkdir -p "$VERIF_DIR/evidence" "$CARGO_TARGET_DIR"
# USES=1: the program exercises an interface whose use must keep compiling
USES=0
case "$ID" in
  C0[1-9]) WS=harness; PKG=wire ;;
  C10) WS=harness; PKG=versioned-mon; USES=1 ;;
  C11) WS=harness; PKG=autofrom-mon; USES=1 ;;
  C12) WS=harness; PKG=tools ;;
  C1[3-5]) WS=chain; PKG=merkle-mon ;;
  C1[6-9]|C2[0-9]) WS=chain; PKG=types-mon ;;
  C30) WS=chain; PKG=p2p-mon ;;
  C31) WS=chain; PKG=web-mon ;;
  C32) WS=chain; PKG=wallet-mon ;;
  C3[34]) WS=chain; PKG=mvp-mon ;;
  *) echo "unknown property $ID"; exit 2 ;;
esac
cd "$VERIF_DIR/$WS" || exit 2
LOG="$VERIF_DIR/evidence/build-$PKG.log"
# Decide what is stale by content, not by file times.
exec 9>"$CARGO_TARGET_DIR/.verif-lock"
flock 9
H=$(find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' -o -name '*.js' -o -name '*.proto' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
S="$CARGO_TARGET_DIR/repo-$WS.sha256"
if [ -e "$S" ] && [ "$H" != "$(cat "$S")" ]; then
  for f in "$CARGO_TARGET_DIR"/debug/.fingerprint/*; do
    case "$(basename "$f")" in
      bin-prot-*|versioned-*|mina-*|tools-*|proof-systems-*|autofrom-mon-*|wire-*|merkle-mon-*|types-mon-*|crawler-run-*|p2p-mon-*|web-mon-*|wallet-mon-*|mvp-*) rm -rf "$f" ;;
    esac
  done
fi
printf '%s\n' "$H" > "$S"
# C29 watches the crawler as a process of its own
if ! { { [ "$ID" != C29 ] || cargo build --offline --locked -p crawler-run; } && cargo build --offline --locked -p "$PKG"; } >"$LOG" 2>&1 9>&-; then
  tail -60 "$LOG"
  if [ $USES = 1 ] && ! grep 'could not compile' "$LOG" | grep -qv "could not compile .$PKG. " && grep -qE '^error(\[E|: proc-macro derive panicked)' "$LOG"; then
    # the crates build but a program that uses them as documented does not
    R="$VERIF_DIR/evidence/replay"; mkdir -p "$R"; cp "$LOG" "$R/$ID.txt"
    cat > "$VERIF_DIR/evidence/$ID.json" <<J
{"property": "$ID", "tier": "$TIER", "seed": $VERIF_SEED, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "a program using the documented interface was compiled", "samples": [{"note": "the program was refused by the compiler; see the replay file"}]}, "assumptions": [], "wall_s": 0, "violations": 1}
J
    echo "a program that uses the documented interface no longer compiles"
    echo "VIOLATION property=$ID replay=$R/$ID.txt"; exit 1
  fi
  echo "HARNESS-ERROR: build of $PKG failed"; exit 2
fi
flock -u 9
exec 9>&-
exec "$CARGO_TARGET_DIR/debug/$PKG" "$ID" "$TIER"
