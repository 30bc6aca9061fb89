#!/bin/bash
# golden.sh COMMIT [GOLD|GOLD2|GOLD3]: (re)make harness/data/golden.bin (or golden2.bin, golden3.bin) with the harness linked against that commit of /repo.
# Run once, against the repository's original commit; no check calls it.
set -e
J=${2:-GOLD}; F=golden.bin; [ $J = GOLD ] || F=golden${J#GOLD}.bin
T=$(mktemp -d /tmp/golden.XXXXXX)
git -C /repo worktree add -f "$T/repo" "$1" >/dev/null
mkdir -p "$T/verif/harness" "$T/out"
tar -C /verif/harness -c --exclude=./target . | tar -C "$T/verif/harness" -x
printf 'pub fn plan() -> super::Plan { super::c18::plan() }\n' > "$T/verif/harness/src/props/c19.rs" # names methods a fix added
export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false # as released
(cd "$T/verif/harness" && cargo build --release --offline --bin vh) || exit 1
VH_DIR="$T" VH_GOLD="$T/out" VERIF_SEED=${SEED:-20} "$T/verif/harness/target/release/vh" check $J || true
cat "$T"/out/* > "$T/golden.bin"
ls "$T/out" | wc -l
ls -l "$T/golden.bin"
cp "$T/golden.bin" /verif/harness/data/$F
git -C /repo worktree remove --force "$T/repo"
rm -r "$T"
