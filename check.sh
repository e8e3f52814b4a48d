#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Rebuilds what the check needs from /repo's working tree and runs it.
# exit 0: property held, 1: VIOLATION line printed, other: the check could not run.
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export REPO_DIR=${REPO_DIR:-/repo}
id=$1; tier=${2:-quick}
. "$VERIF_DIR/env.sh"
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
if [ "$id" = C29 ]; then exec timeout 850 python3 "$VERIF_DIR/tools/extra.py" "$tier"; fi
hook=
case $id in
  C10|C11|C12|C13) parts=hook hook=1 ;;
  C28) parts="hook bins" hook=1 ;;
  C18|C19|C20|C21|C22|C23|C24) parts="mc bins" ;;
  *) parts="mc" ;;
esac
case $id in
  C10|C11|C12|C28) NEED=text ;;
  C13) NEED=${hook:+text},regs ;;
  C25) NEED=units ;;
  C26|C27) NEED=drive ;;
  *) NEED= ;;
esac
export NEED
bash "$VERIF_DIR/build.sh" $parts; rc=$?
exe=$VERIF_DIR/build/mc/release/mc
if [ -n "$hook" ] && [ $rc = 0 ]; then
  exe=$VERIF_DIR/build/hook/release/mc
elif [ -n "$hook" ] && [ "$id" != C12 ]; then
  # the tree builds, but not with the hook: check what needs no hook
  [ "$id" = C13 ] && NEED=regs
  bash "$VERIF_DIR/build.sh" ${parts/hook/mc} || exit $?
elif [ -n "$hook" ]; then
  bash "$VERIF_DIR/build.sh" mc || exit $?
  exec python3 "$VERIF_DIR/tools/hcl_reject.py" "$VERIF_DIR/build/hook/build.log"
elif [ $rc != 0 ]; then
  exit $rc
fi
exec "$exe" "$id"
