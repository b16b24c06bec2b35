#!/bin/bash
# tools/run_seeded.sh [-a] [ID...]: run the checks against the planted bugs.
# Each bug is applied in a scratch worktree of /repo (removed afterwards) and
# the check of its property (-a: all the checks) is pointed at it with
# VERIF_REPO, from a scratch copy of the machinery. Development tool only: the
# registered commands always run against /repo itself.
here=$(cd "$(dirname "$0")/.." && pwd)
all=; [ "$1" = -a ] && { all=1; shift; }
scratch=${SCRATCH:-/tmp/run_seeded.$$}
mkdir -p "$scratch"
one() {
    id=$1; w=$scratch/$id
    mkdir -p "$w"
    git -C /repo worktree add -f -q --detach "$w/repo" HEAD 2>/dev/null || return 1
    git -C "$w/repo" apply "$here/seeded/$id/patch.diff" || echo "$id does not apply"
    cp -r "$here/run.py" "$here/vp" "$here/known-findings.txt" "$w/"
    props=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
    own=$props
    [ -n "$all" ] && props=$(seq -f 'C%02g' 1 "$(ls "$here"/vp/props/c[0-9]*.py | wc -l)")
    for p in $props; do
        out=$(VERIF_REPO=$w/repo VERIF_DEV_CACHE=$w/cache timeout 900 python3 "$w/run.py" "$p" 2>&1); rc=$?
        [ -z "$all" ] || [ $rc != 0 ] && echo "$id own=$own $p rc=$rc $(echo "$out" | grep -m1 -A2 VIOLATION | tr '\n' ' ' | cut -c1-220)"
    done
    git -C /repo worktree remove --force "$w/repo"
    rm -rf "$w"
}
export -f one; export here all scratch
if [ $# = 0 ]; then set -- $(ls "$here/seeded"); fi
printf '%s\n' "$@" | xargs -P "${JOBS:-4}" -I{} bash -c 'one {}'
rmdir "$scratch" 2>/dev/null; git -C /repo worktree prune
