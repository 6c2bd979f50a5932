#!/bin/bash
# parbugs.sh WORKERS LOG ID.. : run each planted bug's property check in private copies of /repo and /verif
# (bind-mounted over the real paths in a user namespace), several at a time. PATCHDIR=dir to take DIR/ID/patch.diff
# from elsewhere; CHECKS="C01 C02" to run other checks than the bug's own.
W=$1; LOG=$2; shift 2; : > $LOG
ROOT=${ROOT:-/tmp/scratch/par}; mkdir -p $ROOT
printf '%s\n' "$@" > $ROOT/queue
for w in $(seq $W); do
 ( D=$ROOT/w$w; mkdir -p $D/verif $D/repo
   rm -rf $D/repo/prexel $D/repo/eval $D/repo/prexel-server; (cd ${SRC:-/repo} && git archive HEAD) | tar x -C $D/repo; cp -n ${SRC:-/repo}/Cargo.lock $D/repo/ 2>/dev/null
   rm -rf $D/repo/.git; (cd $D/repo && git init -q . && git add -Af . && git -c user.name=x -c user.email=x@x commit -qm x)
   [ -d $D/verif/build ] || cp -a /verif/. $D/verif/
   mkdir -p $D/verif/harness_repl; for f in lib units harness/src harness_server/src harness_repl/src harness_repl/terminal harness_repl/Cargo.toml harness_repl/Cargo.lock newtypes known_findings.txt; do rm -rf $D/verif/$f; cp -a /verif/$f $D/verif/$f; done
   while true; do
     id=$(flock $ROOT/lock bash -c "head -1 $ROOT/queue; sed -i 1d $ROOT/queue")
     [ -z "$id" ] && break
     P=${PATCHDIR:-/verif/seeded}/$id
     props=${CHECKS:-$(python3 -c "import json;print(json.load(open('$P/meta.json'))['property'])")}
     (cd $D/repo && git checkout -q -- . && git apply $P/patch.diff) || { echo "$id does not apply" >> $LOG; continue; }
     for p in $props; do
       t0=$(date +%s)
       unshare -Urm bash -c "mount --bind $D/repo /repo && mount --bind $D/verif /verif && cd /verif && timeout 900 python3 lib/check.py $p quick" > $D/out_$id.$p 2>&1; rc=$?
       echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -oE 'VIOLATION.*|^UNDECIDED.*' $D/out_$id.$p | tail -1 | cut -c1-120) | $(grep -A1 '^failing input' $D/out_$id.$p | cut -c1-110 | tr '\n' ' ')" >> $LOG
       [ -n "$STOP" ] && [ $rc = 1 ] && ! grep -q no-failing-input $D/out_$id.$p && break
     done
   done ) &
done; wait; echo done >> $LOG
