#!/bin/bash
# trybug.sh <seed id> [check ids...]: confirm a planted bug in a scratch copy and run checks (quick) against it
V=/verif; id=$1; shift; S=$V/seeded/$id; W=/tmp/trybug.$id
rm -rf "/tmp/trybug.$id"; mkdir -p $W; (cd /repo && git archive HEAD) | tar x -C $W
export PYTHONDONTWRITEBYTECODE=1
cd $W; git init -q . ; export PYTHONPATH=$W/src
bash $S/demo.sh >$W.clean.log 2>&1; echo "demo clean: $?"
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash $S/demo.sh >$W.bug.log 2>&1; echo "demo bug: $? $(tail -1 $W.bug.log | cut -c1-150)"
if [ -z "$SKIPTEST" ]; then OMP_NUM_THREADS=4 timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x -W ignore tests 2>&1 | tail -2; fi
for c in "$@"; do MIEMON_REPO=$W timeout 900 $V/run.sh $c quick | grep -E "VIOLATION|cases|\(" | cut -c1-170; done
cd /; rm -rf "/tmp/trybug.$id"; rm -f $W.clean.log $W.bug.log
