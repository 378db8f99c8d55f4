#!/bin/sh
# show the trace of a recorded violation: t.sh C06 3 [lines]
cd /verif && python3 run.py $1 --replay build/replay/$1-$2.json | tail -${3:-40}
