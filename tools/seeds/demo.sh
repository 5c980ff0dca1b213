#!/bin/bash
# cwd: the repository, after its build. 0: the property holds, otherwise it is broken.
HERE=$(cd "$(dirname "$0")" && pwd)
SCRATCH=$(mktemp -d)
gcc -std=gnu11 -D_GNU_SOURCE -w -O1 -g -Iinclude "$HERE/demo.c" -o "$SCRATCH/demo" -Lbuild/lib -lmidoridb -lm -lpthread
RC=$?
if [ $RC -eq 0 ]; then
	LD_LIBRARY_PATH=$PWD/build/lib TZ=UTC timeout 120 "$SCRATCH/demo"
	RC=$?
fi
rm -f "$SCRATCH/demo"
rmdir "$SCRATCH"
exit $RC
