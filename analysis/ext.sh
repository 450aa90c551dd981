#!/bin/bash
# ext.sh DRIVER OUT [REPO]   parse the driver against REPO's headers and dump the resolved program
HERE="$(cd "$(dirname "$0")" && pwd)"
R=${3:-/repo}
exec "$HERE/build/htx" $R/include/htool "$1" "$2" -- -x c++ -std=gnu++14 -fopenmp -w -ferror-limit=0 -I"$HERE/driver/stub" -I$R/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi -resource-dir /usr/lib/llvm-18/lib/clang/18
