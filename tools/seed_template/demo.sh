#!/bin/bash
# Compiles demo.cc with the sources of KaMinPar listed in srcs.txt (run from the root of the repository) and runs it.
# Exit 0: the guarantee holds on the demonstrated input; everything is kept in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf -- "$T"' EXIT
FLAGS="-std=c++20 -w -g0 -O1 -msse4.1 -mcx16 -I$R -I$D -I$T -isystem $R/external/growt -DKAMINPAR_ENABLE_TIMERS -DKAMINPAR_ENABLE_TIMER_BARRIERS -DKAMINPAR_ENABLE_THP -DKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING -DKAMINPAR_COMPRESSION_INTERVAL_ENCODING -DKAMINPAR_SPARSEHASH_FOUND -DKAMINPAR_USES_GROWT -DKASSERT_ASSERTION_LEVEL=10 $(cat "$D/flags.txt" 2>/dev/null)"
CXX=g++
LIBS="-ltbb -ltbbmalloc -lnuma -lpthread"
if grep -q '^kaminpar-dist' "$D/srcs.txt"; then
  CXX=mpicxx
  FLAGS="$FLAGS -DKAMINPAR_64BIT_WEIGHTS"
fi
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
sed 's/@[A-Za-z_0-9]*@/demo/g' "$R/kaminpar-common/environment.cc.in" > "$T/environment.cc"
{ cd "$R" && for s in $(cat "$D/srcs.txt"); do echo "$s"; done; echo "$T/environment.cc"; echo "$D/demo.cc"; } > "$T/list"
compile() { o=$(echo "$1" | tr '/.' '__').o; "$CXX" $FLAGS -c "$1" -o "$T/$o" > "$T/$o.log" 2>&1 || { head -c 2000 "$T/$o.log"; exit 255; }; }
export -f compile
export FLAGS CXX T
xargs -P 8 -I{} bash -c 'compile {}' < "$T/list" || { echo "demo does not compile"; exit 98; }
"$CXX" "$T"/*.o -o "$T/demo" $LIBS || exit 97
cd "$T" || exit 96
if [ -f "$D/run.sh" ]; then
  timeout 200 bash "$D/run.sh" "$T/demo"
else
  timeout 200 "$T/demo"
fi
rc=$?
[ $rc -eq 0 ] && echo "demo: guarantee holds" || echo "demo: guarantee broken ($rc)"
exit $rc
