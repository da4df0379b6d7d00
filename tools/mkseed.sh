#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks"  : takes the uncommitted change in /repo as the planted bug,
# stores it with the demo.cpp found in /tmp/demo.cpp, and undoes it in /repo.
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ]
git -C /repo checkout -- .
[ -f /tmp/demo.cpp ] && mv /tmp/demo.cpp $d/demo.cpp
[ -f $d/demo.sh ] || cat > $d/demo.sh <<'D'
#!/bin/bash
# Compiles the demonstration against the library built in ./_build and runs it.
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OPENBLAS_NUM_THREADS=1
mpicxx -std=c++17 -O1 -w -fopenmp $EXTRA_FLAGS -DARMA_DONT_USE_WRAPPER -DARMA_USE_LAPACK -DARMA_USE_BLAS -DENABLE_OPENMP -DENABLE_MPI \
  -DDOUBLE_EPS=1e-8 -DDBL_MAX=__DBL_MAX__ -I"$r/include" -I"$r/include/gwmodelpp" "$d/demo.cpp" -o "$t/demo" \
  "$r/_build/src/libgwmodel.a" -lopenblas -llapack -lgsl -lgslcblas -lm || exit 3
timeout 200 ${LAUNCH:-} "$t/demo"
D
python3 - "$@" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
echo stored $id
