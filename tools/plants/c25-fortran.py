ID="c25-fortran"; PROP="C25"
NEEDS="a two-dimensional array in Fortran order (or a transposed view) handed to run"
BREAKS="Arrays stored in one piece are taken as they lie in memory, so a Fortran-ordered array is clustered with rows and columns mixed up."
EDITS=[("modules/python/src/PyHdbscan.c","    void *dset = PyArray_DATA(d_arr); /// The contigous array","    void *dset = PyArray_ISONESEGMENT((PyArrayObject*)dataset) ? PyArray_DATA((PyArrayObject*)dataset) : PyArray_DATA(d_arr); /// The contigous array")]
FILES={"demo.sh":r'''#!/bin/bash
# run in the repository after the build; exit 0: behaves as it should
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
PY=python3-vt
I="-I$R/_build -I$R/include -I$R/modules/utils/include -I$R/modules/collections/include"
I="$I -I$($PY -c 'import sysconfig;print(sysconfig.get_path("include"))') -I$($PY -c 'import numpy;print(numpy.get_include())')"
gcc -w -g -O1 -fPIC -shared $I "$R"/src/*.c "$R"/modules/collections/src/*.c "$R"/modules/utils/src/*.c "$R"/modules/python/src/*.c -o "$T/PyHdbscan$($PY -c 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))')" -lm || exit 3
cd "$T" && timeout 120 $PY "$D/demo.py"
''',"demo.py":r'''
import sys, os
sys.path.insert(0, os.getcwd())
import numpy as np
import PyHdbscan
a = np.array([[0, 0], [0, 1], [1, 0], [1, 1], [0, 2], [20, 50], [20, 51], [21, 50], [21, 51], [22, 50], [90, 3], [50, 20]], dtype=float)
def labels(x):
    h = PyHdbscan.PyHdbscan(3)
    h.run(x)
    return list(h.labels)
want = labels(a)
got = [labels(np.asfortranarray(a)), labels(np.ascontiguousarray(a.T).T), labels(a[::1])]
print(want, got)
sys.exit(any(g != want for g in got))
'''}
