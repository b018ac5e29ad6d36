ID="c16-rowwise"; PROP="C16"
NEEDS="a C++ run with rowwise FALSE and more than one column"
BREAKS="The C++ interface ignores its row-wise flag."
EDITS=[("src/hdbscan.cpp","	hdbscan_run(this, dataset, rows, cols, rowwise, datatype);","	hdbscan_run(this, dataset, rows, cols, TRUE, datatype);")]
CPP=True
DEMO=r'''
#include "hdbscan/hdbscan.hpp"
using namespace clustering;
int main() {
    double d[] = {0, 1, 2, 30, 31, 32, 60, 61};
    clustering::hdbscan s(2);
    s.run(d, 2, 4, FALSE, H_DOUBLE);
    printf("%d points\n", (int)s.numPoints);
    return s.numPoints != 8;
}
'''
