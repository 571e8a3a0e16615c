// entry points for the encoding and for real runs (names without overloading)
#include <new>
#include <stdlib.h>
#include "Matrix.hh"
#include "csa.hh"
#include "kofn.hh"
#include "match.hh"
#include "benms.hh"

extern "C" {
void *shim_matrix0() { return new Matrix(); }
void *shim_matrix2(int r, int c) { return new Matrix(r, c); }
double *shim_data(void *m) { return ((Matrix *)m)->data(); }
int shim_rows(void *m) { return ((Matrix *)m)->nrows(); }
int shim_cols(void *m) { return ((Matrix *)m)->ncols(); }
void shim_delete(void *m) { delete (Matrix *)m; }
double shim_match(void *a, void *b, double d, double oc, void *x, void *y) {
    return matchEdgeMaps(*(Matrix *)a, *(Matrix *)b, d, oc, *(Matrix *)x, *(Matrix *)y);
}
void shim_benms(void *out, void *e, void *o, int r, int s, double m) {
    benms(*(Matrix *)out, *(Matrix *)e, *(Matrix *)o, r, s, m);
}
void shim_kofn(int k, int n, int *out) { kOfN(k, n, out); }
// graph: m triples (left 1..n, right n+1..2n, cost); out: n triples
int shim_csa(int n, int m, const int *graph, int *out) {
    CSA csa(2 * n, m, graph);
    int e = csa.edges();
    for (int i = 0; i < e && i < n; i++) {
        csa.edge(i, out[3 * i], out[3 * i + 1], out[3 * i + 2]);
    }
    return e;
}
}
