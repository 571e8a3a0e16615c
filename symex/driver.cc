// runs one native call under the address sanitizer: text on standard input
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern "C" {
void *shim_matrix0(); void *shim_matrix2(int, int); double *shim_data(void *);
int shim_rows(void *); int shim_cols(void *); void shim_delete(void *);
double shim_match(void *, void *, double, double, void *, void *);
void shim_benms(void *, void *, void *, int, int, double);
void shim_kofn(int, int, int *);
int shim_csa(int, int, const int *, int *);
extern double symex_stream[]; extern int symex_n, symex_on;
}
static int in() { int x; if (scanf("%d", &x) != 1) exit(3); return x; }
static double ind() { char b[64]; if (scanf("%63s", b) != 1) exit(3); return strtod(b, 0); }
static void *mat(int r, int c) {
    void *m = shim_matrix2(r, c);
    double *d = shim_data(m);
    for (int i = 0; i < r * c; i++) d[i] = ind();
    return m;
}
static double touch(void *m) {
    double s = 0;
    for (int i = 0; i < shim_rows(m) * shim_cols(m); i++) s += shim_data(m)[i];
    return s;
}
int main() {
    char cmd[32];
    if (scanf("%31s", cmd) != 1) return 3;
    symex_on = 1;
    symex_n = in();
    for (int i = 0; i < symex_n; i++) symex_stream[i] = ind();
    if (!strcmp(cmd, "match")) {
        int r = in(), c = in();
        double d = ind(), oc = ind();
        void *a = mat(r, c), *b = mat(r, c), *x = shim_matrix0(), *y = shim_matrix0();
        double q = shim_match(a, b, d, oc, x, y);
        printf("%g %g\n", q, touch(x) + touch(y));
        shim_delete(a); shim_delete(b); shim_delete(x); shim_delete(y);
    } else if (!strcmp(cmd, "benms")) {
        int r = in(), c = in(), rad = in(), s = in();
        double m = ind();
        void *e = mat(r, c), *o = mat(r, c), *x = shim_matrix0();
        shim_benms(x, e, o, rad, s, m);
        printf("%g\n", touch(x));
        shim_delete(e); shim_delete(o); shim_delete(x);
    } else if (!strcmp(cmd, "kofn")) {
        int k = in(), n = in();
        int *v = (int *)malloc(k * sizeof(int));
        shim_kofn(k, n, v);
        free(v);
    } else if (!strcmp(cmd, "csa")) {
        int n = in(), m = in();
        int *g = (int *)malloc(3 * m * sizeof(int)), *o = (int *)malloc(3 * n * sizeof(int));
        for (int i = 0; i < 3 * m; i++) g[i] = in();
        shim_csa(n, m, g, o);
        free(g); free(o);
    }
    return 0;
}
