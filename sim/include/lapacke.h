// Minimal LAPACKE stand-in: the only routine UltraDMRG calls.
#ifndef VERIF_STUB_MKL_H
#define VERIF_STUB_MKL_H
#define LAPACK_ROW_MAJOR 101
#define LAPACK_COL_MAJOR 102
typedef int lapack_int;
#define MKL_INT int
extern "C" lapack_int LAPACKE_dstev(int layout, char jobz, lapack_int n, double *d, double *e, double *z, lapack_int ldz);
#endif
