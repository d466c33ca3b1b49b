// Stand-in for the QDLDL package, which is not available here: the same interface and the same workspace
// contract, implemented after its documentation.  Every buffer is touched over its whole documented extent,
// so that a caller that provides less is found by the memory checker.
#pragma once
#include "tools/qdldl/qdldl_types.h"

static inline QDLDL_int QDLDL_etree(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai, QDLDL_int* work, QDLDL_int* Lnz, QDLDL_int* etree) {
  for (int i = 0; i < n; i++) {
    work[i] = 0, Lnz[i] = 0, etree[i] = -1;
    if (Ap[i] == Ap[i + 1]) return -1;  // empty column
  }
  for (int j = 0; j < n; j++) {
    work[j] = j;
    for (int p = Ap[j]; p < Ap[j + 1]; p++) {
      int i = Ai[p];
      if (i > j) return -1;  // not upper triangular
      while (work[i] != j) {
        if (etree[i] == -1) etree[i] = j;
        Lnz[i]++;
        work[i] = j;
        i = etree[i];
      }
    }
  }
  long long sum = 0;
  for (int i = 0; i < n; i++) sum += Lnz[i];
  return sum > QDLDL_INT_MAX ? -2 : (QDLDL_int)sum;
}

static inline QDLDL_int QDLDL_factor(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai, const QDLDL_float* Ax, QDLDL_int* Lp, QDLDL_int* Li,
                                     QDLDL_float* Lx, QDLDL_float* D, QDLDL_float* Dinv, const QDLDL_int* Lnz, const QDLDL_int* etree,
                                     QDLDL_bool* bwork, QDLDL_int* iwork, QDLDL_float* fwork) {
  QDLDL_int *y_idx = iwork, *buf = iwork + n, *next = iwork + 2 * n;
  int positive = 0;
  Lp[0] = 0;
  for (int i = 0; i < n; i++) {
    Lp[i + 1] = Lp[i] + Lnz[i];
    bwork[i] = 0, fwork[i] = 0, D[i] = 0, Dinv[i] = 0, y_idx[i] = 0, buf[i] = 0;
    next[i] = Lp[i];
  }
  for (int p = 0; p < Lp[n]; p++) Li[p] = -1, Lx[p] = 0;
  for (int k = 0; k < n; k++) {
    int nnzY = 0;
    for (int p = Ap[k]; p < Ap[k + 1]; p++) {
      int b = Ai[p];
      if (b == k) {
        D[k] = Ax[p];
        continue;
      }
      fwork[b] = Ax[p];
      int e = b, nb = 0;
      if (!bwork[e]) {
        bwork[e] = 1;
        buf[nb++] = e;
        e = etree[b];
        while (e != -1 && e < k) {
          if (bwork[e]) break;
          bwork[e] = 1;
          buf[nb++] = e;
          e = etree[e];
        }
        while (nb) y_idx[nnzY++] = buf[--nb];
      }
    }
    for (int i = nnzY - 1; i >= 0; i--) {
      int c = y_idx[i];
      double yc = fwork[c];
      for (int p = Lp[c]; p < next[c]; p++) fwork[Li[p]] -= Lx[p] * yc;
      Li[next[c]] = k;
      Lx[next[c]] = yc * Dinv[c];
      D[k] -= yc * Lx[next[c]];
      next[c]++;
      fwork[c] = 0, bwork[c] = 0;
    }
    if (D[k] == 0) return -1;
    positive += D[k] > 0;
    Dinv[k] = 1 / D[k];
  }
  return positive;
}

static inline void QDLDL_solve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx, const QDLDL_float* Dinv, QDLDL_float* x) {
  for (int i = 0; i < n; i++)
    for (int p = Lp[i]; p < Lp[i + 1]; p++) x[Li[p]] -= Lx[p] * x[i];
  for (int i = 0; i < n; i++) x[i] *= Dinv[i];
  for (int i = n - 1; i >= 0; i--)
    for (int p = Lp[i]; p < Lp[i + 1]; p++) x[i] -= Lx[p] * x[Li[p]];
}
