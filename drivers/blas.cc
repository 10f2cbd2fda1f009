// Plain single-precision GEMM for builds whose instrumentation cannot see into
// OpenBLAS (ThreadSanitizer, valgrind).
extern "C" void cblas_sgemm(int order, int ta, int tb, int M, int N, int K, float alpha, const float *A, int lda, const float *B, int ldb, float beta, float *C, int ldc) {
  for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) {
    float s = 0;
    for (int k = 0; k < K; ++k) s += (ta == 112 ? A[k * lda + i] : A[i * lda + k]) * (tb == 112 ? B[j * ldb + k] : B[k * ldb + j]);
    C[i * ldc + j] = alpha * s + (beta == 0 ? 0 : beta * C[i * ldc + j]);
  }
}
