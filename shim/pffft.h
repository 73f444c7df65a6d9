/* Stand-in for the pffft library (absent in this sandbox).  It keeps pffft's
 * documented contract for real transforms:
 *  - "ordered" output is the canonical one: [X0, X(N/2), Re X1, Im X1, ...];
 *  - the internal z-format of the un-ordered transform is private to the
 *    library, here deliberately a permutation of the canonical order, so that
 *    code that mixes the two orders up is exposed;
 *  - transforms are unscaled: BACKWARD(FORWARD(x)) == N*x. */
#ifndef VERIF_SHIM_PFFFT_H
#define VERIF_SHIM_PFFFT_H
#include <cmath>
#include <complex>
#include <cstdlib>
#include <cstring>
#include <vector>

typedef enum { PFFFT_FORWARD, PFFFT_BACKWARD } pffft_direction_t;
typedef enum { PFFFT_REAL, PFFFT_COMPLEX } pffft_transform_t;

struct PFFFT_Setup {
  int n;
};

inline PFFFT_Setup* pffft_new_setup(int n, pffft_transform_t t) {
  // pffft: real transforms need a multiple of 32; we only do powers of two.
  if (t != PFFFT_REAL || n < 32 || (n & (n - 1))) return nullptr;
  return new PFFFT_Setup{n};
}
inline void pffft_destroy_setup(PFFFT_Setup* s) { delete s; }
inline void* pffft_aligned_malloc(size_t nb) {
  return aligned_alloc(64, (nb + 63) / 64 * 64);
}
inline void pffft_aligned_free(void* p) { free(p); }

namespace verif_pffft {
typedef std::complex<double> C;
inline void Fft(std::vector<C>& a, bool inv) {
  const size_t n = a.size();
  for (size_t i = 1, j = 0; i < n; i++) {
    size_t bit = n >> 1;
    for (; j & bit; bit >>= 1) j ^= bit;
    j ^= bit;
    if (i < j) std::swap(a[i], a[j]);
  }
  std::vector<C> w(n / 2 ? n / 2 : 1);
  for (size_t k = 0; k < n / 2; k++) {
    double ang = 2 * M_PI * k / n * (inv ? 1 : -1);
    w[k] = C(std::cos(ang), std::sin(ang));
  }
  for (size_t len = 2; len <= n; len <<= 1) {
    const size_t st = n / len;
    for (size_t i = 0; i < n; i += len)
      for (size_t k = 0; k < len / 2; k++) {
        C u = a[i + k], v = a[i + k + len / 2] * w[k * st];
        a[i + k] = u + v;
        a[i + k + len / 2] = u - v;
      }
  }
}
// z-format: reversed order of the canonical array.
inline size_t Z(size_t i, size_t n) { return n - 1 - i; }
inline void ForwardOrdered(size_t n, const float* in, float* out) {
  std::vector<C> a(n);
  for (size_t i = 0; i < n; i++) a[i] = in[i];
  Fft(a, false);
  out[0] = (float)a[0].real();
  out[1] = (float)a[n / 2].real();
  for (size_t k = 1; k < n / 2; k++) {
    out[2 * k] = (float)a[k].real();
    out[2 * k + 1] = (float)a[k].imag();
  }
}
inline void BackwardOrdered(size_t n, const float* in, float* out) {
  std::vector<C> a(n);
  a[0] = in[0];
  a[n / 2] = in[1];
  for (size_t k = 1; k < n / 2; k++) {
    a[k] = C(in[2 * k], in[2 * k + 1]);
    a[n - k] = std::conj(a[k]);
  }
  Fft(a, true);
  for (size_t i = 0; i < n; i++) out[i] = (float)a[i].real();
}
}  // namespace verif_pffft

// PFFFT_FORWARD: z-format -> canonical; PFFFT_BACKWARD: canonical -> z-format.
inline void pffft_zreorder(PFFFT_Setup* s, const float* in, float* out,
                           pffft_direction_t) {
  for (int i = 0; i < s->n; i++) out[i] = in[verif_pffft::Z(i, s->n)];
}
inline void pffft_transform_ordered(PFFFT_Setup* s, const float* in, float* out,
                                    float* /*work*/, pffft_direction_t d) {
  if (d == PFFFT_FORWARD) {
    verif_pffft::ForwardOrdered(s->n, in, out);
  } else {
    verif_pffft::BackwardOrdered(s->n, in, out);
  }
}
inline void pffft_transform(PFFFT_Setup* s, const float* in, float* out,
                            float* /*work*/, pffft_direction_t d) {
  std::vector<float> t(s->n);
  if (d == PFFFT_FORWARD) {
    verif_pffft::ForwardOrdered(s->n, in, t.data());
    pffft_zreorder(s, t.data(), out, PFFFT_BACKWARD);
  } else {
    pffft_zreorder(s, in, t.data(), PFFFT_FORWARD);
    verif_pffft::BackwardOrdered(s->n, t.data(), out);
  }
}
#endif
