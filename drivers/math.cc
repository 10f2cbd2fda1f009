// Numeric monitors: network layers (C15), 8-bit products (C16), matrices and
// vectors (C17), FFT (C18), CMVN (C19).  Every result is compared with a
// double-precision computation of the definition inside a rounding bound.
#include <math.h>
#include <complex>
#include <thread>
#include <memory>
#include "h.h"
#include "matrix.h"
#include "vector.h"
#include "nnet.h"
#include "srfft.h"
#include "cmvn.h"
#include "fbank.h"
using namespace vf;
using namespace pocketkaldi;
static const double EPS = 6e-8;     // half an ulp of 1.0f
typedef std::vector<double> DV;
typedef std::vector<DV> DM;

static void Le(std::string *s, const void *p, size_t n) { s->append((const char *)p, n); }
static void LeI(std::string *s, int32_t v) { Le(s, &v, 4); }
template <class T> static std::string VecBytes(const std::vector<T> &v) {
  std::string s = "VEC0"; LeI(&s, 4 + (int)(v.size() * sizeof(T))); LeI(&s, (int)v.size());
  Le(&s, v.data(), v.size() * sizeof(T)); return s;
}
static std::string MatBytes(const std::vector<std::vector<float> > &m) {
  std::string s = "MAT0"; size_t sz = 8; for (auto &r : m) sz += 12 + 4 * r.size();
  LeI(&s, (int)sz); LeI(&s, (int)m.size()); LeI(&s, m.empty() ? 0 : (int)m[0].size());
  for (auto &r : m) s += VecBytes(r);
  return s;
}

// ------------------------------------------------------------------ C15
struct LayerSpec {
  int type; std::vector<std::vector<float> > W; std::vector<float> b, sc, of; std::vector<int> idx; int nl, nr;
  std::string Bytes() const {
    std::string s = "LAY0"; LeI(&s, type);
    switch (type) {
      case 0: s += MatBytes(W) + VecBytes(b); break;
      case 6: LeI(&s, (int)idx.size()); for (int i : idx) LeI(&s, i); break;
      case 7: s += VecBytes(sc) + VecBytes(of); break;
      case 9: LeI(&s, nl); LeI(&s, nr); break;
    }
    return s;
  }
  const char *Name() const { switch (type) { case 0: return "linear"; case 1: return "relu"; case 2: return "normalize"; case 3: return "softmax"; case 6: return "splice"; case 7: return "batchnorm"; case 8: return "logsoftmax"; } return "narrow"; }
};
struct Val { DM x, e; };     // value and bound on the accumulated rounding error
static Val Ref(const LayerSpec &l, const Val &in) {
  Val o; size_t R = in.x.size(), C = R ? in.x[0].size() : 0;
  switch (l.type) {
    case 0: {
      size_t N = l.b.size();
      o.x.assign(R, DV(N)); o.e = o.x;
      for (size_t r = 0; r < R; ++r) for (size_t n = 0; n < N; ++n) {
        double s = l.b[n], a = fabs(l.b[n]), e = 0;
        for (size_t k = 0; k < C; ++k) { double p = in.x[r][k] * l.W[k][n]; s += p; a += fabs(p); e += in.e[r][k] * fabs(l.W[k][n]); }
        o.x[r][n] = s; o.e[r][n] = e + 2 * EPS * (C + 3) * (a + e) + 1e-37;
      }
      break;
    }
    case 1: o = in; for (auto &r : o.x) for (auto &v : r) if (v < 0) v = 0; break;
    case 2: o = in;
      for (size_t r = 0; r < R; ++r) {
        double q = 0, eq = 0; for (size_t c = 0; c < C; ++c) { q += in.x[r][c] * in.x[r][c]; eq += in.e[r][c] * in.e[r][c]; }
        if (q == 0) { for (size_t c = 0; c < C; ++c) o.e[r][c] = eq > 0 ? 1e30 : 0; continue; }
        double sc = sqrt(C / q), rel = sqrt(eq / q);
        for (size_t c = 0; c < C; ++c) { o.x[r][c] = in.x[r][c] * sc; o.e[r][c] = rel > 0.1 ? 1e30 : 1.3 * sc * (in.e[r][c] + fabs(in.x[r][c]) * rel) + 2 * EPS * (C + 6) * fabs(o.x[r][c]) + 1e-37; }
      }
      break;
    case 3: case 8: o = in;
      for (size_t r = 0; r < R; ++r) {
        double m = -1e300, me = 0, mx = 0; for (size_t c = 0; c < C; ++c) { m = std::max(m, in.x[r][c]); me = std::max(me, in.e[r][c]); mx = std::max(mx, fabs(in.x[r][c])); }
        double s = 0; for (size_t c = 0; c < C; ++c) s += exp(in.x[r][c] - m);
        for (size_t c = 0; c < C; ++c) {
          double d = in.x[r][c] - m;
          if (l.type == 3) { o.x[r][c] = exp(d) / s; double k = 2 * me + 2 * EPS * (C + 8 + std::min(200.0, fabs(d)) + (d > -200 ? mx : 0)); o.e[r][c] = k > 1 ? 1.0 : o.x[r][c] * (exp(k) - 1) * 1.2 + 1e-37; }
          else { o.x[r][c] = d - log(s); o.e[r][c] = in.e[r][c] + me + 2 * EPS * (C + 8 + 4 * mx + fabs(o.x[r][c]) * 2); }
        }
      }
      break;
    case 6:
      o.x.assign(R, DV()); o.e = o.x;
      for (size_t r = 0; r < R; ++r) for (int i : l.idx) {
        int k = std::min<int>(std::max<int>((int)r + i, 0), (int)R - 1);
        o.x[r].insert(o.x[r].end(), in.x[k].begin(), in.x[k].end()); o.e[r].insert(o.e[r].end(), in.e[k].begin(), in.e[k].end());
      }
      break;
    case 7: o = in;
      for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) { double p = in.x[r][c] * l.sc[c]; o.x[r][c] = p + l.of[c]; o.e[r][c] = in.e[r][c] * fabs(l.sc[c]) + 4 * EPS * (fabs(p) + fabs(l.of[c])) + 1e-37; }
      break;
    case 9:
      if ((int)R <= l.nl + l.nr) o = in;
      else { o.x.assign(in.x.begin() + l.nl, in.x.end() - l.nr); o.e.assign(in.e.begin() + l.nl, in.e.end() - l.nr); }
      break;
  }
  return o;
}
static LayerSpec RandLayer(Rng *r, int cols, int type, double mag, int big) {
  LayerSpec l; l.type = type;
  if (type == 0) {
    int n = big == 2 ? (cols > 100 ? r->Int(1, 30) : r->Int(3000, 9000)) : big ? r->LogInt(1, 400) : r->LogInt(1, 70);
    double z = r->P(0.2) ? 0.5 : 0;
    l.W.assign(cols, std::vector<float>(n)); l.b.resize(n);
    for (auto &w : l.W) for (auto &v : w) v = r->P(z) ? 0 : (float)(r->Gauss() * mag);
    for (auto &v : l.b) v = (float)(r->Gauss() * mag);
  } else if (type == 6) {
    int n = r->Int(1, 7); for (int i = 0; i < n; ++i) l.idx.push_back(r->P(0.1) ? r->Int(-40, 40) : r->Int(-5, 5));
    if (r->P(0.5)) std::sort(l.idx.begin(), l.idx.end());
  } else if (type == 7) {
    for (int i = 0; i < cols; ++i) { l.sc.push_back((float)(r->Gauss() * 2)); l.of.push_back((float)r->Gauss()); }
  } else if (type == 9) { l.nl = r->Int(0, 6); l.nr = r->Int(0, 6); }
  return l;
}
static std::unique_ptr<Layer> MakeLayer(const LayerSpec &l) {
  if (l.type == 0) {
    int K = (int)l.W.size(), N = (int)l.b.size();
    Matrix<float> W(N, K); Vector<float> b(N);
    for (int n = 0; n < N; ++n) { b(n) = l.b[n]; for (int k = 0; k < K; ++k) W(n, k) = l.W[k][n]; }
    return std::unique_ptr<Layer>(new LinearLayer(W, b));
  }
  if (l.type == 1) return std::unique_ptr<Layer>(new ReLULayer());
  if (l.type == 2) return std::unique_ptr<Layer>(new NormalizeLayer());
  if (l.type == 3) return std::unique_ptr<Layer>(new SoftmaxLayer());
  if (l.type == 6) return std::unique_ptr<Layer>(new SpliceLayer(l.idx));
  if (l.type == 7) { Vector<float> s((int)l.sc.size()), o((int)l.of.size()); for (int i = 0; i < s.Dim(); ++i) { s(i) = l.sc[i]; o(i) = l.of[i]; } return std::unique_ptr<Layer>(new BatchNormLayer(s, o)); }
  if (l.type == 8) return std::unique_ptr<Layer>(new LogSoftmaxLayer());
  return std::unique_ptr<Layer>(new NarrowLayer(l.nl, l.nr));
}
static bool Compare(Ctx *c, const std::string &what, const MatrixBase<float> &got, const Val &ref, int last_type) {
  size_t R = ref.x.size(), C = R ? ref.x[0].size() : 0;
  if (got.NumRows() != (int)R || got.NumCols() != (int)C) { c->Violation("nnet-shape", "%s: output %dx%d, definition %zux%zu", what.c_str(), got.NumRows(), got.NumCols(), R, C); return false; }
  long loose = 0;
  for (size_t r = 0; r < R; ++r) {
    double sum = 0; bool neg = false, fin = true;
    for (size_t k = 0; k < C; ++k) {
      double g = got((int)r, (int)k);
      if (!std::isfinite(g)) { c->Violation("nnet-not-finite", "%s: output (%zu,%zu) is %g, definition %g", what.c_str(), r, k, g, ref.x[r][k]); return false; }
      if (ref.e[r][k] > 1e-2 * (1 + fabs(ref.x[r][k]))) { ++loose; }
      else if (fabs(g - ref.x[r][k]) > ref.e[r][k] * 1.5) { c->Violation("nnet-value", "%s: output (%zu,%zu) of %zux%zu is %.9g, definition %.9g (allowed %.2g)", what.c_str(), r, k, R, C, g, ref.x[r][k], ref.e[r][k]); return false; }
      sum += g; if (g < 0) neg = true;
    }
    if (last_type == 3 && (neg || !fin || fabs(sum - 1) > 1e-5 + 2 * EPS * C)) { c->Violation("nnet-softmax", "%s: softmax row %zu sums to %.9g%s", what.c_str(), r, sum, neg ? ", negative entry" : ""); return false; }
    c->Count("elements", (long)C);
  }
  c->Count("elements_without_bound", loose);
  return true;
}
static void NnetCase(Ctx *c) {
  Rng r = c->R(15);
  static const int kTypes[] = {0, 1, 2, 3, 6, 7, 8, 9};
  bool big = r.P(0.1);
  int R = r.P(0.15) ? 1 : r.LogInt(1, big ? 200 : 40), C = r.P(0.1) ? 1 : r.LogInt(1, big ? 500 : 80);
  // sizes beyond the usual: many frames in one call, or very wide layers
  int huge = r.P(0.006) ? r.Int(1, 3) : 0; if (huge) { big = false; c->Count("large_networks"); }
  if (huge == 1) { R = r.Int(1000, 5000); C = r.LogInt(1, 40); } else if (huge == 2) { R = r.Int(1, 3); C = r.Int(3000, 9000); } else if (huge == 3) { R = r.Int(1, 3); C = r.LogInt(1, 40); }
  double mag = exp(r.Uni(log(0.01), log(3.0)));
  // input, possibly a view into a larger matrix with padded rows
  Matrix<float> big_in; int ro = 0, co = 0; bool view = r.P(0.4);
  if (view) { ro = r.Int(0, 3); co = r.Int(0, 5); big_in.Resize(R + ro + r.Int(0, 3), C + co + r.Int(0, 5), Matrix<float>::kSetZero, r.P(0.5) ? Matrix<float>::kDefaultStride : Matrix<float>::kStrideEqualNumCols); }
  else big_in.Resize(R, C, Matrix<float>::kSetZero, r.P(0.5) ? Matrix<float>::kDefaultStride : Matrix<float>::kStrideEqualNumCols);
  for (int i = 0; i < big_in.NumRows(); ++i) for (int j = 0; j < big_in.NumCols(); ++j) big_in(i, j) = 7777;
  SubMatrix<float> in(big_in, ro, R, co, C);
  int kind = (int)(c->cur % 3);          // single layer / stack / extreme activations
  int ntype = kTypes[(c->cur / 3) % 8];
  if (kind == 2) ntype = (c->cur / 3) % 3 == 0 ? 3 : (c->cur / 3) % 3 == 1 ? 8 : 2;
  Val v; v.x.assign(R, DV(C)); v.e = v.x;
  double xs = kind == 2 && ntype != 2 ? exp(r.Uni(log(10.0), log(1e30))) : kind == 2 ? exp(r.Uni(log(1e-15), log(1e15))) : exp(r.Uni(log(0.01), log(30.0)));
  for (int i = 0; i < R; ++i) {
    bool zero = r.P(0.1), cst = r.P(0.1); double cv = r.Gauss() * xs;
    for (int j = 0; j < C; ++j) { float f = zero ? 0.0f : cst ? (float)cv : (float)(r.Gauss() * xs); if (r.P(0.02)) f = -0.0f; in(i, j) = f; v.x[i][j] = f; }
  }
  std::vector<float> before; for (int i = 0; i < big_in.NumRows(); ++i) for (int j = 0; j < big_in.NumCols(); ++j) before.push_back(big_in(i, j));
  std::vector<LayerSpec> ls; std::string desc;
  int n = kind == 1 ? r.Int(2, 7) : 1;
  int cols = C;
  for (int i = 0; i < n; ++i) {
    int t = kind == 1 ? kTypes[r.Int(0, 7)] : ntype;
    if (kind == 1 && i == n - 1 && r.P(0.5)) t = r.P(0.5) ? 3 : 8;
    LayerSpec l = RandLayer(&r, cols, t, kind == 1 ? 1.0 / sqrt((double)cols) : mag, huge == 3 ? 2 : big && kind != 1);
    if (t == 6 && cols * l.idx.size() > (huge ? 30000u : 3000u)) continue;
    Val o = Ref(l, v); v = o; cols = v.x[0].size();
    desc += std::string(desc.empty() ? "" : "+") + l.Name() + Str("->%zux%d", v.x.size(), cols);
    ls.push_back(l);
  }
  if (ls.empty()) return;
  desc = Str("input %dx%d%s: ", R, C, view ? " (view)" : "") + desc;
  int last = ls.back().type;
  // as read from a model file
  std::string f = "NN02"; LeI(&f, r.Int(0, 9)); LeI(&f, r.Int(0, 9)); LeI(&f, (int)ls.size());
  int32_t lc, rc; memcpy(&lc, &f[4], 4); memcpy(&rc, &f[8], 4);
  for (auto &l : ls) f += l.Bytes();
  std::string path = c->Path("n.nnet"); WriteFile(path, f);
  Nnet nnet; util::ReadableFile fd; Status st = fd.Open(path);
  if (st.ok()) st = nnet.Read(&fd);
  if (!st.ok()) { c->Violation("nnet-read", "%s: not read: %s", desc.c_str(), st.what().c_str()); return; }
  if (nnet.left_context() != lc || nnet.right_context() != rc) { c->Violation("nnet-context", "%s: contexts %d/%d read as %d/%d", desc.c_str(), lc, rc, nnet.left_context(), nnet.right_context()); return; }
  Matrix<float> out; if (r.P(0.5)) { out.Resize(r.Int(1, 9), r.Int(1, 9)); for (int i = 0; i < out.NumRows(); ++i) for (int j = 0; j < out.NumCols(); ++j) out(i, j) = 3e9f; }
  nnet.Propagate(in, &out);
  if (!Compare(c, "network file, " + desc, out, v, last)) return;
  if (ls.size() == 1) {
    std::unique_ptr<Layer> l = MakeLayer(ls[0]);
    Matrix<float> o2; if (r.P(0.5)) { o2.Resize((int)v.x.size(), (int)v.x[0].size()); for (int i = 0; i < o2.NumRows(); ++i) for (int j = 0; j < o2.NumCols(); ++j) o2(i, j) = 3e9f; }
    l->Propagate(in, &o2);
    if (!Compare(c, "layer object, " + desc, o2, v, last)) return;
  }
  // a second use of the same network gives the same rows, alone or in the batch
  Matrix<float> out2; nnet.Propagate(in, &out2);
  bool same = out2.NumRows() == out.NumRows() && out2.NumCols() == out.NumCols();
  for (int i = 0; same && i < out.NumRows(); ++i) same = memcmp(out.Row(i).Data(), out2.Row(i).Data(), out.NumCols() * 4) == 0;
  if (!same) { c->Violation("nnet-repeat", "%s: a second propagation of the same input differs", desc.c_str()); return; }
  size_t k = 0;
  for (int i = 0; i < big_in.NumRows(); ++i) for (int j = 0; j < big_in.NumCols(); ++j, ++k) if (memcmp(&before[k], &big_in.Row(i).Data()[j], 4)) { c->Violation("nnet-input", "%s: input element (%d,%d) was modified", desc.c_str(), i, j); return; }
  c->nontrivial = R * C > 1; c->SigS(desc); c->Count(std::string("last_") + ls.back().Name());
  c->Count("layers", (long)ls.size());
  c->Sample("%s: all outputs inside the rounding bound of the definition", desc.c_str());
}

// ------------------------------------------------------------------ C16
static double FillQ(Rng *r, Matrix<float> *m, int *kind) {
  *kind = r->Int(0, 7);
  double mag = exp(r->Uni(log(1e-4), log(1e4))), lo, hi;
  switch (*kind) {
    case 0: lo = -mag; hi = mag; break;
    case 1: lo = 0; hi = mag; break;
    case 2: lo = mag; hi = mag * r->Uni(1.2, 10); break;          // all positive
    case 3: lo = -mag * r->Uni(1.2, 10); hi = -mag; break;        // all negative
    case 4: lo = hi = mag; break;                                 // equal
    case 5: lo = hi = -mag; break;
    case 6: lo = hi = 0; break;
    default: lo = -mag * r->Uni(0.001, 0.1); hi = mag; break;     // zero near an end
  }
  for (int i = 0; i < m->NumRows(); ++i) for (int j = 0; j < m->NumCols(); ++j) (*m)(i, j) = (float)(lo == hi ? lo : r->P(0.05) ? lo : r->P(0.05) ? hi : r->Uni(lo, hi));
  // all values in the inner part of the range but for one extreme somewhere
  if (lo != hi && r->P(0.25)) {
    double a = lo + 0.35 * (hi - lo), b = hi - 0.35 * (hi - lo);
    for (int i = 0; i < m->NumRows(); ++i) for (int j = 0; j < m->NumCols(); ++j) (*m)(i, j) = (float)r->Uni(a, b);
    int at = r->P(0.2) ? m->NumRows() * m->NumCols() - 1 : r->Int(0, m->NumRows() * m->NumCols() - 1);
    m->Data()[at] = (float)(r->P(0.5) ? lo : hi);
  }
  return std::max(fabs(lo), fabs(hi));
}
static bool CheckQuant(Ctx *c, Rng *r, Matrix<float> *m, Matrix<uint8_t> *q, QuantizationParams *p, const std::string &what) {
  int kind; double mag = FillQ(r, m, &kind);
  std::vector<float> before(m->Data(), m->Data() + m->NumRows() * m->NumCols());
  if (r->P(0.4)) q->Resize(r->Int(1, 9), r->Int(1, 9)); else if (r->P(0.5)) q->Resize(m->NumRows(), m->NumCols());
  Quantize(*m, q, p);
  if (q->NumRows() != m->NumRows() || q->NumCols() != m->NumCols()) { c->Violation("quant-shape", "%s: codes are %dx%d", what.c_str(), q->NumRows(), q->NumCols()); return false; }
  if (!std::isfinite(p->scale)) { c->Violation("quant-scale", "%s kind %d: scale is %g", what.c_str(), kind, p->scale); return false; }
  if (p->scale == 0 && kind != 6) { c->Violation("quant-scale", "%s kind %d: scale is 0", what.c_str(), kind); return false; }
  for (int i = 0; i < m->NumRows(); ++i) for (int j = 0; j < m->NumCols(); ++j) {
    double v = (*m)(i, j), d = (double)p->scale * ((int)q->Data()[i * q->NumCols() + j] - p->zero_point);
    if (!(fabs(d - v) <= fabs(p->scale) * 1.01 + 8 * EPS * mag)) { c->Violation("quant-step", "%s kind %d (%dx%d): element (%d,%d) = %.9g has code %d, which stands for %.9g; the step is %.3g", what.c_str(), kind, m->NumRows(), m->NumCols(), i, j, v, (*q)(i, j), d, p->scale); return false; }
  }
  if (memcmp(before.data(), m->Data(), before.size() * 4)) { c->Violation("quant-input", "%s: input modified", what.c_str()); return false; }
  // the step itself uses the 8 bits when the values straddle zero
  if ((kind == 0 || kind == 1 || kind == 7) && before.size() > 1) {
    float lo = *std::min_element(before.begin(), before.end()), hi = *std::max_element(before.begin(), before.end());
    if (hi > 0 && hi > lo && p->scale > 1.01 * (hi - std::min(lo, 0.0f)) / 255) { c->Violation("quant-coarse", "%s kind %d: step %.6g for values in [%.6g, %.6g]", what.c_str(), kind, p->scale, lo, hi); return false; }
  }
  c->Count("codes", (long)before.size()); c->Sig(kind);
  return true;
}
static void QuantCase(Ctx *c) {
  Rng r = c->R(16);
  bool big = r.P(c->thorough ? 0.2 : 0.1);
  int m = r.P(0.15) ? 1 : r.LogInt(1, big ? 400 : 70), n = r.P(0.15) ? 1 : r.LogInt(1, big ? 400 : 70), k = r.P(0.1) ? 1 : r.LogInt(1, big ? 900 : 90);
  if (r.P(0.02)) { c->Count("large_products"); int w = r.Int(0, 2), v = r.Int(1000, 5700); m = r.LogInt(1, 16); n = r.LogInt(1, 16); k = r.LogInt(1, 30); if (w == 0) m = v; else if (w == 1) n = v; else k = v; }
  Matrix<float> A(m, k), B(k, n), C(m, n);
  Matrix<uint8_t> qa, qb; QuantizationParams pa, pb;
  std::string what = Str("%dx%d * %dx%d", m, k, k, n);
  if (!CheckQuant(c, &r, &A, &qa, &pa, "left of " + what)) return;
  if (!CheckQuant(c, &r, &B, &qb, &pb, "right of " + what)) return;
  c->Sig(m); c->Sig(n); c->Sig(k); c->nontrivial = m * k > 1 && k * n > 1;
  if (!c->nontrivial) return;
  // integer sums must fit the 32-bit accumulator
  double za = std::max(255, abs(pa.zero_point)) + 255.0, zb = std::max(255, abs(pb.zero_point)) + 255.0;
  if (za * zb * k > 1.5e9) { c->Count("skipped_accumulator"); return; }
  std::vector<uint8_t> ca(qa.Data(), qa.Data() + m * k), cb(qb.Data(), qb.Data() + k * n);
  for (int i = 0; i < m * n; ++i) C.Data()[i] = (float)(r.P(0.2) ? 1e30 : 12345);
  MatMat_U8U8F32(qa, pa, qb, pb, &C);
  if (memcmp(ca.data(), qa.Data(), ca.size()) || memcmp(cb.data(), qb.Data(), cb.size())) { c->Violation("gemm8-input", "%s: operand modified", what.c_str()); return; }
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    long long s = 0; for (int t = 0; t < k; ++t) s += (long long)((int)ca[i * k + t] - pa.zero_point) * ((int)cb[t * n + j] - pb.zero_point);
    double want = (double)pa.scale * pb.scale * s;
    if (!(fabs(C(i, j) - want) <= 6 * EPS * fabs(want) + 1e-37)) { c->Violation("gemm8-value", "%s: element (%d,%d) is %.9g, exact product of the dequantised operands %.9g (zero points %d, %d)", what.c_str(), i, j, C(i, j), want, pa.zero_point, pb.zero_point); return; }
  }
  c->Count("products", (long)m * n);
  c->Sample("%s: %d codes within one step, %d products exact", what.c_str(), m * k + k * n, m * n);
}

// ------------------------------------------------------------------ C17
template <class T> struct Eps { static double v() { return 0; } };
template <> struct Eps<float> { static double v() { return 2.4e-7; } };
template <> struct Eps<double> { static double v() { return 4.5e-16; } };
template <class T> static T RV(Rng *r) { return (T)(r->Int(-64, 64) / 8.0); }
template <> int32_t RV<int32_t>(Rng *r) { return r->Int(-1000, 1000); }
template <> uint8_t RV<uint8_t>(Rng *r) { return (uint8_t)r->Int(0, 255); }

template <class T> struct MM {         // a matrix and its model
  Matrix<T> m; std::vector<std::vector<T> > x;
  int Rows() const { return (int)x.size(); }
  int Cols() const { return x.empty() ? 0 : (int)x[0].size(); }
};
template <class T> static bool MEq(Ctx *c, const MM<T> &a, const char *op, const char *ty, int step) {
  if (a.m.NumRows() != a.Rows() || a.m.NumCols() != a.Cols() || (a.Rows() && a.m.Stride() < a.Cols())) { c->Violation("mat-shape", "%s %s (step %d): shape %dx%d stride %d, expected %dx%d", ty, op, step, a.m.NumRows(), a.m.NumCols(), a.m.Stride(), a.Rows(), a.Cols()); return false; }
  for (int i = 0; i < a.Rows(); ++i) for (int j = 0; j < a.Cols(); ++j) {
    T g = a.m(i, j), w = a.x[i][j];
    if (!(g == w)) { c->Violation("mat-value", "%s %s (step %d): element (%d,%d) of %dx%d is %.9g, expected %.9g", ty, op, step, i, j, a.Rows(), a.Cols(), (double)g, (double)w); return false; }
  }
  return true;
}
static bool MatMul(Rng *r, Ctx *c, std::vector<MM<float> > *ms) {
  int m = r->LogInt(1, 60), k = r->LogInt(1, 60), n = r->LogInt(1, 60);
  if (r->P(0.1)) { m = r->LogInt(1, 150); k = r->LogInt(1, 200); n = r->LogInt(1, 150); }
  if (r->P(0.03)) { c->Count("large_products"); int w = r->Int(0, 2), v = r->Int(1000, 9000); m = r->LogInt(1, 16); n = r->LogInt(1, 16); k = r->LogInt(1, 16); if (w == 0) m = v; else if (w == 1) n = v; else k = v; }
  MM<float> a, b, o;
  struct L { static void Fill(Rng *r, MM<float> *q, int R, int C) {
    q->m.Resize(R, C, Matrix<float>::kSetZero, r->P(0.5) ? Matrix<float>::kDefaultStride : Matrix<float>::kStrideEqualNumCols);
    q->x.assign(R, std::vector<float>(C));
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) q->m(i, j) = q->x[i][j] = (float)r->Int(-20, 20); } };
  int p[6]; for (int i = 0; i < 6; ++i) p[i] = r->P(0.5) ? 0 : r->Int(1, 4);
  L::Fill(r, &a, m + p[0], k + p[1]); L::Fill(r, &b, k + p[2], n + p[3]); L::Fill(r, &o, m + p[4], n + p[5]);
  int ar = p[0] ? r->Int(0, p[0]) : 0, ac = p[1] ? r->Int(0, p[1]) : 0, br = p[2] ? r->Int(0, p[2]) : 0, bc = p[3] ? r->Int(0, p[3]) : 0, orr = p[4] ? r->Int(0, p[4]) : 0, oc = p[5] ? r->Int(0, p[5]) : 0;
  SubMatrix<float> A(a.m, ar, m, ac, k), B(b.m, br, k, bc, n), O(o.m, orr, m, oc, n);
  bool simple = r->P(0.4);
  if (simple) SimpleMatMat<float>(A, B, &O); else MatMat(A, B, &O);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { long s = 0; for (int t = 0; t < k; ++t) s += (long)a.x[ar + i][ac + t] * (long)b.x[br + t][bc + j]; o.x[orr + i][oc + j] = (float)s; }
  const char *op = simple ? "SimpleMatMat" : "MatMat";
  c->Count("products");
  return MEq(c, o, op, "float", m * 1000 + n) && MEq(c, a, op, "float", 1) && MEq(c, b, op, "float", 2);
}
template <class T> static bool MatHistory(Ctx *c, Rng *r, const char *ty) {
  std::vector<MM<T> > ms(3);
  int steps = r->Int(10, 60);
  std::string trace; bool big = r->P(0.01); if (big) { steps = 12; c->Count("large_histories"); }
  for (int s = 0; s < steps; ++s) {
    MM<T> &a = ms[r->Int(0, 2)]; MM<T> &b = ms[r->Int(0, 2)];
    const char *op = "?";
    int w = r->Int(0, 11);
    if (a.x.empty() && w > 1) w = r->Int(0, 1);
    // a random view of a
    int R = a.Rows(), C = a.Cols();
    int vr = R ? r->Int(1, R) : 0, vc = C ? r->Int(1, C) : 0, o1 = R ? r->Int(0, R - vr) : 0, o2 = C ? r->Int(0, C - vc) : 0;
    switch (w) {
      case 0: case 1: {
        int nr = r->P(0.07) ? 0 : r->LogInt(1, 30), nc = nr == 0 ? 0 : r->LogInt(1, 40); if (big && nr) { if (r->P(0.5)) nr = r->Int(500, 3000); else nc = r->Int(500, 70000 / nr + 500); }
        if (r->P(0.15) && R) { nr = R; nc = C; }
        int kind = r->Int(0, 2), st = r->P(0.5) ? Matrix<T>::kDefaultStride : Matrix<T>::kStrideEqualNumCols;
        if (kind == 0) { op = "Resize(zero)"; a.m.Resize(nr, nc, Matrix<T>::kSetZero, st); a.x.assign(nr, std::vector<T>(nc)); }
        else if (kind == 1) { op = "Resize(undefined)"; a.m.Resize(nr, nc, Matrix<T>::kUndefined, st); a.x.assign(nr, std::vector<T>(nc)); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) a.m(i, j) = a.x[i][j] = RV<T>(r); }
        else { op = "Resize(copy)"; a.m.Resize(nr, nc, Matrix<T>::kCopyData, st); std::vector<std::vector<T> > x(nr, std::vector<T>(nc)); for (int i = 0; i < nr && i < R; ++i) for (int j = 0; j < nc && j < C; ++j) x[i][j] = a.x[i][j]; a.x = x; }
        break; }
      case 2: { op = "element writes"; for (int k = 0; k < 5; ++k) { int i = r->Int(0, R - 1), j = r->Int(0, C - 1); T v = RV<T>(r); a.m(i, j) = v; a.x[i][j] = v; } break; }
      case 3: { op = "Scale(view)"; T k = (T)r->Int(-2, 3); if (std::is_same<T, uint8_t>::value) k = (T)r->Int(0, 3);
        a.m.Range(o1, vr, o2, vc).Scale(k); for (int i = 0; i < vr; ++i) for (int j = 0; j < vc; ++j) a.x[o1 + i][o2 + j] *= k;
        for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (fabs((double)a.x[i][j]) > 1e5) { a.m(i, j) = a.x[i][j] = 1; }
        break; }
      case 4: { op = "SetZero(view)"; a.m.Range(o1, vr, o2, vc).SetZero(); for (int i = 0; i < vr; ++i) for (int j = 0; j < vc; ++j) a.x[o1 + i][o2 + j] = 0; break; }
      case 5: { op = "Transpose(view)"; int q = std::min(vr, vc); a.m.Range(o1, q, o2, q).Transpose(); auto x = a.x; for (int i = 0; i < q; ++i) for (int j = 0; j < q; ++j) a.x[o1 + i][o2 + j] = x[o1 + j][o2 + i]; break; }
      case 6: case 7: { // copy b -> view of a
        if (&a == &b || b.x.empty()) continue;
        bool tr = w == 7; op = tr ? "CopyFromMat(transposed view)" : "CopyFromMat(view)";
        int q1 = std::min(vr, tr ? b.Cols() : b.Rows()), q2 = std::min(vc, tr ? b.Rows() : b.Cols());
        int br = tr ? q2 : q1, bc = tr ? q1 : q2; int p1 = r->Int(0, b.Rows() - br), p2 = r->Int(0, b.Cols() - bc);
        SubMatrix<T> dst(a.m, o1, q1, o2, q2), src(b.m, p1, br, p2, bc);
        dst.CopyFromMat(src, tr ? MatrixBase<T>::kTrans : MatrixBase<T>::kNoTrans);
        for (int i = 0; i < q1; ++i) for (int j = 0; j < q2; ++j) a.x[o1 + i][o2 + j] = tr ? b.x[p1 + j][p2 + i] : b.x[p1 + i][p2 + j];
        break; }
      case 8: { op = "Swap"; a.m.Swap(&b.m); std::swap(a.x, b.x); break; }
      case 9: { op = "row view"; int i = r->Int(0, R - 1); SubVector<T> row = a.m.Row(i); if (row.Dim() != C) { c->Violation("mat-row", "%s: row of %dx%d has %d elements", ty, R, C, row.Dim()); return false; }
        T v = RV<T>(r); row.Set(v); for (int j = 0; j < C; ++j) a.x[i][j] = v;
        if (r->P(0.5)) { int k = r->Int(0, R - 1); a.m.Row(i).CopyFromVec(a.m.Row(k)); a.x[i] = a.x[k]; }
        break; }
      case 10: { op = "view of a view"; SubMatrix<T> v1(a.m, o1, vr, o2, vc); int q1 = r->Int(1, vr), q2 = r->Int(1, vc), p1 = r->Int(0, vr - q1), p2 = r->Int(0, vc - q2);
        SubMatrix<T> v2 = v1.Range(p1, q1, p2, q2);
        if (v2.NumRows() != q1 || v2.NumCols() != q2) { c->Violation("mat-view", "%s: view is %dx%d, expected %dx%d", ty, v2.NumRows(), v2.NumCols(), q1, q2); return false; }
        for (int i = 0; i < q1; ++i) for (int j = 0; j < q2; ++j) { if (!(v2(i, j) == a.x[o1 + p1 + i][o2 + p2 + j])) { c->Violation("mat-view", "%s: view element (%d,%d) is %g, expected %g", ty, i, j, (double)v2(i, j), (double)a.x[o1 + p1 + i][o2 + p2 + j]); return false; } T v = RV<T>(r); v2(i, j) = v; a.x[o1 + p1 + i][o2 + p2 + j] = v; }
        break; }
      default: { op = "SubMatrix(pointer)"; SubMatrix<T> v(a.m.Data() + o1 * a.m.Stride() + o2, vr, vc, a.m.Stride()); v.SetZero(); for (int i = 0; i < vr; ++i) for (int j = 0; j < vc; ++j) a.x[o1 + i][o2 + j] = 0; break; }
    }
    c->Count("matrix_ops"); c->SigS(op);
    for (auto &m : ms) if (!MEq(c, m, op, ty, s)) return false;
  }
  return true;
}
// SubMatrix<uint8_t> is not part of the library: whole matrices only.
static bool U8History(Ctx *c, Rng *r) {
  typedef uint8_t T; std::vector<MM<T> > ms(3);
  int steps = r->Int(10, 60);
  for (int s = 0; s < steps; ++s) {
    MM<T> &a = ms[r->Int(0, 2)]; MM<T> &b = ms[r->Int(0, 2)]; const char *op = "?";
    int w = a.x.empty() ? 0 : r->Int(0, 6), R = a.Rows(), C = a.Cols();
    if (w <= 1) {
      int nr = r->P(0.07) ? 0 : r->LogInt(1, 30), nc = nr == 0 ? 0 : r->LogInt(1, 40), st = r->P(0.5) ? Matrix<T>::kDefaultStride : Matrix<T>::kStrideEqualNumCols;
      bool z = r->P(0.5); op = "Resize"; a.m.Resize(nr, nc, z ? Matrix<T>::kSetZero : Matrix<T>::kUndefined, st); a.x.assign(nr, std::vector<T>(nc));
      if (!z) for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) a.m(i, j) = a.x[i][j] = RV<T>(r);
    } else if (w == 2) { op = "element writes"; for (int k = 0; k < 5; ++k) { int i = r->Int(0, R - 1), j = r->Int(0, C - 1); T v = RV<T>(r); a.m(i, j) = v; a.x[i][j] = v; }
    } else if (w == 3) { op = "Scale"; T k = (T)r->Int(0, 3); a.m.Scale(k); for (auto &v : a.x) for (auto &e : v) e *= k;
    } else if (w == 4) { op = "Swap"; a.m.Swap(&b.m); std::swap(a.x, b.x);
    } else if (w == 5) { op = "CopyFromMat"; if (&a == &b || b.x.empty()) continue; bool tr = r->P(0.5); int nr = tr ? b.Cols() : b.Rows(), nc = tr ? b.Rows() : b.Cols(); a.m.Resize(nr, nc); a.m.CopyFromMat(b.m, tr ? MatrixBase<T>::kTrans : MatrixBase<T>::kNoTrans); a.x.assign(nr, std::vector<T>(nc)); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) a.x[i][j] = tr ? b.x[j][i] : b.x[i][j];
    } else { op = "row/transpose"; if (R == C) { a.m.Transpose(); auto x = a.x; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) a.x[i][j] = x[j][i]; } else { int i = r->Int(0, R - 1); T v = RV<T>(r); a.m.Row(i).Set(v); for (auto &e : a.x[i]) e = v; } }
    c->Count("matrix_ops"); c->SigS(op);
    for (auto &m : ms) if (!MEq(c, m, op, "uint8", s)) return false;
  }
  return true;
}
template <class T> struct VM { Vector<T> v; std::vector<T> x; };
template <class T> static bool VEq(Ctx *c, VM<T> &a, const char *op, const char *ty, double rel) {
  if (a.v.Dim() != (int)a.x.size()) { c->Violation("vec-dim", "%s %s: dimension %d, expected %zu", ty, op, a.v.Dim(), a.x.size()); return false; }
  for (size_t i = 0; i < a.x.size(); ++i) {
    double g = a.v((int)i), w = a.x[i];
    if (!(g == w || fabs(g - w) <= rel * (1 + fabs(w)) || (std::isnan(g) && std::isnan(w)))) { c->Violation("vec-value", "%s %s: element %zu of %zu is %.9g, expected %.9g", ty, op, i, a.x.size(), g, w); return false; }
    if (rel) a.x[i] = a.v((int)i);
  }
  return true;
}
static void CrossOps(Ctx *, Rng *, std::vector<VM<int32_t> > &, int, const char **) {}
static void CrossOps(Ctx *, Rng *, std::vector<VM<uint8_t> > &, int, const char **) {}
template <class T> static void Cross(Rng *r, std::vector<VM<T> > &vs, const char **op) {
  typedef typename std::conditional<std::is_same<T, float>::value, double, float>::type O;
  VM<T> &a = vs[r->Int(0, (int)vs.size() - 1)];
  Vector<O> o((int)a.x.size()); for (int i = 0; i < o.Dim(); ++i) o(i) = (O)(r->P(0.5) ? r->Uni(-6, 6) : r->Int(-99, 99) / 16.0);
  if (r->P(0.5)) { *op = "CopyFromVec(other type)"; a.v.CopyFromVec(o); for (int i = 0; i < o.Dim(); ++i) a.x[i] = (T)o(i); }
  else { *op = "AddVec(other type)"; T al = (T)(r->P(0.3) ? 1 : r->P(0.5) ? r->Uni(-2, 2) : r->Int(-8, 8) / 4.0); a.v.AddVec(al, o); for (int i = 0; i < o.Dim(); ++i) a.x[i] = (T)(a.x[i] + (double)al * o(i)); }
}
static void CrossOps(Ctx *, Rng *r, std::vector<VM<float> > &vs, int, const char **op) { Cross(r, vs, op); }
static void CrossOps(Ctx *, Rng *r, std::vector<VM<double> > &vs, int, const char **op) { Cross(r, vs, op); }
static void AddSame(VectorBase<float> *a, float al, const VectorBase<float> &b) { a->AddVec(al, b); }
template <class T> static void AddSame(VectorBase<T> *a, T al, const VectorBase<T> &b) { for (int i = 0; i < a->Dim(); ++i) (*a)(i) += al * b(i); }
template <class T> static bool VecHistory(Ctx *c, Rng *r, const char *ty) {
  std::vector<VM<T> > vs(3);
  const bool fl = std::is_floating_point<T>::value;
  int steps = r->Int(10, 60); bool big = r->P(0.02); if (big) { steps = 12; c->Count("large_histories"); }
  for (int s = 0; s < steps; ++s) {
    int ia = r->Int(0, 2), ib = r->Int(0, 2); VM<T> &a = vs[ia]; VM<T> &b = vs[ib];
    const char *op = "?"; double rel = 0; int n = (int)a.x.size();
    int l = n ? r->Int(1, n) : 0, o = n ? r->Int(0, n - l) : 0;
    int w = r->Int(0, fl ? 19 : 8);
    if (!n && w > 1) w = 0;
    switch (w) {
      case 0: case 1: { int k = r->Int(0, 2), d = r->P(0.1) ? 0 : r->P(0.15) ? n : big && r->P(0.7) ? r->Int(2000, 150000) : r->LogInt(1, 300);
        if (k == 0) { op = "Resize(zero)"; a.v.Resize(d); a.x.assign(d, 0); }
        else if (k == 1) { op = "Resize(undefined)"; a.v.Resize(d, Vector<T>::kUndefined); a.x.resize(d); for (int i = 0; i < d; ++i) a.v(i) = a.x[i] = RV<T>(r); }
        else { op = "Resize(copy)"; a.v.Resize(d, Vector<T>::kCopyData); a.x.resize(d, 0); }
        break; }
      case 2: op = "Set(view)"; { T v = RV<T>(r); a.v.Range(o, l).Set(v); for (int i = 0; i < l; ++i) a.x[o + i] = v; } break;
      case 3: op = "SetZero(view)"; a.v.Range(o, l).SetZero(); for (int i = 0; i < l; ++i) a.x[o + i] = 0; break;
      case 4: { if (ia == ib || b.x.empty()) continue; op = "CopyFromVec(view)"; l = std::min<int>(l, (int)b.x.size()); int p = r->Int(0, (int)b.x.size() - l); a.v.Range(o, l).CopyFromVec(b.v.Range(p, l)); for (int i = 0; i < l; ++i) a.x[o + i] = b.x[p + i]; break; }
      case 5: op = "Swap"; a.v.Swap(&b.v); std::swap(a.x, b.x); break;
      case 6: { op = "move construction"; Vector<T> t(std::move(a.v)); if (t.Dim() != n || a.v.Dim() != 0) { c->Violation("vec-move", "%s: moved %d elements, source keeps %d", ty, t.Dim(), a.v.Dim()); return false; } for (int i = 0; i < n; ++i) if (!(t(i) == a.x[i])) { c->Violation("vec-move", "%s: element %d lost by move", ty, i); return false; } a.v = std::move(t); if (t.Dim() != 0) { c->Violation("vec-move", "%s: source keeps %d elements", ty, t.Dim()); return false; } break; }
      case 7: { op = "move assignment"; if (ia == ib) { Vector<T> &self = b.v; a.v = std::move(self); } else { a.v = std::move(b.v); a.x = b.x; b.x.clear(); } break; }
      case 8: { op = "element writes"; for (int k = 0; k < 4; ++k) { int i = r->Int(0, n - 1); T v = RV<T>(r); a.v(i) = v; a.x[i] = v; } break; }
      case 9: { op = "VecVec"; if ((int)b.x.size() < l) continue; int p = r->Int(0, (int)b.x.size() - l); double got = (double)a.v.Range(o, l).VecVec(b.v.Range(p, l)), sum = 0, ab = 0; for (int i = 0; i < l; ++i) { double q = (double)a.x[o + i] * b.x[p + i]; sum += q; ab += fabs(q); }
        if (!(fabs(got - sum) <= Eps<T>::v() * (l + 2) * ab + 1e-30)) { c->Violation("vec-dot", "%s: dot product of %d elements is %.9g, expected %.9g", ty, l, got, sum); return false; } break; }
      case 10: { op = "ApplyFloor"; T f = RV<T>(r); if (r->P(0.3)) f = a.x[r->Int(0, n - 1)]; int want = 0; int got = a.v.Range(o, l).ApplyFloor(f); for (int i = 0; i < l; ++i) if (a.x[o + i] < f) { a.x[o + i] = f; ++want; } if (want != got) { c->Violation("vec-floor", "%s: ApplyFloor reports %d of %d elements, floored %d", ty, got, l, want); return false; } break; }
      case 11: { op = "ApplyLog"; for (int i = 0; i < l; ++i) { T v = (T)(r->P(0.1) ? 0 : fabs((double)a.x[o + i]) + 1e-3); a.v(o + i) = v; a.x[o + i] = (T)log((double)v); } a.v.Range(o, l).ApplyLog(); rel = 4 * Eps<T>::v();
        bool bad = false; for (int i = 0; i < l; ++i) { if (std::isinf((double)a.x[o + i])) { if (!(std::isinf((double)a.v(o + i)) && a.v(o + i) < 0)) bad = true; a.v(o + i) = a.x[o + i] = 0; } } if (bad) { c->Violation("vec-log", "%s: log of 0 is not -inf", ty); return false; } break; }
      case 12: { op = "ApplyPow"; T p = (T)(r->P(0.5) ? 0.5 : r->P(0.5) ? 2 : -1); for (int i = 0; i < l; ++i) { T v = (T)(fabs((double)a.x[o + i]) + 0.1); if (v > 100) v = 100; a.v(o + i) = v; a.x[o + i] = (T)pow((double)v, (double)p); } a.v.Range(o, l).ApplyPow(p); rel = 4 * Eps<T>::v(); break; }
      case 13: case 14: { bool lg = w == 14; op = lg ? "ApplyLogSoftMax" : "ApplySoftMax"; double k = r->P(0.3) ? 100 : 1, m = -1e300, mx = 0; std::vector<double> y(l);
        for (int i = 0; i < l; ++i) { T v = (T)((double)RV<T>(r) * k); a.v(o + i) = v; y[i] = v; m = std::max(m, (double)v); mx = std::max(mx, fabs((double)v)); }
        double sum = 0; for (int i = 0; i < l; ++i) sum += exp(y[i] - m);
        if (lg) a.v.Range(o, l).ApplyLogSoftMax(); else a.v.Range(o, l).ApplySoftMax();
        for (int i = 0; i < l; ++i) a.x[o + i] = (T)(lg ? y[i] - m - log(sum) : exp(y[i] - m) / sum);
        rel = std::is_same<T, float>::value || !lg ? 3e-7 * (l + 20 + mx) : 1e-14 * (l + 20 + mx); break; }
      case 15: { op = "AddVec(view)"; if (ia == ib || (int)b.x.size() < l) continue; int p = r->Int(0, (int)b.x.size() - l); T al = (T)(r->P(0.3) ? 1 : r->P(0.4) ? r->Uni(-2, 2) : r->Int(-8, 8) / 4.0); SubVector<T> dst = a.v.Range(o, l); AddSame(static_cast<VectorBase<T> *>(&dst), al, b.v.Range(p, l)); for (int i = 0; i < l; ++i) a.x[o + i] = (T)(a.x[o + i] + (double)al * b.x[p + i]); rel = 4 * Eps<T>::v() * 200; break; }
      case 16: { op = "Scale(view)"; T k = (T)(r->Int(-8, 8) / 4.0); a.v.Range(o, l).Scale(k); for (int i = 0; i < l; ++i) a.x[o + i] *= k; break; }
      case 17: { op = "Add(view)"; T k = RV<T>(r); a.v.Range(o, l).Add(k); for (int i = 0; i < l; ++i) a.x[o + i] += k; break; }
      case 18: { op = "MulElements"; if ((int)b.x.size() < l) continue; if (ia == ib) { a.v.MulElements(a.v); for (auto &e : a.x) e *= e; } else { int p = r->Int(0, (int)b.x.size() - l); a.v.Range(o, l).MulElements(b.v.Range(p, l)); for (int i = 0; i < l; ++i) a.x[o + i] *= b.x[p + i]; } break; }
      default: CrossOps(c, r, vs, 0, &op); rel = 4 * Eps<T>::v() * 20; break;
    }
    c->Count("vector_ops"); c->SigS(op);
    for (auto &v : vs) {
      if (!VEq(c, v, op, ty, rel)) return false;
      for (size_t i = 0; i < v.x.size(); ++i) if (!(fabs((double)v.x[i]) < 1e3) ) v.v((int)i) = v.x[i] = (T)1;
    }
  }
  return true;
}
static void MatCase(Ctx *c) {
  Rng r = c->R(17); bool ok = true;
  switch (c->cur % 8) {
    case 0: ok = MatHistory<float>(c, &r, "float"); break;
    case 1: ok = MatHistory<double>(c, &r, "double"); break;
    case 2: ok = U8History(c, &r); break;
    case 3: ok = VecHistory<float>(c, &r, "float"); break;
    case 4: ok = VecHistory<double>(c, &r, "double"); break;
    case 5: ok = VecHistory<int32_t>(c, &r, "int32"); break;
    case 6: ok = VecHistory<uint8_t>(c, &r, "uint8"); break;
    default: for (int i = 0; ok && i < 4; ++i) { ok = MatMul(&r, c, nullptr); c->Sig(r.Next()); }
  }
  c->nontrivial = true;
  if (ok) c->Sample("history kind %ld: every element of every operand equal to the model after each operation", c->cur % 8);
}

// ------------------------------------------------------------------ C18
typedef std::complex<double> CD;
static void RefFft(std::vector<CD> *a) {
  size_t n = a->size(); if (n == 1) return;
  std::vector<CD> e(n / 2), o(n / 2); for (size_t i = 0; i < n / 2; ++i) { e[i] = (*a)[2 * i]; o[i] = (*a)[2 * i + 1]; }
  RefFft(&e); RefFft(&o);
  for (size_t k = 0; k < n / 2; ++k) { CD t = std::polar(1.0, -2 * M_PI * k / n) * o[k]; (*a)[k] = e[k] + t; (*a)[k + n / 2] = e[k] - t; }
}
static std::vector<float> FftInput(Rng *r, int N) {
  std::vector<float> x(N); int kind = r->Int(0, 6); double mag = exp(r->Uni(log(1e-3), log(3e4)));
  int f = r->Int(0, N / 2), p = r->Int(0, N - 1);
  for (int i = 0; i < N; ++i) switch (kind) {
    case 0: x[i] = (float)(r->Gauss() * mag); break;
    case 1: x[i] = (float)(mag * cos(2 * M_PI * f * i / N + 0.3)); break;
    case 2: x[i] = i == p ? (float)mag : 0; break;
    case 3: x[i] = (float)mag; break;
    case 4: x[i] = 0; break;
    case 5: x[i] = (float)(i & 1 ? -mag : mag); break;
    default: x[i] = i < 400 ? (float)r->Int(-32768, 32767) : 0; break;
  }
  return x;
}
static double FftTol(int N, double norm) { return (1e-6 + 2e-7 * N) * norm + 1e-30; }
static bool CheckFft(Ctx *c, const SRFFT &fft, int N, const std::vector<float> &x, std::vector<float> *X, const char *what) {
  // guard words around data and scratch space
  std::vector<float> d(N + 8, 4242.f), buf(N + 8, 1717.f);
  std::copy(x.begin(), x.end(), d.begin() + 4);
  fft.Compute(d.data() + 4, N, true, buf.data() + 4, N);
  std::vector<CD> ref(N); double norm = 0; for (int i = 0; i < N; ++i) { ref[i] = x[i]; norm += (double)x[i] * x[i]; } norm = sqrt(norm);
  RefFft(&ref);
  double worst = 0, sc = FftTol(N, norm) ;
  for (int k = 0; k <= N / 2; ++k) {
    double re, im; if (k == 0) { re = d[4]; im = 0; } else if (k == N / 2) { re = d[5]; im = 0; } else { re = d[4 + 2 * k]; im = d[4 + 2 * k + 1]; }
    double e = std::max(fabs(re - ref[k].real()), (k == 0 || k == N / 2) ? 0.0 : fabs(im - ref[k].imag()));
    worst = std::max(worst, e);
    if (!(e <= sc)) { c->Violation("fft-forward", "%s N=%d: bin %d is (%.9g, %.9g), transform (%.9g, %.9g), allowed error %.3g", what, N, k, re, im, ref[k].real(), ref[k].imag(), sc); return false; }
  }
  X->assign(d.begin() + 4, d.begin() + 4 + N);
  c->Max("fft_error_permille_of_allowed", (long long)(1000 * worst / sc));
  fft.Compute(d.data() + 4, N, false, buf.data() + 4, N);
  double worst2 = 0;
  for (int i = 0; i < N; ++i) {
    double e = fabs(d[4 + i] / N - x[i]); worst2 = std::max(worst2, e);
    if (!(e <= (1e-6 + 2e-8 * N) * norm + 1e-30)) { c->Violation("fft-inverse", "%s N=%d: inverse gives %.9g at %d, input %.9g (times N)", what, N, d[4 + i] / N, i, x[i]); return false; }
  }
  for (int i = 0; i < 4; ++i) if (d[i] != 4242.f || d[4 + N + i] != 4242.f || buf[i] != 1717.f || buf[4 + N + i] != 1717.f) { c->Violation("fft-bounds", "%s N=%d: wrote outside data or scratch", what, N); return false; }
  c->Count("transforms", 2);
  return true;
}
static void FftCase(Ctx *c) {
  Rng r = c->R(18);
  int lg = 2 + (int)(c->cur % 12); if (c->cur % 36 == 35) lg = 14 + (int)(c->cur / 36 % 4);  // up to 131072
  int N = 1 << lg; c->Max("fft_size", N);
  SRFFT fft(N);
  int n = lg > 13 ? 2 : 6;
  std::vector<std::vector<float> > xs, Xs;
  for (int i = 0; i < n; ++i) { xs.push_back(FftInput(&r, N)); std::vector<float> X; if (!CheckFft(c, fft, N, xs[i], &X, "fresh object")) return; Xs.push_back(X); }
  // the same object, used again in any order and direction, repeats itself bit for bit
  for (int i = 0; i < n; ++i) {
    int k = r.Int(0, n - 1); std::vector<float> d = xs[k], b(N, 99.f);
    fft.Compute(d.data(), N, true, b.data(), N);
    if (memcmp(d.data(), Xs[k].data(), 4 * N)) { c->Violation("fft-state", "N=%d: a later forward transform of the same input differs", N); return; }
    if (r.P(0.5)) fft.Compute(d.data(), N, false, b.data(), N);
  }
  // shared by threads
  if (c->cur % 3 == 0 || c->flavor == "tsan") {
    std::vector<std::thread> th; std::vector<int> bad(4, 0);
    for (int t = 0; t < 4; ++t) th.emplace_back([&, t]() {
      for (int i = 0; i < 3 * n; ++i) { int k = (i * 7 + t) % n; std::vector<float> d = xs[k], b(N); fft.Compute(d.data(), N, true, b.data(), N); if (memcmp(d.data(), Xs[k].data(), 4 * N)) bad[t] = 1; fft.Compute(d.data(), N, false, b.data(), N); }
    });
    for (auto &t : th) t.join();
    for (int t = 0; t < 4; ++t) if (bad[t]) { c->Violation("fft-threads", "N=%d: a transform run beside others differs", N); return; }
    c->Count("threaded_transforms", 4 * 6 * n);
  }
  c->nontrivial = true; c->Sig(N); for (auto &x : Xs) for (int i = 0; i < std::min(N, 64); ++i) c->SigD(x[i]);
  c->Sample("N=%d: %d inputs transformed forward and back inside the bound, repeats bit-identical", N, n);
}

// ------------------------------------------------------------------ C19
static void CmvnCase(Ctx *c) {
  Rng r = c->R(19);
  int T = r.P(0.004) ? r.Int(10000, 70000) : r.P(0.3) ? r.Int(1, 30) : r.P(0.5) ? r.Int(380, 640) : r.Int(600, c->thorough ? 6000 : 1900);
  Matrix<float> raw(T, 40, Matrix<float>::kSetZero, r.P(0.5) ? Matrix<float>::kDefaultStride : Matrix<float>::kStrideEqualNumCols);
  double off = r.Uni(-20, 20), amp = exp(r.Uni(log(0.01), log(30.0))); int seg = r.Int(1, 400); double lvl = 0, maxabs = 1e-6;
  for (int t = 0; t < T; ++t) { if (t % seg == 0) lvl = r.Gauss() * amp * 2; for (int d = 0; d < 40; ++d) { raw(t, d) = (float)(off + lvl + d * 0.1 + r.Gauss() * amp); maxabs = std::max(maxabs, (double)fabs(raw(t, d))); } }
  Vector<float> g(41); double cnt = exp(r.Uni(log(1.0), log(1e6))); for (int d = 0; d < 40; ++d) { g(d) = (float)((off + r.Gauss() * amp) * cnt); maxabs = std::max(maxabs, fabs(g(d) / cnt)); } g(40) = (float)cnt;
  std::vector<float> g0(g.Data(), g.Data() + 41), r0; for (int t = 0; t < T; ++t) for (int d = 0; d < 40; ++d) r0.push_back(raw(t, d));
  CMVN a(g, raw);
  std::vector<float> out; DV sum(40);
  Vector<float> fr(40);
  for (int t = 0; t < T; ++t) {
    for (int d = 0; d < 40; ++d) fr(d) = 1e9f;
    a.GetFrame(t, &fr);
    int win = std::min(t + 1, 600); double gf = win < 600 ? std::min(200, 600 - win) : 0;
    for (int d = 0; d < 40; ++d) {
      sum[d] += r0[t * 40 + d]; if (t >= 600) sum[d] -= r0[(t - 600) * 40 + d];
      double mean = (sum[d] + gf * (double)g0[d] / g0[40]) / (win + gf), want = r0[t * 40 + d] - mean;
      double tol = (10 + std::max(0, t) * 0.6 + 4) * 1.2e-7 * maxabs + 1e-7 * fabs(want);
      if (!(fabs(fr(d) - want) <= tol)) { c->Violation("cmvn-value", "frame %d of %d, dimension %d: %.9g, definition %.9g (window %d frames + %.0f global, allowed %.2g)", t, T, d, fr(d), want, win, gf, tol); return; }
      out.push_back(fr(d));
    }
  }
  // an utterance cut after any frame gives the same frames
  int T2 = r.Int(1, T); Matrix<float> pre(T2, 40); pre.CopyFromMat(raw.Range(0, T2, 0, 40));
  CMVN b(g, pre);
  for (int t = 0; t < T2; ++t) { b.GetFrame(t, &fr); if (memcmp(fr.Data(), &out[t * 40], 160)) { c->Violation("cmvn-causal", "frame %d differs when the utterance has %d instead of %d frames", t, T2, T); return; } }
  size_t k = 0; for (int t = 0; t < T; ++t) for (int d = 0; d < 40; ++d, ++k) if (memcmp(&r0[k], raw.Row(t).Data() + d, 4)) { c->Violation("cmvn-input", "input frame %d modified", t); return; }
  if (memcmp(g0.data(), g.Data(), 164)) { c->Violation("cmvn-input", "global statistics modified"); return; }
  c->Count("frames", T); if (T > 600) c->Count("frames_past_window", T - 600); c->Max("utterance", T);
  c->nontrivial = T > 1; c->Sig(T); for (int i = 0; i < 40; ++i) c->SigD(out[out.size() - 1 - i]);
  c->Sample("%d frames: every normalised value within the bound of the sliding-window definition; prefix of %d frames identical", T, T2);
}
int main(int argc, char **argv) { return Main(argc, argv, {{"nnet", NnetCase}, {"quant", QuantCase}, {"mat", MatCase}, {"fft", FftCase}, {"cmvn", CmvnCase}}); }
