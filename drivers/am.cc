// Feature extraction and acoustic scoring.
#include "e2e.h"
#include "fbank.h"
#include "am.h"
using namespace vf;
using namespace pocketkaldi;

static RefFbank *gRef;
static Vector<float> VecOf(const float *x, int n) { Vector<float> v(n); for (int i = 0; i < n; ++i) v(i) = x[i]; return v; }

static std::vector<float> RandWave(Rng *r, int n, std::string *desc) {
  std::vector<float> x; x.reserve(n); const double fulls[] = {127, 32767, 32767, 32767, 2147483647.0}; double full = fulls[r->Int(0, 4)]; *desc = Str("full scale %.0f:", full);
  while ((int)x.size() < n) {
    int kind = r->Int(0, 12), len = std::min((int)(n - x.size()), r->P(0.3) ? n : r->LogInt(30, 6000)); double amp = full * exp(r->Uni(-8, 0)), f = r->P(0.3) ? r->Int(0, 256) * 31.25 : r->Uni(0, 8000), ph = r->Uni(0, 7), dc = r->P(0.3) ? full * r->Uni(-0.9, 0.9) : 0, y = 0; int per = r->LogInt(2, 900); *desc += Str(" %d*%d", kind, len);
    for (int i = 0; i < len; ++i) {
      double v;
      switch (kind) {
        case 0: v = 0; break;
        case 1: v = full * (dc != 0 ? dc / full : 1); break;
        case 2: v = amp * r->Gauss() * 0.3; break;
        case 3: v = amp * sin(2 * M_PI * f * i / 16000 + ph); break;
        case 4: v = amp * sin(2 * M_PI * f * i / 16000 + ph) + dc * 0.5; break;
        case 5: v = i % per == 0 ? amp : 0; break;
        case 6: v = i & 1 ? full : -full - 1; break;
        case 7: v = i % per < per / 2 ? amp : -amp; break;
        case 8: v = dc + (r->P(0.5) ? 1 : 0); break;
        case 9: v = amp * (2.0 * (i % per) / per - 1); break;
        case 10: y = 0.95 * y + amp * 0.05 * r->Gauss(); v = y; break;
        case 11: v = r->P(0.002) ? full : r->Int(-1, 1); break;
        default: v = r->Uni(-full, full); break;
      }
      v = std::floor(v + 0.5); v = std::min(std::max(v, -full - 1), full); x.push_back((float)v);
    }
  }
  return x;
}
// ------------------------------------------------------------------ C03
static void FbankCase(Ctx *c) {
  Rng r = c->R(3); if (!gRef) gRef = new RefFbank();
  int n = r.P(0.15) ? r.Int(1, 400) : r.P(0.2) ? 400 + 160 * r.Int(0, 6) + r.Int(-2, 2) : r.P(0.001) && c->flavor != "asan" ? r.Int(1500000, 3000000) : r.P(0.02) ? r.LogInt(40000, c->flavor == "asan" ? 150000 : 500000) : r.LogInt(400, c->thorough ? 160000 : 40000);
  std::string desc; std::vector<float> x = RandWave(&r, n, &desc);
  std::unique_ptr<Fbank> fb(new Fbank()), other; Matrix<float> m; int T = RefFbank::Frames(n);
  std::vector<std::vector<float> > ref;
  {
    Fbank::Instance inst; Vector<float> v = VecOf(x.data(), n); fb->Process(&inst, v, &m);
    if (m.NumRows() != T || (T && m.NumCols() != 40)) { c->Violation("frames", "%d samples give %d x %d, %d frames expected", n, m.NumRows(), m.NumCols(), T); return; }
    for (int i = 0; i < n; ++i) if (v(i) != x[i]) { c->Violation("input", "the samples were modified"); return; }
  }
  double worst = 0; long decided = 0, floored = 0, wide = 0;
  for (int t = 0; t < T; ++t) {
    std::vector<float> row(40); for (int b = 0; b < 40; ++b) row[b] = m(t, b); ref.push_back(row);
    if (t > 40 && c->flavor == "asan" && t % 7) continue;
    double o[40], lo[40], hi[40]; gRef->Frame(x.data() + 160 * t, o, lo, hi);
    for (int b = 0; b < 40; ++b) {
      if (!(row[b] >= lo[b] && row[b] <= hi[b])) { c->Violation("value", "frame %d band %d of %d samples (%s): %.9g, definition %.9g, allowed [%.9g, %.9g]", t, b, n, desc.substr(0, 200).c_str(), row[b], o[b], lo[b], hi[b]); return; }
      if (hi[b] - lo[b] < 0.01) { ++decided; worst = std::max(worst, fabs(row[b] - o[b]) / (hi[b] - lo[b])); c->Max("err_1e6", (long long)(fabs(row[b] - o[b]) * 1e6)); } else ++wide;
      if (o[b] < -15.9) ++floored;
    }
  }
  c->Max("error_of_interval_pct", (long long)(100 * worst));
  // streaming: several instances of two extractors, interleaved
  if (r.P(0.5)) other.reset(new Fbank());
  int K = r.Int(1, 4); struct S { std::unique_ptr<Fbank::Instance> i; const Fbank *f; size_t pos; int rows; int style; int n; std::vector<float> own; std::vector<std::vector<float> > want; }; std::vector<S> ss(K); long pieces = 0;
  for (auto &s : ss) { s.i.reset(new Fbank::Instance()); s.f = other && r.P(0.5) ? other.get() : fb.get(); s.pos = 0; s.rows = 0; s.style = r.Int(0, 5); if (s.style == 0 && n > 4000) s.style = 1;
    if (r.P(0.3)) { std::string d; s.n = r.LogInt(1, 5000); s.own = RandWave(&r, s.n, &d); Fbank::Instance q; Matrix<float> z; Vector<float> v = VecOf(s.own.data(), s.n); fb->Process(&q, v, &z); for (int t = 0; t < z.NumRows(); ++t) { std::vector<float> row(40); for (int b = 0; b < 40; ++b) row[b] = z(t, b); s.want.push_back(row); } if (z.NumRows() != RefFbank::Frames(s.n)) { c->Violation("frames", "%d samples give %d frames", s.n, z.NumRows()); return; } }
    else { s.n = n; s.own = x; s.want = ref; } }
  std::vector<int> alive; for (int i = 0; i < K; ++i) alive.push_back(i);
  Matrix<float> out; if (r.P(0.5)) out.Resize(3, 5);
  while (!alive.empty()) {
    int w = r.Int(0, (int)alive.size() - 1); S &s = ss[alive[w]]; size_t left = s.n - s.pos, k;
    switch (s.style) { case 0: k = 1; break; case 1: k = r.Int(1, 700); break; case 2: k = 160; break; case 3: k = r.P(0.5) ? 399 : 401; break; case 4: k = r.LogInt(1, 8000); break; default: k = 512; }
    k = std::min(k, left); if (r.P(0.03)) k = 0;
    if (r.P(0.3)) { Vector<float> big(k + 6); big.Set(7); for (size_t i = 0; i < k; ++i) big(3 + i) = s.own[s.pos + i]; if (k) { SubVector<float> v = big.Range(3, k); s.f->Process(s.i.get(), v, &out); } else { Vector<float> e; s.f->Process(s.i.get(), e, &out); } }
    else { Vector<float> v = VecOf(s.own.data() + s.pos, k); s.f->Process(s.i.get(), v, &out); }
    s.pos += k; ++pieces;
    for (int t = 0; t < out.NumRows(); ++t, ++s.rows) {
      if (s.rows >= (int)s.want.size()) { c->Violation("stream-frames", "more frames than %zu after %zu samples", s.want.size(), s.pos); return; }
      for (int b = 0; b < 40; ++b) { float v = out(t, b); if (memcmp(&v, &s.want[s.rows][b], 4)) { c->Violation("stream", "frame %d band %d of %d samples in pieces (style %d, %d instances): %.9g, in one piece %.9g", s.rows, b, s.n, s.style, K, v, s.want[s.rows][b]); return; } }
    }
    if (s.rows != RefFbank::Frames((long)s.pos)) { c->Violation("stream-frames", "%d frames after %zu samples (style %d, last piece %zu), %d are complete", s.rows, s.pos, s.style, k, RefFbank::Frames((long)s.pos)); return; }
    if ((int)s.pos == s.n) { alive.erase(alive.begin() + w); c->Count("streams"); }
  }
  c->Count("frames", T); c->Count("values_within_1e-2", decided); c->Count("values_loose", wide); c->Count("floored", floored); c->Count("pieces", pieces); c->Count("shorter_than_a_frame", T == 0);
  c->nontrivial = T > 0; c->Sig(n); if (T) { c->SigD(ref[0][0]); c->SigD(ref[T - 1][39]); }
  c->Sample("%d samples (%s ...): %d frames within their intervals (worst %.0f%% of the interval), %d streams in %ld pieces equal", n, desc.substr(0, 60).c_str(), T, 100 * worst, K, pieces);
}

// ------------------------------------------------------------------ C04
static Net AmNet(Rng *r, int dim, int pdfs) {
  Net n; n.in = dim; n.out = pdfs; int L = 0, R = 0, d = dim; int splices = r->Int(0, 3);
  if (r->P(0.3)) { Net::L y; y.type = 7; for (int i = 0; i < d; ++i) { y.b.push_back((float)r->Uni(0.5, 1.5)); y.b2.push_back((float)r->Uni(-0.5, 0.5)); } n.layers.push_back(y); }
  for (int k = 0; k < splices; ++k) {
    Net::L y; y.type = 6; int l = r->P(0.3) ? 0 : r->Int(0, r->P(0.2) ? (r->P(0.15) ? 150 : 12) : 4), q = r->P(0.3) ? 0 : r->Int(0, r->P(0.2) ? (r->P(0.15) ? 150 : 12) : 4); std::set<int> ix; ix.insert(-l); ix.insert(q); for (int i = -l; i <= q; ++i) if (r->P(l + q > 24 ? 0.05 : 0.4)) ix.insert(i);
    y.idx.assign(ix.begin(), ix.end()); if (r->P(0.2)) r->Shuffle(&y.idx); n.layers.push_back(y); d *= (int)y.idx.size(); L += l; R += q;
    int h = r->Int(3, 14); n.layers.push_back(NetLinear(r, d, h, 1.5)); d = h; if (r->P(0.5)) { y = Net::L(); y.type = 1; n.layers.push_back(y); }
  }
  if (L + R > 0 || r->P(0.3)) { Net::L y; y.type = 9; y.l = L; y.r = R; n.layers.push_back(y); }
  if (r->P(0.85)) { n.layers.push_back(NetLinear(r, d, pdfs, r->Uni(1, 8))); } else n.out = pdfs = d;
  if (r->P(0.6)) { Net::L y; y.type = 8; n.layers.push_back(y); }
  n.left = L; n.right = R; return n;
}
static void AmCase(Ctx *c) {
  Rng r = c->R(4); int dim = r.P(0.5) ? 40 : r.Int(1, 12), pdfs = r.Int(1, 20); Net net = AmNet(&r, dim, pdfs); pdfs = net.out; int L = net.left, R = net.right;
  std::string d = c->Path("am"); mkdir(d.c_str(), 0755); WriteFile(d + "/n", net.Bytes()); std::vector<float> prior(pdfs); for (auto &p : prior) p = (float)exp(r.P(0.1) ? r.Uni(-80, -8) : r.Uni(-8, 0)); WriteFile(d + "/p", VecBytes(prior)); WriteFile(d + "/t", VecBytes(std::vector<int32_t>(r.Int(1, 9), 0)));
  c->Max("widest_context", std::max(L, R)); int streams = 0; long rows = 0, atend = 0; int chunks = r.Int(2, 3);
  // the streams, their features and the reference rows
  int J = r.Int(1, 3); std::vector<Net::D> feats(J), want(J);
  for (int j = 0; j < J; ++j) {
    bool vast = c->flavor == "o2" && c->cur % 6000 == 77 && j == 0; if (vast) c->Count("vast_streams"); int T = vast ? r.Int(66000, 90000) : r.P(0.004) ? r.Int(1000, 9000) : r.P(0.08) ? 0 : r.P(0.3) ? r.Int(1, L + R + 4) : r.LogInt(1, c->thorough ? 400 : 150); Net::D f(T, std::vector<double>(dim)); double lvl = r.Uni(-2, 2);
    for (auto &row : f) for (auto &v : row) v = (float)(r.Gauss() + lvl);
    Net::D p; if (T) { for (int i = 0; i < L; ++i) p.push_back(f[0]); p.insert(p.end(), f.begin(), f.end()); for (int i = 0; i < R; ++i) p.push_back(f[T - 1]); want[j] = net.Run(p); for (auto &row : want[j]) for (int i = 0; i < pdfs; ++i) row[i] -= log((double)prior[i]); if ((int)want[j].size() != T) { fprintf(stderr, "harness: rows\n"); _exit(98); } }
    feats[j] = f;
  }
  for (int q = 0; q < chunks; ++q) {
    int chunk = r.P(0.3) ? r.Int(1, 3) : r.P(0.2) ? r.Int(100, 1000) : r.P(0.03) ? r.Int(1000, 9000) : r.Int(1, 60);
    WriteFile(d + "/c", Str("nnet=n\nprior=p\nleft_context=%d\nright_context=%d\nchunk_size=%d\nnum_pdfs=%d\ntid2pdf=t\n", L, R, chunk, pdfs));
    Configuration conf; Status st = conf.Read(d + "/c"); AcousticModel am; if (st.ok()) st = am.Read(conf); if (!st.ok()) { c->Violation("read", "valid acoustic model refused: %s", st.what().c_str()); return; }
    if (am.num_pdfs() != pdfs) { c->Violation("num_pdfs", "%d instead of %d", am.num_pdfs(), pdfs); return; }
    struct S { std::unique_ptr<AcousticModel::Instance> i; int j; size_t pos, row; }; std::vector<S> ss; for (int j = 0; j < J; ++j) for (int k = r.P(0.3) ? 2 : 1; k > 0; --k) { S s; s.i.reset(new AcousticModel::Instance()); s.j = j; s.pos = s.row = 0; ss.push_back(std::move(s)); }
    Matrix<float> out; if (r.P(0.5)) out.Resize(r.Int(1, 9), r.Int(1, 9)); bool fresh = r.P(0.3);
    while (!ss.empty()) {
      size_t w = r.Int(0, (int)ss.size() - 1); S &s = ss[w]; const Net::D &f = feats[s.j]; bool end = s.pos == f.size(); Matrix<float> mine; Matrix<float> *o = fresh ? &mine : &out;
      if (end) am.EndOfStream(s.i.get(), o);
      else { Vector<float> big(dim + 4); big.Set(5); for (int i = 0; i < dim; ++i) big(2 + i) = (float)f[s.pos][i]; if (r.P(0.5)) { Vector<float> v(dim); for (int i = 0; i < dim; ++i) v(i) = big(2 + i); am.Process(s.i.get(), v, o); v.Set(99); } else { am.Process(s.i.get(), big.Range(2, dim), o); big.Set(99); } ++s.pos; }
      std::string what = Str("stream of %zu frames, contexts %d+%d, batches of %d, after frame %zu%s", f.size(), L, R, chunk, s.pos, end ? " and the end" : "");
      for (int t = 0; t < o->NumRows(); ++t, ++s.row) {
        if (s.row >= f.size()) { c->Violation("rows", "%s: more rows than frames", what.c_str()); return; }
        if (o->NumCols() != pdfs) { c->Violation("cols", "%s: %d scores instead of %d", what.c_str(), o->NumCols(), pdfs); return; }
        const std::vector<double> &e = want[s.j][s.row]; double big = 1; for (double v : e) big = std::max(big, fabs(v));
        for (int i = 0; i < pdfs; ++i) { double err = fabs((*o)(t, i) - e[i]); c->Max("err_ppm", (long long)(1e6 * err / big)); if (!(err <= 6e-5 * big)) { c->Violation("score", "%s: row %zu unit %d is %.8g, definition %.8g", what.c_str(), s.row, i, (*o)(t, i), e[i]); return; } }
        ++rows; if (end) ++atend;
      }
      if (s.row > s.pos) { c->Violation("rows", "%s: %zu rows", what.c_str(), s.row); return; }
      if (end) { if (s.row != f.size()) { c->Violation("rows", "%s: %zu rows in all", what.c_str(), s.row); return; } ss.erase(ss.begin() + w); ++streams; c->Count("streams"); c->Count("shorter_than_context", f.size() > 0 && (int)f.size() <= L + R); }
    }
    c->Sig(chunk);
  }
  c->Count("rows", rows); c->Count("rows_at_end", atend); c->nontrivial = rows > 1; c->Sig(rows); c->Sig(L * 100 + R); c->Sig(pdfs); c->Sig(feats[0].size());
  c->Sample("contexts %d+%d, %zu layers, %d units: %d streams, %ld rows (%ld at the end), each as defined", L, R, net.layers.size(), pdfs, streams, rows, atend);
}
int main(int argc, char **argv) { std::map<std::string, CaseFn> m; m["fbank"] = FbankCase; m["am"] = AmCase; return Main(argc, argv, m); }
