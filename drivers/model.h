// Random models (decoding graph, backoff language model, network), their files,
// and reference semantics: exact search, filterbank, network.
#ifndef VERIF_MODEL_H_
#define VERIF_MODEL_H_
#include <cfloat>
#include <cmath>
#include <complex>
#include <deque>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include "h.h"

namespace vf {

// ------------------------------------------------------------ byte writers
inline void Put(std::string *s, const void *p, size_t n) { s->append((const char *)p, n); }
inline void P32(std::string *s, int32_t v) { Put(s, &v, 4); }
inline void PF(std::string *s, float v) { Put(s, &v, 4); }
template <class T> std::string VecBytes(const std::vector<T> &v) {
  std::string s = "VEC0"; P32(&s, 4 + (int)(v.size() * sizeof(T))); P32(&s, (int)v.size());
  Put(&s, v.data(), v.size() * sizeof(T)); return s;
}
typedef std::vector<std::vector<float> > Mat;
inline std::string MatBytes(const Mat &m, int cols) {
  std::string s = "MAT0"; P32(&s, 8); P32(&s, (int)m.size()); P32(&s, cols);
  for (size_t i = 0; i < m.size(); ++i) s += VecBytes(m[i]); return s;
}

// ------------------------------------------------------------ graphs
struct GArc { int il, ol; double w; int to; };
struct Graph {
  int start; std::vector<std::vector<GArc> > arcs; std::vector<double> fin;
  int n() const { return (int)arcs.size(); }
  void Resize(int k) { arcs.resize(k); fin.assign(k, INFINITY); start = 0; }
  void Add(int from, int to, int il, int ol, double w) { GArc a = {il, ol, w, to}; arcs[from].push_back(a); }
};

// ------------------------------------------------------------ backoff LM
struct LArc { int next, il, ol; float w; };
struct Lm {
  int start; std::vector<float> fin; std::vector<std::vector<LArc> > arcs;
  int bos, eos; std::vector<float> small;      // original unigram costs
  std::string Bytes() const {
    std::string s = "pk::fst_0"; s.resize(32, '\0');
    int na = 0; for (auto &a : arcs) na += (int)a.size();
    P32(&s, 12 + 8 * (int)fin.size() + 16 * na); P32(&s, (int)fin.size()); P32(&s, na); P32(&s, start);
    for (float f : fin) PF(&s, f);
    int at = 0; for (auto &a : arcs) { P32(&s, a.empty() ? -1 : at); at += (int)a.size(); }
    for (auto &v : arcs) for (auto &a : v) { P32(&s, a.next); P32(&s, a.il); P32(&s, a.ol); PF(&s, a.w); }
    return s;
  }
  // full large-model cost of a word, with backoff
  bool Word(int s, int w, int *next, double *cost) const {
    double acc = 0;
    for (;;) {
      const std::vector<LArc> &v = arcs[s];
      for (auto &a : v) if (a.il == w) { *next = a.next; *cost = acc + a.w; return true; }
      if (v.empty() || v[0].il != 0) return false;
      acc += v[0].w; s = v[0].next;
    }
  }
  double Final(int s) const {
    double acc = 0;
    for (;;) {
      if (std::isfinite(fin[s])) return acc + fin[s];
      if (arcs[s].empty() || arcs[s][0].il != 0) return INFINITY;
      acc += arcs[s][0].w; s = arcs[s][0].next;
    }
  }
  int Start() const { int n; double c; return Word(start, bos, &n, &c) ? n : start; }
  bool Delta(int s, int w, int *next, double *cost) const {
    if (!Word(s, w, next, cost)) return false;
    *cost -= small[w]; return true;
  }
  double DeltaFinal(int s) const {
    int n; double c; if (!Word(s, eos, &n, &c)) return INFINITY;
    return c + Final(n) - small[eos];
  }
};
// n-gram shaped: state 0 unigram; word histories back off to shorter ones.
inline Lm RandLm(Rng *r, int V, double unit, int states) {
  Lm m; m.bos = V + 1; m.eos = V + 2; m.arcs.resize(states + 1); m.fin.assign(states + 1, INFINITY);
  int fin = states;                        // after </s>
  m.fin[fin] = (float)(unit * r->Int(0, 100) * (r->P(0.5) ? 1 : 0));
  std::function<float(int, int)> q = [&](int a, int b) { return (float)(unit * std::floor(r->Uni(a, b) / unit)); };
  bool ends = !r->P(0.15);                 // else: no sentence may end in some states
  for (int s = 0; s < states; ++s) {
    std::set<int> labs;
    if (s == 0) { for (int w = 1; w <= V + 2; ++w) labs.insert(w); if (!ends && r->P(0.5)) labs.erase(m.eos); }
    else if (!ends && r->P(0.4)) { for (int w = 1; w <= V; ++w) labs.insert(w); if (r->P(0.4)) labs.insert(m.eos); }
    else {
      labs.insert(0); double d = r->P(0.25) ? 0 : r->Uni(0, 0.6);
      for (int w = 1; w <= V + 2; ++w) if (w != m.bos && r->P(d)) labs.insert(w);
    }
    for (int w : labs) {
      LArc a; a.il = w; a.ol = w; a.w = w == 0 ? q(0, 3) : q(0, 8);
      if (w == 0) a.next = r->P(0.5) ? 0 : r->Int(0, s - 1);
      else if (w == m.eos) a.next = fin;
      else a.next = r->Int(0, states - 1);
      if (w == m.bos) a.w = 0;
      m.arcs[s].push_back(a);
    }
  }
  m.start = 0; m.small.resize(V + 3);
  for (auto &x : m.small) x = q(0, 8);
  return m;
}

// ------------------------------------------------------------ exact search
// Keeps every cell of every frame with all of its cheapest predecessors, so
// that any word sequence can be tested for being one of the best.
struct Search {
  struct Pred { int cell, ol; bool emit; double pre; };
  struct Cell { int h, l; double cost; std::vector<Pred> preds; bool surv; };
  const Graph &g; const Lm *lm; double tol, delta, beam;
  std::vector<Cell> cells; std::vector<std::pair<int, int> > span;   // per frame
  std::vector<double> E; double spread; long eps_used; bool cap_ok;
  double cap_gap; int cap_rank;        // if > 0: also require the C08 condition
  Search(const Graph &gr, const Lm *m, double t, double d)
      : g(gr), lm(m), tol(t), delta(d), beam(16), spread(0), eps_used(0), cap_ok(true), cap_gap(-1), cap_rank(0) {
    std::unordered_map<uint64_t, int> at; Cell c; c.h = g.start; c.l = lm ? lm->Start() : 0; c.cost = 0; c.surv = true;
    cells.push_back(c); at[Key(c.h, c.l)] = 0; Close(0, &at, INFINITY); 
    span.push_back(std::make_pair(0, (int)cells.size()));
  }
  static uint64_t Key(int h, int l) { return (uint64_t)(uint32_t)h << 32 | (uint32_t)l; }
  bool Lw(int l, int ol, int *nl, double *w) const {
    *nl = l; *w = 0; if (!lm || ol == 0) return true;
    if (!lm->Delta(l, ol, nl, w)) { *nl = l; *w = 0; } return true;
  }
  int Get(std::unordered_map<uint64_t, int> *at, int h, int l) {
    auto it = at->find(Key(h, l)); if (it != at->end()) return it->second;
    Cell c; c.h = h; c.l = l; c.cost = INFINITY; c.surv = false; int k = (int)cells.size();
    cells.push_back(c); (*at)[Key(h, l)] = k; return k;
  }
  // epsilon closure of cells [base, end); cutoff only for survival
  void Close(int base, std::unordered_map<uint64_t, int> *at, double e) {
    std::deque<int> q; for (int i = base; i < (int)cells.size(); ++i) q.push_back(i);
    while (!q.empty()) {
      int u = q.front(); q.pop_front();
      for (auto &a : g.arcs[cells[u].h]) if (a.il == 0) {
        int nl; double w; Lw(cells[u].l, a.ol, &nl, &w);
        int v = Get(at, a.to, nl); double c = cells[u].cost + a.w + w;
        if (c < cells[v].cost - 1e-12) { cells[v].cost = c; q.push_back(v); }
      }
    }
    // drop arrivals that are no longer the cheapest, add tight epsilon arcs
    for (int i = base; i < (int)cells.size(); ++i) {
      std::vector<Pred> k; for (auto &p : cells[i].preds) if (p.pre <= cells[i].cost + tol) k.push_back(p);
      cells[i].preds.swap(k);
    }
    for (int u = base; u < (int)cells.size(); ++u)
      for (auto &a : g.arcs[cells[u].h]) if (a.il == 0) {
        int nl; double w; Lw(cells[u].l, a.ol, &nl, &w);
        int v = Get(at, a.to, nl); double c = cells[u].cost + a.w + w;
        if (c <= cells[v].cost + tol) { Pred p = {u, a.ol, false, c}; cells[v].preds.push_back(p); ++eps_used; }
      }
    // survival through epsilon arcs: fixpoint
    bool ch = true;
    double lim = e + beam - delta; if (cap_gap >= 0) lim = e + cap_gap;
    while (ch) {
      ch = false;
      for (int v = base; v < (int)cells.size(); ++v) if (!cells[v].surv)
        for (auto &p : cells[v].preds) if (!p.emit && cells[p.cell].surv && cells[v].cost <= lim) { cells[v].surv = true; ch = true; break; }
    }
    double best = INFINITY; for (int i = base; i < (int)cells.size(); ++i) best = std::min(best, cells[i].cost);
    double gap = cap_gap >= 0 ? cap_gap : beam - delta;
    double worst = best;
    for (int i = base; i < (int)cells.size(); ++i) { if (cells[i].cost > best + gap) cells[i].surv = false; worst = std::max(worst, cells[i].cost); }
    spread = std::max(spread, worst - best);
    if (cap_rank > 0) {
      std::vector<double> cs; for (int i = base; i < (int)cells.size(); ++i) cs.push_back(cells[i].cost);
      if ((int)cs.size() > cap_rank) {
        // among the best cap_rank: fewer than cap_rank strictly better ones
        std::nth_element(cs.begin(), cs.begin() + cap_rank - 1, cs.end()); double lim = cs[cap_rank - 1];
        for (int i = base; i < (int)cells.size(); ++i) if (cells[i].cost > lim) cells[i].surv = false;
      }
    }
  }
  // ac: cost per input label
  void Step(const std::vector<double> &ac) {
    std::pair<int, int> prev = span.back(); int base = (int)cells.size();
    std::unordered_map<uint64_t, int> at; double e = INFINITY;
    struct Arr { int v, u, ol; double pre, full; };
    std::vector<Arr> arr;
    for (int u = prev.first; u < prev.second; ++u) {
      if (cells[u].cost == INFINITY) continue;
      const std::vector<GArc> &as = g.arcs[cells[u].h];
      for (auto &a : as) if (a.il != 0) {
        double pre = cells[u].cost + a.w + ac[a.il]; e = std::min(e, pre);
        int nl; double w; Lw(cells[u].l, a.ol, &nl, &w);
        int v = Get(&at, a.to, nl); Arr x = {v, u, a.ol, pre, pre + w}; arr.push_back(x);
        if (x.full < cells[v].cost) cells[v].cost = x.full;
      }
    }
    double lim = cap_gap >= 0 ? e + cap_gap : e + beam - delta;
    for (auto &x : arr) if (x.full <= cells[x.v].cost + tol) {
      Pred p = {x.u, x.ol, true, x.full}; cells[x.v].preds.push_back(p);
      if (cells[x.u].surv && x.pre <= lim) cells[x.v].surv = true;
      spread = std::max(spread, x.pre - e);
    }
    E.push_back(e);
    // a cell whose arrival is improved through epsilon arcs must survive again
    std::vector<double> before; for (int i = base; i < (int)cells.size(); ++i) before.push_back(cells[i].cost);
    std::vector<char> sv; for (int i = base; i < (int)cells.size(); ++i) sv.push_back(cells[i].surv);
    int n0 = (int)cells.size();
    if (base < n0) CloseFrom(base, &at, e, before);
    span.push_back(std::make_pair(base, (int)cells.size()));
  }
  void CloseFrom(int base, std::unordered_map<uint64_t, int> *at, double e, const std::vector<double> &before) {
    // costs first (so that stale survivals can be withdrawn), then the rest
    std::deque<int> q; for (int i = base; i < (int)cells.size(); ++i) q.push_back(i);
    while (!q.empty()) {
      int u = q.front(); q.pop_front();
      for (auto &a : g.arcs[cells[u].h]) if (a.il == 0) {
        int nl; double w; Lw(cells[u].l, a.ol, &nl, &w);
        int v = Get(at, a.to, nl); double c = cells[u].cost + a.w + w;
        if (c < cells[v].cost - 1e-12) { cells[v].cost = c; q.push_back(v); }
      }
    }
    for (size_t i = 0; i < before.size(); ++i) if (cells[base + i].cost < before[i] - tol) cells[base + i].surv = false;
    Close(base, at, e);
  }
  int frames() const { return (int)span.size() - 1; }
  // best cost at frame t, with or without final costs; the best cells
  double Best(int t, bool final, std::vector<int> *out, bool *surv) const {
    double best = INFINITY; out->clear(); *surv = false;
    for (int i = span[t].first; i < span[t].second; ++i) { double c = Cost(i, final); if (c < best) best = c; }
    if (best == INFINITY) return best;
    for (int i = span[t].first; i < span[t].second; ++i) if (Cost(i, final) <= best + tol) { out->push_back(i); if (cells[i].surv) *surv = true; }
    return best;
  }
  double Cost(int i, bool final) const {
    double c = cells[i].cost; if (final) { c += g.fin[cells[i].h]; if (lm && c != INFINITY) c += lm->DeltaFinal(cells[i].l); } return c;
  }
  // is `words` (newest first) the word sequence of one of the best paths to `ends`?
  bool Accept(const std::vector<int> &ends, const std::vector<int> &words) const {
    std::unordered_set<uint64_t> seen; std::vector<std::pair<int, int> > st;
    for (int e : ends) st.push_back(std::make_pair(e, 0));
    while (!st.empty()) {
      std::pair<int, int> x = st.back(); st.pop_back();
      if (!seen.insert((uint64_t)x.first << 20 | (uint32_t)x.second).second) continue;
      if (x.first == 0 && x.second == (int)words.size()) return true;
      for (auto &p : cells[x.first].preds) {
        if (p.ol == 0) st.push_back(std::make_pair(p.cell, x.second));
        else if (x.second < (int)words.size() && words[x.second] == p.ol) st.push_back(std::make_pair(p.cell, x.second + 1));
      }
    }
    return false;
  }
};
// cheapest cost of a path with exactly these words (oldest first) after all
// frames; INFINITY if there is none
inline double CostOf(const Graph &all, const Lm *lm, const std::vector<int> &w, const std::vector<std::vector<double> > &ac, bool final) {
  Graph g; {     // without the unused state numbers
    std::vector<char> u(all.n(), 0); u[all.start] = 1; for (int i = 0; i < all.n(); ++i) for (auto &a : all.arcs[i]) u[i] = u[a.to] = 1;
    std::vector<int> id(all.n(), -1); int k = 0; for (int i = 0; i < all.n(); ++i) if (u[i]) id[i] = k++;
    g.Resize(k); g.start = id[all.start]; for (int i = 0; i < all.n(); ++i) if (u[i]) { g.fin[id[i]] = all.fin[i]; for (auto &a : all.arcs[i]) g.Add(id[i], id[a.to], a.il, a.ol, a.w); } }
  int P = (int)w.size() + 1, n = g.n(); std::vector<int> lst(P); std::vector<double> lcost(P, 0);
  lst[0] = lm ? lm->Start() : 0;
  for (int i = 1; i < P; ++i) { int nl = lst[i - 1]; double c = 0; if (lm && !lm->Delta(lst[i - 1], w[i - 1], &nl, &c)) { nl = lst[i - 1]; c = 0; } lst[i] = nl; lcost[i] = c; }
  std::vector<double> cur((size_t)P * n, INFINITY), nx; cur[g.start] = 0;
  std::function<void()> close = [&]() {
    bool ch = true;
    while (ch) { ch = false;
      for (int p = 0; p < P; ++p) for (int h = 0; h < n; ++h) { double c = cur[(size_t)p * n + h]; if (c == INFINITY) continue;
        for (auto &a : g.arcs[h]) if (a.il == 0) { int q = p; double k = c + a.w; if (a.ol) { if (p + 1 >= P || w[p] != a.ol) continue; q = p + 1; k += lcost[q]; }
          double &d = cur[(size_t)q * n + a.to]; if (k < d - 1e-9) { d = k; ch = true; } } } } };
  close();
  for (auto &f : ac) {
    nx.assign((size_t)P * n, INFINITY);
    for (int p = 0; p < P; ++p) for (int h = 0; h < n; ++h) { double c = cur[(size_t)p * n + h]; if (c == INFINITY) continue;
      for (auto &a : g.arcs[h]) if (a.il) { int q = p; double k = c + a.w + f[a.il]; if (a.ol) { if (p + 1 >= P || w[p] != a.ol) continue; q = p + 1; k += lcost[q]; }
        double &d = nx[(size_t)q * n + a.to]; if (k < d) d = k; } }
    cur.swap(nx); close();
  }
  double best = INFINITY;
  for (int h = 0; h < n; ++h) { double c = cur[(size_t)(P - 1) * n + h]; if (final) c += g.fin[h]; best = std::min(best, c); }
  if (final && lm && best != INFINITY) best += lm->DeltaFinal(lst[P - 1]);
  return best;
}

// ------------------------------------------------------------ filterbank
struct RefFbank {
  std::vector<double> win; std::vector<std::vector<std::pair<int, double> > > bank; std::vector<double> cs, sn;
  static double Mel(double f) { return 1127.0 * log(1.0 + f / 700.0); }
  RefFbank() : win(400), bank(40), cs(512), sn(512) {
    for (int i = 0; i < 400; ++i) win[i] = 0.54 - 0.46 * cos(2 * M_PI * i / 399);
    double lo = Mel(20), hi = Mel(8000), d = (hi - lo) / 41;
    for (int b = 0; b < 40; ++b) for (int k = 0; k < 256; ++k) {
      double m = Mel(k * 16000.0 / 512), l = lo + b * d, c = l + d, r = c + d;
      if (m > l && m < r) bank[b].push_back(std::make_pair(k, m <= c ? (m - l) / (c - l) : (r - m) / (r - c)));
    }
    for (int i = 0; i < 512; ++i) { cs[i] = cos(2 * M_PI * i / 512); sn[i] = sin(2 * M_PI * i / 512); }
  }
  // log energies and, if asked, an allowed error interval of the energies
  void Frame(const float *x, double *out, double *lo, double *hi) const {
    double mean = 0, mx = 0; for (int i = 0; i < 400; ++i) { mean += x[i]; mx = std::max(mx, (double)fabs(x[i])); } mean /= 400;
    std::vector<std::complex<double> > a(512); double nrm = 0; std::vector<double> y(400);
    for (int i = 0; i < 400; ++i) y[i] = x[i] - mean;
    for (int i = 399; i > 0; --i) y[i] -= 0.97 * y[i - 1];
    y[0] -= 0.97 * y[0];
    for (int i = 0; i < 400; ++i) { y[i] *= win[i]; nrm += y[i] * y[i]; a[i] = y[i]; }
    nrm = sqrt(nrm); Fft(&a);
    double eta = 4e-6 * nrm + 4e-5 * mx;
    for (int b = 0; b < 40; ++b) {
      double e = 0, err = 0; for (auto &p : bank[b]) { double m = std::abs(a[p.first]); e += p.second * m * m; err += (p.second + 2e-5) * (2 * m * eta + eta * eta) + 2e-5 * m * m; }
      out[b] = log(std::max(e, (double)FLT_EPSILON));
      if (lo) { lo[b] = log(std::max(e - err, (double)FLT_EPSILON)) - 1e-5; hi[b] = log(std::max(e + err, (double)FLT_EPSILON)) + 1e-5; }
    }
  }
  void Fft(std::vector<std::complex<double> > *v) const {
    std::vector<std::complex<double> > &a = *v; int n = 512;
    for (int i = 1, j = 0; i < n; ++i) { int bit = n >> 1; for (; j & bit; bit >>= 1) j ^= bit; j ^= bit; if (i < j) std::swap(a[i], a[j]); }
    for (int len = 2; len <= n; len <<= 1) for (int i = 0; i < n; i += len) for (int k = 0; k < len / 2; ++k) {
      int t = k * (n / len); std::complex<double> w(cs[t], -sn[t]), u = a[i + k], x = a[i + k + len / 2] * w; a[i + k] = u + x; a[i + k + len / 2] = u - x; }
  }
  static int Frames(long n) { return n < 400 ? 0 : 1 + (int)((n - 400) / 160); }
};

// ------------------------------------------------------------ network
struct Net {
  struct L { int type; Mat W; std::vector<float> b, b2; std::vector<int> idx; int l, r; };
  std::vector<L> layers; int left, right, in, out;
  std::string Bytes() const {
    std::string s = "NN02"; P32(&s, left); P32(&s, right); P32(&s, (int)layers.size());
    for (auto &y : layers) {
      s += "LAY0"; P32(&s, y.type);
      if (y.type == 0) { s += MatBytes(y.W, (int)y.b.size()); s += VecBytes(y.b); }
      else if (y.type == 6) { P32(&s, (int)y.idx.size()); for (int i : y.idx) P32(&s, i); }
      else if (y.type == 7) { s += VecBytes(y.b); s += VecBytes(y.b2); }
      else if (y.type == 9) { P32(&s, y.l); P32(&s, y.r); }
    }
    return s;
  }
  typedef std::vector<std::vector<double> > D;
  D Run(const D &x0) const {
    D x = x0;
    for (auto &y : layers) {
      D o; int T = (int)x.size();
      if (y.type == 6) { for (int t = 0; t < T; ++t) { std::vector<double> v; for (int i : y.idx) { int k = std::min(std::max(t + i, 0), T - 1); v.insert(v.end(), x[k].begin(), x[k].end()); } o.push_back(v); } }
      else if (y.type == 9) { for (int t = y.l; t < T - y.r; ++t) o.push_back(x[t]); }
      else for (int t = 0; t < T; ++t) {
        std::vector<double> v = x[t]; int n = (int)v.size();
        if (y.type == 0) { std::vector<double> z(y.b.begin(), y.b.end()); for (int i = 0; i < n; ++i) for (size_t j = 0; j < z.size(); ++j) z[j] += v[i] * y.W[i][j]; v = z; }
        else if (y.type == 1) { for (auto &q : v) q = std::max(q, 0.0); }
        else if (y.type == 2) { double s = 0; for (auto q : v) s += q * q; s = sqrt(s / n); if (s > 0) for (auto &q : v) q /= s; }
        else if (y.type == 7) { for (int i = 0; i < n; ++i) v[i] = v[i] * y.b[i] + y.b2[i]; }
        else { double m = v[0]; for (auto q : v) m = std::max(m, q); double s = 0; for (auto q : v) s += exp(q - m); double ls = m + log(s); for (auto &q : v) q = y.type == 8 ? q - ls : exp(q - ls); }
        o.push_back(v);
      }
      x.swap(o);
    }
    return x;
  }
};
inline Net::L NetLinear(Rng *r, int in, int out, double gain) {
  Net::L y; y.type = 0; y.W.assign(in, std::vector<float>(out)); y.b.resize(out);
  for (auto &row : y.W) for (auto &v : row) v = (float)(r->Gauss() * gain / sqrt((double)in));
  for (auto &v : y.b) v = (float)(r->Gauss() * 0.5);
  return y;
}

struct Quant { double unit; double operator()(double x) const { return unit > 0 ? unit * std::floor(x / unit + 0.5) : (double)(float)x; } };

// A random decoding problem.
struct Problem {
  Graph g; std::shared_ptr<Lm> lm; bool lmq = false, big = false; int tids, pdfs, V; std::vector<int> t2p; float scale; Quant q;
  std::vector<std::vector<float> > logp;
  std::vector<double> Ac(int t) const { std::vector<double> a(tids + 1, 0); for (int i = 1; i <= tids; ++i) a[i] = -(double)scale * logp[t][t2p[i]]; return a; }
};
inline int Word(Rng *r, int V, double p) { return r->P(p) ? r->Int(1, V) : 0; }

inline void RandomPart(Problem *p, Rng *r, int lo, int hi, double wmax, bool neg) {
  double pw = r->Uni(0, 0.7), pe = r->P(0.3) ? 0 : r->Uni(0, 0.5); int deg = r->Int(1, 4);
  bool cyc = !p->lmq && r->P(0.25);
  for (int i = lo; i < hi; ++i) {
    int k = r->Int(r->P(0.1) ? 0 : 1, deg);
    for (int j = 0; j < k; ++j) p->g.Add(i, r->P(0.25) ? i : r->Int(lo, hi - 1), r->Int(1, p->tids), Word(r, p->V, pw), p->q(r->Uni(neg && r->P(0.1) ? -2 : 0, wmax)));
    if (r->P(pe)) for (int j = r->Int(1, 2); j > 0; --j) {
      int to = cyc ? r->Int(lo, hi - 1) : i + 1 < hi ? r->Int(i + 1, hi - 1) : -1; if (to < 0) break;
      double w = r->Uni(0, wmax); if (!cyc && neg && r->P(0.2)) w = -w / 3;
      p->g.Add(i, to, 0, Word(r, p->V, pw), p->q(w));
    }
  }
}
// Competing branches: the cheapest one lags behind for a while.
inline void GardenPath(Problem *p, Rng *r, int from, int join) {
  int k = r->Int(2, 4), len = r->Int(2, 10); double lag = r->P(0.5) ? r->Uni(8, 15.8) : r->Uni(0.5, 20);
  for (int b = 0; b < k; ++b) {
    int prev = from; bool good = b == 0; int il = r->Int(1, p->tids);
    bool preeps = r->P(0.3);
    for (int i = 0; i < len; ++i) {
      int s = p->g.n(); p->g.arcs.push_back(std::vector<GArc>()); p->g.fin.push_back(INFINITY);
      double w = i == 0 ? (good ? lag : r->Uni(0, 1)) : r->Uni(0, 0.2);
      if (i == 0 && preeps) { p->g.Add(prev, s, 0, Word(r, p->V, 0.7), p->q(w)); }
      else p->g.Add(prev, s, il, Word(r, p->V, i == 0 ? 0.8 : 0.2), p->q(w));
      if (r->P(0.2)) p->g.Add(s, s, il, 0, p->q(r->Uni(0, 0.5)));
      prev = s;
    }
    double w = good ? r->Uni(0, 0.5) : r->Uni(0, 1) + (r->P(0.8) ? lag + r->Uni(0, 4) : 0);
    if (!good && r->P(0.15)) continue;              // dead end
    p->g.Add(prev, join, r->P(0.7) ? il : 0, Word(r, p->V, 0.5), p->q(w));
  }
}
inline void MakeLm(Problem *p, Rng *r) { p->lm.reset(new Lm(RandLm(r, p->V, p->q.unit > 0 ? p->q.unit : 1.0 / 1024, r->LogInt(1, 25)))); }
// The same problem with large numbers: graph states, units, score columns,
// words and language-model states are renumbered into big sparse ranges.
inline std::vector<int> BigIds(Rng *r, int n, int top, bool keep0) {
  std::set<int> s; if (keep0) s.insert(0);
  // ids that agree in their low bits
  int bits = 0; while (bits < 24 && (1 << bits) <= top / 2) ++bits;
  if (bits > 9 && r->P(0.5)) {
    int m = 1 << r->Int(8, bits - 1);
    int per = (top - 1) / m, res = n / per + 2, base = r->Int(0, std::max(0, std::min(m - res - 1, 3 * n))); if (base + res < m && (long)per * res > n) while ((int)s.size() < n) s.insert(base + r->Int(0, res - 1) + m * r->Int(0, per - 1));
  }
  while ((int)s.size() < n) { double k = r->Uni(); s.insert(k < 0.4 ? r->Int(0, top - 1) : k < 0.7 ? top - 1 - r->Int(0, std::min(top - 1, 3 * n)) : r->Int(0, std::min(top - 1, 3 * n))); }
  return std::vector<int>(s.begin(), s.end());
}
inline void Spread(Problem *p, Rng *r, int maxword, bool bigstates = true) {
  int n = p->g.n();
  if (bigstates && r->P(0.6)) {
    std::vector<int> m = BigIds(r, n, std::max(n, r->P(0.3) ? r->Int(66000, 140000) : r->LogInt(n, 3000)), false); Graph h; h.Resize(m.back() + 1); h.start = m[p->g.start];
    for (int i = 0; i < n; ++i) { h.fin[m[i]] = p->g.fin[i]; for (auto &a : p->g.arcs[i]) h.Add(m[i], m[a.to], a.il, a.ol, a.w); }
    p->g = h;
  }
  if (r->P(0.6)) {
    std::vector<int> t = BigIds(r, p->tids + 1, std::max(p->tids + 1, r->LogInt(200, 70000)), true); std::vector<int> map(t.back() + 1, 0);
    for (int i = 1; i <= p->tids; ++i) map[t[i]] = p->t2p[i];
    for (auto &v : p->g.arcs) for (auto &a : v) if (a.il) a.il = t[a.il];
    p->t2p = map; p->tids = t.back();
  }
  if (r->P(0.6)) { std::vector<int> f = BigIds(r, p->pdfs, std::max(p->pdfs, r->LogInt(100, 5000)), false); for (auto &x : p->t2p) x = f[x]; p->pdfs = f.back() + 1; }
  if (r->P(0.6) && maxword > p->V + 3) {
    std::vector<int> w = BigIds(r, p->V + 1, maxword, true); int V = w.back();
    for (auto &v : p->g.arcs) for (auto &a : v) if (a.ol) a.ol = w[a.ol];
    if (p->lm) {
      Lm *m = p->lm.get(); w.push_back(V + 1); w.push_back(V + 2); std::vector<float> small(V + 3, 0.5f); for (size_t i = 0; i < w.size(); ++i) small[w[i]] = m->small[i];
      for (auto &v : m->arcs) for (auto &a : v) { a.il = w[a.il]; a.ol = w[a.ol]; }
      m->small = small; m->bos = V + 1; m->eos = V + 2;
    }
    p->V = V;
  }
  if (p->lm && r->P(0.75)) {
    Lm *m = p->lm.get(); int k = (int)m->arcs.size(); std::vector<int> id = BigIds(r, k, std::max(k, r->P(0.5) ? r->Int(66000, 200000) : r->LogInt(k, 3000)), true);
    std::vector<std::vector<LArc> > as(id.back() + 1); std::vector<float> fin(id.back() + 1, INFINITY);
    for (int i = 0; i < k; ++i) { fin[id[i]] = m->fin[i]; as[id[i]] = m->arcs[i]; for (auto &a : as[id[i]]) a.next = id[a.next]; }
    m->arcs.swap(as); m->fin.swap(fin); m->start = id[m->start];
  }
}


}  // namespace vf
#endif
