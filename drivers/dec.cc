// Decoder monitors: exact-search oracle (C05, C06), word histories over long
// streams (C07), hypothesis cap (C08).
#include "model.h"
#include <malloc.h>
#include "decoder.h"
#include "fst.h"
#include "symbol_table.h"
using namespace vf;
using pocketkaldi::Decoder;
using pocketkaldi::DeltaLmFst;
using pocketkaldi::LmFst;
using pocketkaldi::SymbolTable;
using pocketkaldi::Vector;
typedef fst::VectorFst<fst::StdArc> VFst;

static std::unique_ptr<fst::Fst<fst::StdArc> > ToFst(const Graph &g, bool constant) {
  std::unique_ptr<VFst> f(new VFst());
  for (int i = 0; i < g.n(); ++i) f->AddState();
  f->SetStart(g.start);
  for (int i = 0; i < g.n(); ++i) {
    if (g.fin[i] != INFINITY) f->SetFinal(i, fst::TropicalWeight((float)g.fin[i]));
    for (auto &a : g.arcs[i]) f->AddArc(i, fst::StdArc(a.il, a.ol, fst::TropicalWeight((float)a.w), a.to));
  }
  if (constant) return std::unique_ptr<fst::Fst<fst::StdArc> >(new fst::ConstFst<fst::StdArc>(*f));
  return std::unique_ptr<fst::Fst<fst::StdArc> >(f.release());
}

static void MakeProblem(Problem *p, Rng *r, bool lm, bool dyadic, int maxT) {
  p->lmq = lm; p->q.unit = dyadic ? 1.0 / 512 : 0; p->tids = r->Int(1, 9); p->pdfs = r->Int(1, p->tids + 2); p->V = r->Int(1, 14);
  p->t2p.assign(p->tids + 1, 0); for (int i = 1; i <= p->tids; ++i) p->t2p[i] = r->Int(0, p->pdfs - 1);
  static const float sc[] = {1.0f, 0.5f, 0.25f, 0.125f}; p->scale = dyadic ? sc[r->Int(0, 3)] : r->P(0.7) ? 0.1f : (float)r->Uni(0.02, 1.5);
  int n = r->LogInt(1, 30); p->g.Resize(n); double wmax = r->P(0.5) ? 2 : r->Uni(0.1, 12);
  p->g.start = r->P(0.7) ? 0 : r->Int(0, n - 1);
  RandomPart(p, r, 0, n, wmax, r->P(0.5));
  if (r->P(0.6)) for (int k = r->Int(1, 3); k > 0; --k) GardenPath(p, r, r->P(0.6) ? p->g.start : r->Int(0, n - 1), r->Int(0, n - 1));
  double pf = r->P(0.1) ? 0 : r->P(0.2) ? 0.05 : r->Uni(0.1, 1);
  for (int i = 0; i < p->g.n(); ++i) if (r->P(pf)) p->g.fin[i] = r->P(0.3) ? 0 : p->q(r->Uni(-1, 10));
  // random state numbering: arcs and finals move along
  if (r->P(0.5)) {
    std::vector<int> m(p->g.n()); for (size_t i = 0; i < m.size(); ++i) m[i] = (int)i; r->Shuffle(&m);
    Graph h; h.Resize(p->g.n()); h.start = m[p->g.start];
    for (int i = 0; i < p->g.n(); ++i) { h.fin[m[i]] = p->g.fin[i]; for (auto &a : p->g.arcs[i]) h.Add(m[i], m[a.to], a.il, a.ol, a.w); }
    p->g = h;
  }
  for (auto &v : p->g.arcs) if (r->P(0.3)) r->Shuffle(&v);
  if (lm) MakeLm(p, r);
  p->big = r->P(0.12); if (p->big) Spread(p, r, lm ? r->LogInt(100, 30000) : 1 << 30);
  int T = r->P(0.05) ? 0 : r->LogInt(1, maxT); double sd = r->P(0.5) ? r->Uni(0.05, 2) : r->Uni(1, 12), mean = r->P(0.5) ? 0 : r->Uni(-6, 2);
  bool peaky = r->P(0.3); p->logp.clear(); int hot = 0;
  for (int t = 0; t < T; ++t) {
    if (r->P(0.3)) hot = r->Int(0, p->pdfs - 1);
    std::vector<float> v(p->pdfs);
    for (int i = 0; i < p->pdfs; ++i) { double x = mean + r->Gauss() * sd * (peaky ? 0.2 : 1) - (peaky && i != hot ? r->Uni(0, 10) : 0); v[i] = (float)(p->q(x) / (dyadic ? p->scale : 0.1)); }
    p->logp.push_back(v);
  }
}
struct LmObj { std::unique_ptr<LmFst> lm; std::unique_ptr<SymbolTable> sym; Vector<float> small; std::unique_ptr<DeltaLmFst> delta; };
static bool BuildLm(Ctx *c, const Lm &m, int V, LmObj *o, bool bucket) {
  WriteFile(c->Path("lm.bin"), m.Bytes()); WriteFile(c->Path("small.bin"), VecBytes(m.small));
  std::string w; for (int i = 0; i < V + 3; ++i) w += (i == m.bos ? "<s>" : i == m.eos ? "</s>" : "w" + std::to_string(i)) + " " + std::to_string(i) + "\n";
  WriteFile(c->Path("words"), w);
  o->lm.reset(new LmFst()); o->sym.reset(new SymbolTable());
  pocketkaldi::util::ReadableFile f, f2; pocketkaldi::Status st = f.Open(c->Path("lm.bin")); if (st.ok()) st = o->lm->Read(&f);
  if (st.ok()) st = f2.Open(c->Path("small.bin")); if (st.ok()) st = o->small.Read(&f2); if (st.ok()) st = o->sym->Read(c->Path("words"));
  if (!st.ok()) { c->Violation("model", "valid language model refused: %s", st.what().c_str()); return false; }
  if (bucket) o->lm->InitBucket0();
  o->delta.reset(new DeltaLmFst(&o->small, o->lm.get(), o->sym.get())); return true;
}
static std::string Words(const std::vector<int> &w) { std::string s; size_t n = w.size(); for (size_t i = 0; i < n && i < 40; ++i) s += std::to_string(w[n - 1 - i]) + " "; if (n > 40) s += "..."; return s; }

struct Verdict { long decided, undecided, dead; };
// one hypothesis against the exact search; returns false after a violation
static bool CheckHyp(Ctx *c, const Problem &p, const Search &s, int t, bool final, Decoder *d, bool dyadic, Verdict *v, bool alive, const char *what) {
  Decoder::Hypothesis h = d->BestPath();
  std::vector<int> ends; bool surv; double best = s.Best(t, final, &ends, &surv);
  double tol = dyadic ? 0 : 1e-3 + 2e-6 * t * (fabs(best) < 1e9 ? fabs(best) : 1);
  if (!alive && (!h.words().empty() || h.weight() != 0)) { c->Violation("dead-hyp", "%s: hypothesis %swith weight %.9g after the search died", what, Words(h.words()).c_str(), h.weight()); return false; }
  if (best == INFINITY) {
    if (!h.words().empty() || h.weight() != 0) { c->Violation("no-path", "%s, frame %d%s: no path exists, but the hypothesis is '%s' weight %.9g", what, t, final ? " (final)" : "", Words(h.words()).c_str(), h.weight()); return false; }
    ++v->decided; c->Count("empty_hypotheses"); return true;
  }
  if (surv) {
    ++v->decided;
    if (!Near(h.weight(), best, dyadic ? 0 : 1e-5, tol)) {
      c->Violation("weight", "%s, frame %d of %zu%s: weight %.9g, cheapest path in the beam costs %.9g (words '%s')", what, t, p.logp.size(), final ? " (final)" : "", h.weight(), best, Words(h.words()).c_str()); return false; }
    bool ok;
    if (dyadic) ok = s.Accept(ends, h.words());
    else {
      std::vector<int> w(h.words().rbegin(), h.words().rend()); std::vector<std::vector<double> > ac; for (int i = 0; i < t; ++i) ac.push_back(p.Ac(i));
      ok = CostOf(p.g, p.lm.get(), w, ac, final) <= best + 2 * tol;
    }
    if (!ok) { c->Violation("words", "%s, frame %d of %zu%s: words '%s' are not those of a cheapest path (cost %.9g)", what, t, p.logp.size(), final ? " (final)" : "", Words(h.words()).c_str(), best); return false; }
    c->Count("words_checked", (long long)h.words().size());
    return true;
  }
  ++v->undecided;
  // the best path left the beam: whatever is returned must still be a path
  if (h.words().empty() && h.weight() == 0) return true;
  if (p.logp.size() <= 120 && p.g.n() <= 150 && h.words().size() < 80) {
    std::vector<int> w(h.words().rbegin(), h.words().rend()); std::vector<std::vector<double> > ac; for (int i = 0; i < t; ++i) ac.push_back(p.Ac(i));
    double k = CostOf(p.g, p.lm.get(), w, ac, final);
    if (!(k <= h.weight() + tol + 1e-9 * fabs(k))) { c->Violation("unsound", "%s, frame %d%s: weight %.9g for words '%s', whose cheapest path costs %.9g", what, t, final ? " (final)" : "", h.weight(), Words(h.words()).c_str(), k); return false; }
    c->Count("sound_only");
  }
  return true;
}
static bool Decode(Ctx *c, Rng *r, const Problem &p, const Search &s, const fst::Fst<fst::StdArc> &f, const DeltaLmFst *delta, double pcheck, bool dyadic, Verdict *v, const char *what) {
  Vector<int32_t> map(p.tids + 1); for (int i = 0; i <= p.tids; ++i) map(i) = p.t2p[i];
  Decoder d(&f, map, p.scale, delta); d.Initialize();
  if (d.NumFramesDecoded() != 0) { c->Violation("frames", "%s: %d frames decoded before the first", what, d.NumFramesDecoded()); return false; }
  if (r->P(0.3) && !CheckHyp(c, p, s, 0, false, &d, dyadic, v, true, what)) return false;
  bool dead = false; int T = (int)p.logp.size(), count = 0;
  for (int t = 0; t < T; ++t) {
    Vector<float> row(p.pdfs); for (int i = 0; i < p.pdfs; ++i) row(i) = p.logp[t][i];
    bool ok = d.Process(row);
    std::vector<int> ends; bool surv; double best = s.Best(t + 1, false, &ends, &surv);
    if (ok && (dead || best == INFINITY)) { c->Violation("alive", "%s: frame %d is accepted although no hypothesis is left", what, t); return false; }
    if (!ok && surv) { c->Violation("died", "%s: search died at frame %d although the cheapest path (%.9g) stays in the beam", what, t, best); return false; }
    if (ok) ++count; else if (!dead) { dead = true; ++v->dead; }
    if (d.NumFramesDecoded() != count) { c->Violation("frames", "%s: %d frames decoded after %d accepted ones", what, d.NumFramesDecoded(), count); return false; }
    if (r->P(pcheck) || (t % 20 <= 1 && r->P(4 * pcheck)))
      if (!CheckHyp(c, p, s, t + 1, false, &d, dyadic, v, !dead, what)) return false;
  }
  d.EndOfStream();
  for (int k = 0; k < 2; ++k) if (!CheckHyp(c, p, s, T, true, &d, dyadic, v, !dead, what)) return false;
  c->Count("frames", T); return true;
}
static void Run(Ctx *c, Problem *p, Rng *r, bool dyadic, double pcheck, double delta) {
  Search s(p->g, p->lm.get(), 0, delta);
  for (size_t t = 0; t < p->logp.size(); ++t) s.Step(p->Ac((int)t));
  LmObj o; if (p->lm && !BuildLm(c, *p->lm, p->V, &o, r->P(0.5))) return;
  std::unique_ptr<fst::Fst<fst::StdArc> > f = ToFst(p->g, r->P(0.5));
  if (getenv("VERIF_DUMP")) {
    for (int i = 0; i < p->g.n(); ++i) { fprintf(stderr, "state %d final %g\n", i, p->g.fin[i]); for (auto &a : p->g.arcs[i]) fprintf(stderr, "   %d:%d / %.9g -> %d\n", a.il, a.ol, a.w, a.to); }
    for (int t = 0; t <= s.frames(); ++t) { fprintf(stderr, "frame %d E %g:", t, t ? s.E[t - 1] : 0); for (int i = s.span[t].first; i < s.span[t].second; ++i) fprintf(stderr, " (%d,%d) %.7g%s", s.cells[i].h, s.cells[i].l, s.cells[i].cost, s.cells[i].surv ? "" : "x"); fprintf(stderr, "\n"); }
  }
  Verdict v = {0, 0, 0};
  std::string what = Str("%d states, %d units, %zu frames%s", p->g.n(), p->tids, p->logp.size(), p->lm ? Str(", LM of %zu states", p->lm->arcs.size()).c_str() : "");
  if (!Decode(c, r, *p, s, *f, o.delta.get(), pcheck, dyadic, &v, what.c_str())) return;
  std::vector<int> ends; bool surv; double best = s.Best((int)p->logp.size(), true, &ends, &surv);
  c->Count("hypotheses_decided", v.decided); c->Count("hypotheses_undecided", v.undecided); c->Count("searches_died", v.dead); c->Count(surv ? "finals_decided" : best == INFINITY ? "finals_without_path" : "finals_undecided");
  if (s.spread > 16) c->Count("cases_with_pruning"); c->Count("epsilon_steps", s.eps_used > 0); c->Count("cases_with_large_numbers", p->big);
  c->nontrivial = p->logp.size() > 0 && v.decided > 0; c->Sig(p->g.n()); c->Sig(p->logp.size()); c->SigD(best); c->Sig(v.decided);
  c->Sample("%s: best final cost %.6g, spread %.1f: %ld hypotheses match exact search, %ld out of beam", what.c_str(), best, s.spread, v.decided, v.undecided);
}
static void SearchCase(Ctx *c) { Rng r = c->R(5); Problem p; bool dy = !r.P(0.25); MakeProblem(&p, &r, false, dy, c->cur % 40 == 0 ? 400 : dy ? 90 : 45); Run(c, &p, &r, dy, 0.25, 0.02); }
static void LmCase(Ctx *c) { Rng r = c->R(6); Problem p; bool dy = !r.P(0.2); MakeProblem(&p, &r, true, dy, c->cur % 40 == 0 ? 250 : dy ? 60 : 30); Run(c, &p, &r, dy, 0.25, 0.02); }

// ------------------------------------------------------------------ C07
// Long streams over graphs whose hypotheses fork, merge and die all the time.
static void HistCase(Ctx *c) {
  Rng r = c->R(7); Problem p; p.q.unit = 1.0 / 256; p.tids = r.Int(2, 8); p.pdfs = p.tids; p.V = r.P(0.5) ? r.Int(1, 4) : r.Int(5, 60);
  p.t2p.assign(p.tids + 1, 0); for (int i = 1; i <= p.tids; ++i) p.t2p[i] = i - 1; p.scale = r.P(0.5) ? 0.5f : 0.125f;
  int n = r.LogInt(2, 30); p.g.Resize(n); double pw = r.P(0.5) ? r.Uni(0.02, 0.2) : r.Uni(0.2, 0.9), pe = r.P(0.5) ? 0 : r.Uni(0, 0.4), wmax = r.Uni(0.2, 3);
  for (int i = 0; i < n; ++i) {
    p.g.Add(i, (i + 1) % n, r.Int(1, p.tids), Word(&r, p.V, pw), p.q(r.Uni(0, wmax)));
    if (r.P(0.7)) p.g.Add(i, i, r.Int(1, p.tids), Word(&r, p.V, pw / 4), p.q(r.Uni(0, wmax)));
    for (int k = r.Int(0, 3); k > 0; --k) p.g.Add(i, r.Int(0, n - 1), r.Int(1, p.tids), Word(&r, p.V, pw), p.q(r.Uni(0, wmax)));
    if (i + 1 < n && r.P(pe)) p.g.Add(i, r.Int(i + 1, n - 1), 0, Word(&r, p.V, pw), p.q(r.Uni(0, wmax)));
    if (r.P(0.4)) p.g.fin[i] = p.q(r.Uni(0, 3));
  }
  bool lm = r.P(0.25); if (lm) { n = std::min(n, 10); p.V = std::min(p.V, 20); for (auto &v : p.g.arcs) for (auto &a : v) if (a.ol > p.V) a.ol = a.ol % p.V + 1; p.lm.reset(new Lm(RandLm(&r, p.V, p.q.unit, r.Int(1, 6)))); }
  if (r.P(0.2)) { Spread(&p, &r, lm ? r.LogInt(100, 5000) : 1 << 30); c->Count("streams_with_large_numbers"); }
  int T = r.LogInt(300, c->thorough ? (lm ? 2500 : 8000) : (lm ? 1000 : 2500)); double sd = r.Uni(0.1, 4);
  for (int t = 0; t < T; ++t) { std::vector<float> v(p.pdfs); for (auto &x : v) x = (float)(p.q(r.Gauss() * sd) / p.scale); p.logp.push_back(v); }
  Run(c, &p, &r, true, 0.02, 0.02);
  c->Count("collections", T / 20); c->Max("stream_frames", T);
}

// a ring of one path on which some units come back only after long, chosen gaps
static void RingCase(Ctx *c) {
  Rng r = c->R(71); int tids = r.Int(2, 7), pdfs = r.Int(1, tids), kmax = c->cur % 50 == 7 ? 16 : c->cur % 5 == 3 ? 12 : 10; Vector<int32_t> map(tids + 1); for (int i = 0; i <= tids; ++i) map(i) = r.Int(0, pdfs - 1);
  std::vector<int> unit; int secs = r.Int(1, 4); for (int q = 0; q < secs; ++q) { int len = q == 0 || r.P(0.7) ? (1 << r.Int(q ? 1 : kmax > 10 ? kmax - 2 : 4, kmax)) + r.Int(-2, 1) : r.LogInt(1, 300); if (q && kmax > 12 && len > 5000) len = 300; len = std::max(len, 1); unit.push_back(r.Int(2, tids)); for (int i = 1; i < len; ++i) unit.push_back(r.P(0.001) ? r.Int(1, tids) : 1); }
  int n = (int)unit.size(), V = 50; Graph g; g.Resize(n); std::vector<int> word(n); std::vector<double> w(n); bool rival = r.P(0.5); double pw = r.P(0.5) ? 0 : 0.02;
  for (int i = 0; i < n; ++i) { word[i] = r.P(pw) ? r.Int(1, V) : 0; w[i] = r.P(0.3) ? r.Int(-8, 8) / 4.0 : 0; g.Add(i, (i + 1) % n, unit[i], word[i], w[i]); if (rival && r.P(0.1)) g.Add(i, (i + 1) % n, unit[i], r.Int(1, V), w[i] + r.Int(1, 20) / 4.0); g.fin[i] = 0; }
  int T = std::max(600, std::min(2 * n + r.Int(1, n), c->thorough ? 400000 : 170000)); std::vector<float> sc(1009 * pdfs); for (auto &x : sc) x = r.Int(-40, 40) / 4.0f;
  std::unique_ptr<fst::Fst<fst::StdArc> > f = ToFst(g, r.P(0.5)); Decoder d(f.get(), map, 0.5f); d.Initialize(); Vector<float> row(pdfs); double cost = 0; std::vector<int> want; std::set<int> at; for (int i = 0; i < 4; ++i) at.insert(r.Int(1, T)); at.insert(T); int checks = 0;
  for (int t = 0; t < T; ++t) {
    for (int i = 0; i < pdfs; ++i) row(i) = sc[(t % 1009) * pdfs + i]; d.Process(row); int s = t % n; cost += w[s] - 0.5 * row(map(unit[s])); if (word[s]) want.push_back(word[s]);
    if (t + 1 == T && r.P(0.5)) d.EndOfStream();
    if (!at.count(t + 1)) continue;
    Decoder::Hypothesis h = d.BestPath(); std::vector<int> got = h.words(); std::reverse(got.begin(), got.end()); ++checks;
    if (got != want) { c->Violation("ring-words", "ring of %d frames, after frame %d: %zu words instead of %zu", n, t + 1, got.size(), want.size()); return; }
    if (!(fabs(h.weight() - cost) <= 2e-4 * (fabs(cost) + 20))) { c->Violation("ring-cost", "ring of %d frames with one path, after frame %d: cost %.9g, the sum of its arcs and scores is %.9g", n, t + 1, h.weight(), cost); return; }
  }
  c->Count("ring_streams"); c->Count("ring_checks", checks); c->Max("ring_frames", n); c->nontrivial = true; c->Sig(n); c->SigD(cost); c->Sample("ring of %d frames, %d units, %d frames: cost %.6g as added up, at %d moments", n, tids, T, cost, checks);
}

// epsilon chains of any length between the frames
static void ChainCase(Ctx *c) {
  Rng r = c->R(72); int secs = r.Int(1, 3), tids = r.Int(1, 4); Graph g; std::vector<int> ends, units; std::vector<std::vector<int> > words; std::vector<double> cost; bool lead = r.P(0.3); long eps = 0, longest = 0; int last = 0; g.Resize(1);
  auto more = [&] { g.arcs.emplace_back(); g.fin.push_back(INFINITY); };
  auto step = [&](int il, int ol, double w) { int to = g.n(); more(); g.Add(last, to, il, ol, w); last = to; };
  std::vector<int> want; double sum = 0; std::vector<int> emit;
  for (int q = 0; q < secs + 1; ++q) {
    // the frames, then the chain; its costs fall, so its end is the best there is
    if (q || !lead) for (int k = r.Int(1, 3); k > 0; --k) {
      int u = r.Int(1, tids), ol = Word(&r, 40, 0.3); double w = r.Int(0, 16) / 64.0; step(u, ol, w); emit.push_back(u); if (ol) want.push_back(ol); sum += w; ends.push_back(0); words.push_back(want); cost.push_back(sum); }
    long n = r.P(0.2) ? 0 : r.LogInt(10, c->thorough ? 600000 : 250000) / (secs > 1 && !r.P(0.2) ? 10 : 1); double pw = r.P(0.5) ? 3.0 / (n + 1) : r.Uni(0, 0.2), side = r.P(0.3) ? 0.2 : 0; longest = std::max(longest, n); eps += n;
    for (long i = 0; i < n; ++i) {
      int ol = Word(&r, 40, i + 1 == n ? 0.8 : pw), from = last; double w = -1.0 / 64; step(0, ol, w); if (ol) want.push_back(ol); sum += w;
      // another way to the same state, dearer; or a way that leads nowhere
      if (r.P(side)) { if (r.P(0.5)) g.Add(from, last, 0, r.Int(1, 40), w + r.Int(1, 8) / 64.0); else { int to = g.n(); more(); g.Add(from, to, 0, r.Int(1, 40), r.Int(1, 90) / 64.0); } }
    }
    if (!words.empty()) { words.back() = want; cost.back() = sum; }
  }
  g.start = 0; g.fin[last] = 0.25; if (r.P(0.5)) for (auto &v : g.arcs) if (v.size() > 1) std::reverse(v.begin(), v.end());
  std::unique_ptr<fst::Fst<fst::StdArc> > f = ToFst(g, r.P(0.5)); Vector<int32_t> map(tids + 1); for (int i = 0; i <= tids; ++i) map(i) = 0; Vector<float> row(1); Decoder d(f.get(), map, 0.5f); d.Initialize(); double ac = 0; int T = (int)emit.size();
  for (int t = 0; t <= T; ++t) {
    if (t < T) { row(0) = r.Int(-8, 8) / 32.0f; ac -= 0.5 * row(0); if (!d.Process(row)) { c->Violation("chain-died", "frame %d of a graph with chains of up to %ld epsilon arcs is refused", t, longest); return; } } else d.EndOfStream();
    int i = std::min(t, T - 1); double w = cost[i] + ac + (t == T ? 0.25 : 0); Decoder::Hypothesis h = d.BestPath(); std::vector<int> got = h.words(); std::reverse(got.begin(), got.end());
    if (got != words[i]) { c->Violation("chain-words", "frame %d of %d, %ld epsilon arcs so far in chains of up to %ld: %zu words instead of %zu", t, T, eps, longest, got.size(), words[i].size()); return; }
    if (!(fabs(h.weight() - w) <= 1e-4 + 1e-5 * fabs(w))) { c->Violation("chain-cost", "frame %d of %d, chains of up to %ld epsilon arcs: cost %.9g instead of %.9g", t, T, longest, h.weight(), w); return; }
    c->Count("chain_checks");
  }
  c->Max("epsilon_chain", longest); c->nontrivial = eps > 0; c->Sig(eps); c->Sig(T); c->SigD(sum); c->Sample("%d frames, %ld epsilon arcs in chains of up to %ld: all words, cost as added up", T, eps, longest);
}
// Many branches next to each other that never meet: what each one costs is
// added up independently.  The one that wins in the end lags behind by most of
// the beam among thousands of others.
static void WideCase(Ctx *c) {
  Rng r = c->R(73); int N = r.LogInt(2, 29000), tids = r.Int(1, 5), T = r.P(0.4) ? r.Int(22, 45) : r.Int(1, 12); Graph g; g.Resize(N + 1); g.start = 0;
  std::vector<int> unit(N), again(N); std::vector<double> e(N), s(N), fin(N), cost(N); double spread = r.P(0.5) ? 15 : r.Uni(1, 15), ps = r.P(0.5) ? 0 : r.Uni(0.01, 0.1);
  auto q = [](double x) { return floor(x * 256) / 256; };
  for (int i = 0; i < N; ++i) { unit[i] = r.Int(1, tids); again[i] = r.P(ps) ? N + 1 + r.Int(0, 5) : 0; e[i] = q(r.Uni(0, spread)); s[i] = r.P(0.3) ? q(r.Uni(0, 0.1)) : 0; fin[i] = q(r.Uni(0, 2)); }
  int hero = r.Int(0, N - 1); e[hero] = q(r.Uni(2, 15.9)); s[hero] = 0; fin[hero] = -20 + q(r.Uni(0, 2)); again[hero] = 0;
  for (int i = 0; i < N; ++i) { g.Add(0, i + 1, unit[i], i + 1, e[i]); g.Add(i + 1, i + 1, unit[i], again[i], s[i]); g.fin[i + 1] = fin[i]; }
  std::unique_ptr<fst::Fst<fst::StdArc> > f = ToFst(g, r.P(0.5)); Vector<int32_t> map(tids + 1); for (int i = 0; i <= tids; ++i) map(i) = i ? i - 1 : 0; Vector<float> row(tids); Decoder d(f.get(), map, 0.5f); d.Initialize(); double lag = 0, most = 0; long checks = 0;
  for (int t = 1; t <= T + 1; ++t) {
    bool end = t == T + 1;
    if (!end) { for (int k = 0; k < tids; ++k) row(k) = r.Int(-16, 16) / 64.0f; if (!d.Process(row)) { c->Violation("wide-died", "frame %d of %d branches is refused", t, N); return; } } else d.EndOfStream();
    double best = INFINITY; for (int i = 0; i < N; ++i) { if (!end) cost[i] += -0.5 * row(unit[i] - 1) + (t == 1 ? e[i] : s[i]); else cost[i] += fin[i]; best = std::min(best, cost[i]); }
    if (!end) { lag = std::max(lag, cost[hero] - best); long within = 0; for (int i = 0; i < N; ++i) within += cost[i] <= best + 16; most = std::max(most, (double)within); if (t < T && r.P(0.7)) continue; }
    else { best = cost[hero]; for (int i = 0; i < N; ++i) if (i != hero && cost[i] <= best) return; if (lag > 15.95) { c->Count("wide_undecided"); return; } }
    Decoder::Hypothesis h = d.BestPath(); std::vector<int> got = h.words(); std::reverse(got.begin(), got.end());
    int w = got.empty() ? 0 : got[0]; std::vector<int> want; if (w >= 1 && w <= N) { want.push_back(w); if (again[w - 1]) for (int k = 1; k < std::min(t, T); ++k) want.push_back(again[w - 1]); }
    if (want.empty() || got != want || cost[w - 1] != best) { c->Violation("wide-words", "%d branches (%.0f within the beam), %s %d of %d: branch %d with %zu words, the cheapest one costs %.9g%s", N, most, end ? "end after frame" : "frame", std::min(t, T), T, w, got.size(), best, end ? Str(" (branch %d, behind by up to %.4g)", hero + 1, lag).c_str() : ""); return; }
    if (!(fabs(h.weight() - best) <= 1e-3)) { c->Violation("wide-cost", "%d branches, frame %d: cost %.9g instead of %.9g", N, t, h.weight(), best); return; }
    ++checks;
  }
  c->Count("wide_checks", checks); c->Count("wide_late_winners", lag > 12 && most > 2000); c->Max("wide_hypotheses", (long long)most); c->nontrivial = N > 2; c->Sig(N); c->Sig(T); c->SigD(lag); c->Sample("%d branches, %d frames, up to %.0f within the beam: the one that was behind by %.3g wins", N, T, most, lag);
}

// an hour of speech: more words than any fixed limit
static void LongCase(Ctx *c) {
  Rng r = c->R(70); Graph g; int n = r.Int(2, 9), V = 1000; g.Resize(n); std::vector<int> word(n); std::vector<float> fin(n, 0);
  for (int i = 0; i < n; ++i) {
    word[i] = r.P(0.9) ? r.Int(1, V) : 0; int next = (i + 1) % n, k = r.Int(1, 3);
    std::vector<GArc> as; GArc a = {1, word[i], 0, next}; as.push_back(a);
    for (; k > 0; --k) { GArc b = {1, r.Int(1, V), r.Int(1, 60) / 4.0, next}; as.push_back(b); }   // loses where they meet
    r.Shuffle(&as); g.arcs[i] = as; g.fin[i] = 0;
  }
  int per = 0; for (int w : word) per += w != 0; if (!per) return;
  int T = (int)((c->thorough ? r.Int(150000, 400000) : r.Int(100500, 130000)) * (double)n / per);
  std::unique_ptr<fst::Fst<fst::StdArc> > f = ToFst(g, r.P(0.5)); Vector<int32_t> map(2); map(0) = map(1) = 0; Vector<float> row(1); row(0) = 0;
  Decoder d(f.get(), map, 0.1f); d.Initialize(); int checks = 0; std::vector<int> at; for (int i = 0; i < 3; ++i) at.push_back(r.Int(1, T - 1)); std::vector<int> want;
  for (int t = 1; t <= T; ++t) {
    d.Process(row); if (word[(t - 1) % n]) want.push_back(word[(t - 1) % n]);
    bool now = t == T; for (int x : at) now |= x == t;
    if (t == T) d.EndOfStream();
    if (!now) continue;
    Decoder::Hypothesis h = d.BestPath(); std::vector<int> got = h.words(); std::reverse(got.begin(), got.end()); ++checks; c->Count("words_checked", (long long)want.size());
    if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; c->Violation("long-history", "after %d frames: %zu words, expected %zu; they differ from word %zu on", t, got.size(), want.size(), k); return; }
  }
  c->Count("long_streams"); c->Max("transcript_words", (long long)want.size()); c->nontrivial = true; c->Sig(T); c->Sig(n);
  c->Sample("%d frames, %zu words: all there in order, at %d moments", T, want.size(), checks);
}

// ------------------------------------------------------------------ C08
static void CapCase(Ctx *c) {
  Rng r = c->R(8); Problem p; p.q.unit = 1.0 / 512; p.tids = r.Int(2, 6); p.pdfs = p.tids; p.V = 50; p.scale = 0.5f;
  p.t2p.assign(p.tids + 1, 0); for (int i = 1; i <= p.tids; ++i) p.t2p[i] = i - 1;
  int K = r.P(0.2) ? r.Int(30010, 31000) : r.P(0.04) ? r.Int(130000, 300000) : r.LogInt(31000, c->thorough ? 250000 : 110000), L = r.Int(3, 8), style = r.P(0.3) ? 7 : r.Int(0, 7);
  // a crowd of K states, entered at once, cycling among themselves; L lanes of
  // good paths with words
  p.g.Resize(K + 3 + L); int crowd = 3, lane = 3 + K;
  std::vector<double> base(K); int decoys = r.Int(0, 700); bool tight = style >= 5;
  double lane_w = style == 7 ? 0.4 : style >= 5 ? 0 : 0.12, lane_lo = style == 7 ? r.Uni(0, 0.35) : 0, step = tight ? 0 : 0.08, crowd_lo = r.P(0.5) ? 0.5 : r.Uni(0.46, 1.2), crowd_w = r.P(0.5) ? 0.4 : r.Uni(0.002, 0.1);
  if (style == 7 && r.P(0.6)) { lane_w = 0.44; lane_lo = r.Uni(0.2, 0.43); }
  if (tight) c->Count("beams_of_close_costs");
  for (int i = 0; i < K; ++i) {
    double w;
    switch (style) { case 0: w = r.Uni(1, 15); break; case 1: w = 0.6 + 14 * r.Uni() * r.Uni(); break; case 2: w = 15.5 - 14 * r.Uni() * r.Uni() * r.Uni(); break;
      case 3: w = 3; break;
      // all hypotheses cost the same (5), or most of them, and the crowd is the worse half (6)
      case 5: w = 0; break; case 6: w = r.P(0.5) ? 0.125 : 0; break;
      // a few decoys ahead of the good paths, the crowd right behind them
      case 7: w = i < decoys ? r.Uni(0, 0.1) : r.Uni(crowd_lo, crowd_lo + crowd_w); break;
      default: w = r.P(0.02) ? r.Uni(0.5, 1) : r.Uni(9, 15.9); }
    base[i] = p.q(w);
  }
  if (r.P(0.3)) std::sort(base.begin(), base.end()); else if (r.P(0.3)) { std::sort(base.begin(), base.end()); std::reverse(base.begin(), base.end()); }
  int entry = r.Int(0, 2);      // lanes first, in the middle or last in the beam
  std::vector<GArc> lanes;
  for (int j = 0; j < L; ++j) { GArc a = {1, 1 + j, p.q(r.Uni(lane_lo, lane_w)), lane + j}; lanes.push_back(a); }
  for (int i = 0; i < K; ++i) { if ((entry == 0 && i == 0) || (entry == 1 && i == K / 2)) for (auto &a : lanes) p.g.arcs[0].push_back(a); p.g.Add(0, crowd + i, 1, i % 997 == 0 ? 20 : 0, base[i]); }
  if (entry == 2) for (auto &a : lanes) p.g.arcs[0].push_back(a);
  bool shuffle = r.P(0.5);
  // hypotheses that were expensive so far win in the end: the result depends on where the cap falls
  bool late = r.P(0.35); double gain = r.Uni(1.1, 2); if (late) c->Count("results_at_the_cap");
  for (int i = 0; i < K; ++i) { p.g.Add(crowd + i, crowd + (shuffle && !late ? (int)((i * 7919LL + 13) % K) : i), 1, 0, p.q(tight || late ? 0 : r.Uni(0, 0.3))); p.g.fin[crowd + i] = late ? p.q((tight ? r.Uni(1.5, 3) : 0) - gain * base[i]) : tight ? p.q(r.Uni(1.5, 3)) : 0; }
  for (int j = 0; j < L; ++j) {
    for (int k = 0; k < 2; ++k) p.g.Add(lane + j, lane + r.Int(0, L - 1), 1, Word(&r, 15, 0.4), p.q(r.Uni(0, step)));
    if (r.P(0.3)) p.g.Add(lane + j, crowd + r.Int(0, K - 1), 1, 0, p.q(r.Uni(0, 1)));
    if (j + 1 < L && r.P(0.2)) p.g.Add(lane + j, lane + r.Int(j + 1, L - 1), 0, Word(&r, 15, 0.5), p.q(r.Uni(0, step)));
    p.g.fin[lane + j] = p.q(r.Uni(0, 0.1));
  }
  int T = r.Int(3, 9);
  for (int t = 0; t < T; ++t) { std::vector<float> v(p.pdfs); for (auto &x : v) x = (float)(p.q(r.Uni(-1, 1)) / p.scale); p.logp.push_back(v); }
  Search s(p.g, nullptr, 0, 0.02); s.cap_gap = 0.45; s.cap_rank = 1000; 
  for (int t = 0; t < T; ++t) s.Step(p.Ac(t));
  std::unique_ptr<fst::Fst<fst::StdArc> > f = ToFst(p.g, r.P(0.5));
  std::string what = Str("%d states in the beam, %d frames, costs of kind %d, good paths %s", K, T, style, entry == 0 ? "first" : entry == 1 ? "in the middle" : "last");
  Verdict v = {0, 0, 0};
  if (!Decode(c, &r, p, s, *f, nullptr, 1.0, true, &v, what.c_str())) return;
  // once more, the same
  Vector<int32_t> map(p.tids + 1); for (int i = 0; i <= p.tids; ++i) map(i) = p.t2p[i];
  std::vector<int> w[3]; float wt[3];
  for (int k = 0; k < 3; ++k) {
    // different heap layout the second time
    std::vector<std::unique_ptr<char[]> > junk; if (k) for (int i = 0; i < 300; ++i) junk.emplace_back(new char[r.Int(1, 5000)]);
    Decoder d(f.get(), map, p.scale); d.Initialize();
    for (int t = 0; t < T; ++t) { Vector<float> row(p.pdfs); for (int i = 0; i < p.pdfs; ++i) row(i) = p.logp[t][i]; d.Process(row); }
    d.EndOfStream(); Decoder::Hypothesis h = d.BestPath(); w[k] = h.words(); wt[k] = h.weight();
  }
  for (int k = 1; k < 3; ++k) if (w[0] != w[k] || wt[0] != wt[k]) { c->Violation("nondeterministic", "%s: '%s' %.9g, then '%s' %.9g", what.c_str(), Words(w[0]).c_str(), wt[0], Words(w[k]).c_str(), wt[k]); return; }
  c->Count("capped_frames", T); c->Max("active_states", K); c->Count("hypotheses_decided", v.decided); c->Count("hypotheses_undecided", v.undecided);
  c->nontrivial = v.decided > 1; c->Sig(K); c->Sig(T); c->Sig(style); c->Sig(entry);
  c->Sample("%s: %ld hypotheses as without the cap", what.c_str(), v.decided);
}

// ------------------------------------------------------------------ C09 (search part)
static void DecMemCase(Ctx *c) {
  Rng r = c->R(9); int n = r.Int(20, 60), V = r.Int(1, 30), tids = r.Int(1, 6); Graph g; g.Resize(n);
  // words only on hypotheses that never win for long: the transcript stays short
  double pw = r.P(0.3) ? 0 : r.Uni(0.1, 1); bool lm = r.P(0.3); double wpen = r.Uni(4, 9);
  for (int i = 0; i < n; ++i) {
    g.Add(i, i, 1, 0, r.Uni(0, 0.2)); g.Add(i, (i + 1) % n, r.Int(1, tids), 0, r.Uni(0.5, 2));
    for (int k = r.Int(0, 3); k > 0; --k) { int ol = Word(&r, V, pw); g.Add(i, r.Int(0, n - 1), r.Int(1, tids), ol, r.Uni(0.2, 2) + (ol ? wpen : 0)); }
    if (i + 1 < n && r.P(0.2)) { int ol = Word(&r, V, pw); g.Add(i, r.Int(i + 1, n - 1), 0, ol, r.Uni(0.5, 2) + (ol ? wpen : 0)); }
    g.fin[i] = 0;
  }
  Problem p; p.g = g; p.V = V; p.q.unit = 1.0 / 64; LmObj o; if (lm) { p.lm.reset(new Lm(RandLm(&r, V, 1.0 / 64, r.Int(1, 5)))); if (!BuildLm(c, *p.lm, V, &o, true)) return; }
  std::unique_ptr<fst::Fst<fst::StdArc> > f = ToFst(g, r.P(0.5)); Vector<int32_t> map(tids + 1); for (int i = 1; i <= tids; ++i) map(i) = i - 1;
  int T = c->thorough ? 100000 : 40000; std::vector<long> live; long words = 0;
  struct mallinfo2 m0 = mallinfo2();
  {
    Decoder d(f.get(), map, 0.5f, o.delta.get()); d.Initialize(); Vector<float> row(tids); live.reserve(T);
    for (int t = 0; t < T; ++t) {
      for (int i = 0; i < tids; ++i) row(i) = (float)r.Gauss();
      d.Process(row); struct mallinfo2 m = mallinfo2(); live.push_back((long)(m.uordblks + m.hblkhd - m0.uordblks - m0.hblkhd));
      if (t % 500 == 499) words = std::max(words, (long)d.BestPath().words().size());
    }
    if (d.NumFramesDecoded() != T) { c->Violation("mem-died", "search died"); return; }
  }
  struct mallinfo2 m1 = mallinfo2();
  long end = (long)(m1.uordblks + m1.hblkhd - m0.uordblks - m0.hblkhd) - (long)(live.capacity() * sizeof(long));
  long a = 0, b = 0; for (int t = T / 8; t < T / 2; ++t) a = std::max(a, live[t]); for (int t = T / 2; t < T; ++t) b = std::max(b, live[t]);
  c->Max("live_bytes", b); c->Max("growth_bytes", b - a); c->Count("frames", T);
  // 512 bytes per word of the transcript are its own
  if (b - a > 1500000 + 512 * words) { c->Violation("search-memory", "%d states, %d frames, transcript of at most %ld words: live memory grew from %ld to %ld bytes", n, T, words, a, b); return; }
  if (end > 65536) { c->Violation("search-leak", "%ld bytes still allocated after the decoder was destroyed", end); return; }
  c->nontrivial = true; c->Sig(n); c->Sig(b); c->Sig(lm);
  c->Sample("%d states%s, %d frames: at most %ld bytes live, %ld more than in the first half", n, lm ? ", second LM" : "", T, b, b - a);
}

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> m;
  m["search"] = SearchCase; m["lm"] = LmCase; m["hist"] = HistCase; m["ring"] = RingCase; m["chain"] = ChainCase; m["wide"] = WideCase; m["long"] = LongCase; m["cap"] = CapCase; m["mem"] = DecMemCase;
  return Main(argc, argv, m);
}
