// Whole-recogniser monitors through the public interface.
#include <pthread.h>
#include <malloc.h>
#include <sys/wait.h>
#include "e2e.h"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static long Live() { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
static long Live() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
#endif
using namespace vf;

// An allocator that gives what one place allocates where that place's previous
// object was, so that an address says nothing about the identity of an object.
static bool gSticky = false;
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(VERIF_VG)
#include <new>
namespace { struct Head { size_t n; void *site; Head *next; char pad[8]; }; Head *gFree[4096]; }
static size_t Slot(void *site, size_t n) { return (((uintptr_t)site * 0x9e3779b97f4a7c15ull) ^ (n * 0xff51afd7ed558ccdull)) >> 52; }
static void *New(size_t n, void *site) {
  if (gSticky) for (Head **h = &gFree[Slot(site, n)]; *h; h = &(*h)->next) if ((*h)->n == n && (*h)->site == site) { Head *x = *h; *h = x->next; return x + 1; }
  Head *x = (Head *)malloc(n + sizeof(Head)); if (!x) return nullptr; x->n = n; x->site = site; x->next = nullptr; return x + 1;
}
static void Del(void *p) { if (!p) return; Head *x = (Head *)p - 1; if (gSticky && x->n <= 4096) { Head **h = &gFree[Slot(x->site, x->n)]; x->next = *h; *h = x; } else free(x); }
void *operator new(size_t n) { void *p = New(n, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = New(n, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return New(n, __builtin_return_address(0)); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return New(n, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { Del(p); }
void operator delete[](void *p) noexcept { Del(p); }
void operator delete(void *p, size_t) noexcept { Del(p); }
void operator delete[](void *p, size_t) noexcept { Del(p); }
#endif

static RefFbank *gFb;
static ce_stt_t *Load(Ctx *c, const Model &m) {
  ce_stt_t *r = ce_stt_init(m.Conf().c_str());
  if (!r) c->Violation("init", "a valid model is refused: %s", ce_stt_last_error());
  return r;
}
static ce_utt_t *Utt(Ctx *c, ce_stt_t *r, int bits) {
  ce_wave_format_t f = Fmt(bits); ce_utt_t *u = ce_utt_init(r, &f);
  if (!u) c->Violation("utt-init", "utterance refused: %s", ce_stt_last_error());
  return u;
}
// feeds bytes [pos, pos+k) through an exact-size heap copy
static int32_t Feed(ce_utt_t *u, const std::string &b, size_t pos, size_t k) {
  std::unique_ptr<char[]> p(new char[k]); memcpy(p.get(), b.data() + pos, k); return ce_stt_process(u, p.get(), (int32_t)k);
}
static size_t Piece(Rng *r, int style, size_t left) {
  size_t k; switch (style) { case 0: k = 1; break; case 1: k = r->Int(1, 5); break; case 2: k = r->LogInt(1, 2000); break; case 3: k = 1024; break; case 4: k = r->LogInt(1, 200000); break; case 5: k = r->P(0.5) ? 319 : 321; break; case 7: k = r->P(0.3) ? r->LogInt(1, 5000) : r->Int(1, 3) * (1 << 20) + (r->P(0.4) ? r->Int(-4, 4) : r->Int(0, 1 << 19)); break; default: k = left; }
  return std::min(k, left);
}

// ------------------------------------------------------------------ C01
static void SplitCase(Ctx *c) {
  Rng r = c->R(1); Model m; bool vast = c->cur % 160 == 80; RandModel(&m, &r, vast ? 0 : 0.15, vast ? 0 : 0.04); m.Write(c->Path("m"), &r);
  bool lengthy = r.P(0.012); if (vast) c->Count("megabyte_pieces"); if (lengthy) c->Count("long_streams"); c->Count("large_models", m.big);
  Audio a = RandAudio(&r, vast ? r.Int(1100000, 1900000) : lengthy ? r.Int(60000, c->flavor == "o2" ? 400000 : 120000) : r.P(0.1) ? r.Int(1, 420) : r.P(0.3) ? r.LogInt(400, 8000) : r.LogInt(8000, c->thorough ? 80000 : 34000), false);
  if (r.P(0.3)) { for (int k = r.Int(1, a.bps()); k > 0 && a.bytes.size() > 1; --k) a.bytes.resize(a.bytes.size() - 1); }
  size_t N = a.bytes.size(); int bps = a.bps();
  ce_stt_t *rec = Load(c, m); if (!rec) return;
  // transcript after n complete samples, from the finest feeding
  std::vector<std::pair<size_t, std::string> > steps; Outcome ref; ref.samples = 0;
  bool finest = r.P(0.6) && !vast;
  {
    ce_utt_t *u = Utt(c, rec, a.bits); if (!u) return; std::string last = u->hyp; steps.push_back(std::make_pair((size_t)0, last)); size_t got = 0;
    size_t step = finest ? (r.P(0.3) ? 1 : bps) : 160 * bps;
    for (size_t p = 0; p < N; p += step) {
      size_t k = std::min(step, N - p); int32_t n = Feed(u, a.bytes, p, k); size_t want = (p + k) / bps;
      if (n != (int32_t)(want - got)) { c->Violation("return", "%d-bit, byte %zu + %zu: returned %d samples, completed %zu", a.bits, p, k, n, want - got); return; }
      got = want; if (last != u->hyp) { last = u->hyp; steps.push_back(std::make_pair(got, last)); }
    }
    ce_stt_end_of_stream(u); ref.hyp = u->hyp; ref.score = u->loglikelihood_per_frame; ref.samples = (long)got; ce_utt_destroy(u);
  }
  long checked = 0; int feeds = vast ? 3 : c->thorough ? 8 : 4;
  for (int f = 0; f < feeds; ++f) {
    int style = vast && f ? 7 : f == 0 ? 6 : f == 1 ? r.Int(0, 1) : r.Int(1, 5); if (!finest && style == 0) style = 1;
    ce_utt_t *u = Utt(c, rec, a.bits); if (!u) return; size_t p = 0, got = 0, at = 0; long calls = 0;
    while (p < N) {
      size_t k = Piece(&r, style, N - p); int32_t n = Feed(u, a.bytes, p, k); p += k; size_t want = p / bps; ++calls;
      if (n != (int32_t)(want - got)) { c->Violation("return", "%d-bit, up to byte %zu (+%zu): returned %d samples, completed %zu", a.bits, p, k, n, want - got); return; }
      got = want;
      if (finest || got % 160 == 0) { while (at + 1 < steps.size() && steps[at + 1].first <= got) ++at;
        if (steps[at].second != u->hyp) { c->Violation("partial", "after %zu of %zu samples (piece style %d) the transcript is '%s', fed %s it is '%s'", got, N / bps, style, u->hyp, finest ? "sample by sample" : "frame by frame", steps[at].second.c_str()); return; } ++checked; }
    }
    ce_stt_end_of_stream(u);
    if (ref.hyp != u->hyp || memcmp(&ref.score, &u->loglikelihood_per_frame, 4) != 0 || (long)got != ref.samples) {
      c->Violation("final", "%zu samples of %d bits, %ld calls (style %d): transcript '%s' score %.9g, otherwise '%s' %.9g", N / bps, a.bits, calls, style, u->hyp, u->loglikelihood_per_frame, ref.hyp.c_str(), ref.score); return; }
    ce_utt_destroy(u); c->Count("feedings"); c->Count("calls", calls);
  }
  ce_stt_destroy(rec);
  c->Count("partials_compared", checked); c->Count("partial_changes", (long long)steps.size() - 1); c->Count("nonempty", !ref.hyp.empty());
  c->nontrivial = N / bps >= 560; c->Sig(N); c->SigS(ref.hyp); c->SigD(ref.score);
  c->Sample("%zu bytes at %d bits in %d partitions: '%s' score %.6g, %zu partial transcripts, all equal", N, a.bits, feeds, ref.hyp.substr(0, 80).c_str(), ref.score, steps.size());
}

// ------------------------------------------------------------------ C02
// rounding of features, network and decoder over t frames
static double Tol(int t, double amax, double best) { return 0.001 + t * amax * 5e-6 + t * 5e-5 + 1e-6 * t * std::min(fabs(best), 1e9); }
static void BestCase(Ctx *c) {
  Rng r = c->R(2); Model m; RandModel(&m, &r, 0.25, 0.04); c->Count("large_models", m.big); m.Write(c->Path("m"), &r);
  int samples = r.P(0.01) ? r.Int(60000, 300000) : r.P(0.08) ? r.Int(1, 399) : r.P(0.1) ? 400 + r.Int(0, 800) : r.LogInt(800, c->thorough ? 60000 : 30000);
  bool vast = c->flavor == "o2" && c->cur % 2600 == 77 && m.g.n() < 40 && !m.big; if (vast) { samples = 160 * r.Int(66000, 72000); c->Count("vast_streams"); }
  Audio a = RandAudio(&r, samples, true);
  ce_stt_t *rec = Load(c, m); if (!rec) return;
  if (!gFb) gFb = new RefFbank();
  for (int rep = 0; rep < 2; ++rep) {
    if (rep) { a = RandAudio(&r, r.LogInt(400, 8000), true); samples = (int)a.s.size(); }
    std::vector<float> x(a.s.begin(), a.s.end()); Net::D sc = RefScores(m, *gFb, x); int T = (int)sc.size();
    if (T != RefFbank::Frames(samples)) { fprintf(stderr, "harness: network rows\n"); _exit(98); }
    Search s(m.g, m.lm.get(), 0, 0.4); std::vector<std::vector<double> > ac; double amax = 0;
    for (int t = 0; t < T; ++t) { ac.push_back(AcRow(m, sc[t])); s.Step(ac.back()); for (double v : ac.back()) amax = std::max(amax, fabs(v)); }
    ce_utt_t *u = Utt(c, rec, a.bits); if (!u) return;
    if (u->hyp[0] || u->loglikelihood_per_frame != 0) { c->Violation("fresh", "a new utterance has transcript '%s' score %g", u->hyp, u->loglikelihood_per_frame); return; }
    size_t p = 0; int style = r.Int(2, 6); while (p < a.bytes.size()) { size_t k = Piece(&r, style, a.bytes.size() - p); Feed(u, a.bytes, p, k); p += k; }
    ce_stt_end_of_stream(u); std::string hyp = u->hyp; double score = u->loglikelihood_per_frame; ce_utt_destroy(u);
    std::vector<int> w; if (!ParseHyp(m, hyp, &w)) { c->Violation("text", "transcript '%s' is not a sequence of words of the table", hyp.c_str()); return; }
    std::vector<int> ends; bool surv; double best = s.Best(T, true, &ends, &surv); double tol = Tol(T, amax, best);
    std::string what = Str("%d samples of %d bits, %d frames, %d graph states%s, contexts %d+%d, batches of %d", samples, a.bits, T, m.g.n(), m.lm ? ", second LM" : "", m.left, m.right, m.chunk);
    if (T == 0) c->Count("too_short");
    if (T == 0 && score != 0) { c->Violation("short", "%s: no frame, but score %g", what.c_str(), score); return; }
    if (T == 0 && best != INFINITY) { double k0 = CostOf(m.g, m.lm.get(), w, ac, true); if (surv && !(k0 <= best + 2 * tol + 1e-4)) { c->Violation("short", "%s: '%s' costs %g, the cheapest path %g", what.c_str(), hyp.c_str(), k0, best); return; } }
    else if (best == INFINITY) { if (!hyp.empty() || score != 0) { c->Violation("no-path", "%s: no path ends in a final state, but '%s' score %g", what.c_str(), hyp.c_str(), score); return; } c->Count("without_path"); }
    else {
      double k = vast && !rep ? best : CostOf(m.g, m.lm.get(), w, ac, true);
      if (surv) {
        c->Count("decided");
        if (fabs(score * T - best) > tol) { c->Violation("score", "%s: score %.9g per frame, cheapest path %.9g per frame (transcript '%s')", what.c_str(), score, best / T, hyp.c_str()); return; }
        if (!(k <= best + 2 * tol)) { c->Violation("transcript", "%s: transcript '%s' costs %.6g, the cheapest path %.6g", what.c_str(), hyp.c_str(), k, best); return; }
        c->Max("error_1e6", (long long)(fabs(score * T - best) * 1e6)); c->Max("error_of_tol_pct", (long long)(100 * fabs(score * T - best) / tol));
      } else {
        c->Count("undecided");
        if (!(hyp.empty() && score == 0) && !(k <= score * T + 2 * tol)) { c->Violation("unsound", "%s: score %.9g per frame, but '%s' costs at least %.9g per frame", what.c_str(), score, hyp.c_str(), k / T); return; }
      }
      c->Count("words", (long long)w.size());
      c->Sample("%s: '%s' score %.6g (exact %.6g)%s", what.c_str(), hyp.substr(0, 60).c_str(), score, best / T, surv ? "" : ", best path left the beam");
      if (surv && w.size()) c->nontrivial = true;
    }
    c->Sig(samples); c->SigS(hyp); c->Sig(T); c->Count("frames", T);
  }
  ce_stt_destroy(rec);
}

// ------------------------------------------------------------------ C31
static void PartialCase(Ctx *c) {
  Rng r = c->R(31); Model m; RandModel(&m, &r, 0.25, 0.04); c->Count("large_models", m.big); if (r.P(0.5)) m.chunk = r.Int(1, 25); bool round20 = r.P(0.08); if (round20) m.chunk = 20 * r.Int(1, 8); m.Write(c->Path("m"), &r);
  Audio a = RandAudio(&r, round20 ? r.LogInt(16000, 56000) : r.LogInt(3600, c->thorough ? 80000 : 32000), true); c->Count("batches_end_on_refresh", round20); ce_stt_t *rec = Load(c, m); if (!rec) return; if (!gFb) gFb = new RefFbank();
  std::vector<float> x(a.s.begin(), a.s.end()); Net::D sc = RefScores(m, *gFb, x); int T = (int)sc.size();
  Search s(m.g, m.lm.get(), 0, 0.4); std::vector<std::vector<double> > ac; std::vector<double> amax(1, 0); for (int t = 0; t < T; ++t) { ac.push_back(AcRow(m, sc[t])); s.Step(ac.back()); double k = amax.back(); for (double v : ac.back()) k = std::max(k, fabs(v)); amax.push_back(k); }
  ce_utt_t *u = Utt(c, rec, a.bits); if (!u) return; size_t p = 0, N = a.bytes.size(); int bps = a.bps(), style = r.Int(0, 3); std::string last = "\1"; long checks = 0, undecided = 0, changes = 0, words = 0; int lastlo = -1;
  std::string what = Str("%zu samples of %d bits, %d frames, %d graph states%s, contexts %d+%d, batches of %d", N / bps, a.bits, T, m.g.n(), m.lm ? ", second LM" : "", m.left, m.right, m.chunk);
  while (p < N) {
    size_t k = style == 0 ? 160 * bps : style == 1 ? r.LogInt(1, 4000) : style == 2 ? 1024 : r.LogInt(1000, 40000); k = std::min(k, N - p); Feed(u, a.bytes, p, k); p += k;
    long got = (long)(p / bps); int F = RefFbank::Frames(got), ready = F >= m.right + m.chunk ? (F - m.right) / m.chunk * m.chunk : 0;
    std::string hyp = u->hyp; double score = u->loglikelihood_per_frame; int lo = std::max(0, ready - 19); if (hyp == last && lo == lastlo) continue; changes += hyp != last; last = hyp; lastlo = lo;
    std::vector<int> w; if (!ParseHyp(m, hyp, &w)) { c->Violation("partial-text", "%s: partial transcript '%s' is not a sequence of words of the table", what.c_str(), hyp.c_str()); return; }
    bool ok = false, open = false; std::string near;
    for (int j = 0; j <= ready - lo && !ok; ++j) {
      int t = ready / 20 * 20; if (j) { t = lo + j - 1; if (t >= ready / 20 * 20) ++t; } if (t > ready) break;
      if (t == 0) { if (hyp.empty() && score == 0) ok = true; continue; }
      std::vector<int> ends; bool surv; double best = s.Best(t, false, &ends, &surv), tol = Tol(t, amax[t], best);
      if (best == INFINITY) { if (hyp.empty() && score == 0) ok = true; continue; }
      if (!surv) { open = true; continue; }
      near = Str("after %d frames the best active path costs %.6g per frame", t, best / t);
      if (fabs(score * t - best) > tol) continue;
      std::vector<std::vector<double> > pre(ac.begin(), ac.begin() + t); if (CostOf(m.g, m.lm.get(), w, pre, false) <= best + 2 * tol) ok = true;
    }
    if (!ok && !open) { c->Violation("partial", "%s: after %ld samples (%d frames scored) the partial transcript is '%s' score %.9g, of no best active path of the last 20 frames (%s)", what.c_str(), got, ready, hyp.c_str(), score, near.c_str()); return; }
    if (ok) { ++checks; words += (long)w.size(); } else ++undecided;
  }
  ce_utt_destroy(u); ce_stt_destroy(rec); c->Count("partials_decided", checks); c->Count("partials_undecided", undecided); c->Count("partial_changes", changes); c->Count("words", words); c->Count("frames", T);
  c->nontrivial = changes > 1; c->Sig(N); c->SigS(last); c->Sig(checks);
  c->Sample("%s: %ld partial transcripts checked (%ld different), last '%s'", what.c_str(), checks, changes, last.substr(0, 60).c_str());
}

// ------------------------------------------------------------------ C27
struct Job { int model; Audio a; std::vector<size_t> cut; std::vector<std::string> partial; std::string hyp; float score; };
static bool RunJob(Ctx *c, ce_stt_t *rec, Job *j, bool record) {
  ce_utt_t *u = Utt(c, rec, j->a.bits); if (!u) return false; size_t p = 0;
  for (size_t i = 0; i < j->cut.size(); ++i) {
    Feed(u, j->a.bytes, p, j->cut[i] - p); p = j->cut[i];
    if (record) j->partial.push_back(u->hyp); else if (j->partial[i] != u->hyp) { c->Violation("repeat-partial", "decoded again, call %zu: '%s' instead of '%s'", i, u->hyp, j->partial[i].c_str()); return false; }
  }
  ce_stt_end_of_stream(u);
  if (record) { j->hyp = u->hyp; j->score = u->loglikelihood_per_frame; }
  else if (j->hyp != u->hyp || memcmp(&j->score, &u->loglikelihood_per_frame, 4)) { c->Violation("repeat", "decoded again: '%s' %.9g instead of '%s' %.9g", u->hyp, u->loglikelihood_per_frame, j->hyp.c_str(), j->score); return false; }
  ce_utt_destroy(u); return true;
}
static Job RandJob(Rng *r, int models, int maxs, bool tame) {
  Job j; j.model = r->Int(0, models - 1); j.a = RandAudio(r, r->LogInt(300, maxs), tame); int style = r->Int(1, 6); if (style == 1) style = 2; size_t p = 0, n = j.a.bytes.size(); while (p < n) { p += Piece(r, style, n - p); j.cut.push_back(p); } j.score = 0; return j;
}
static void IsoCase(Ctx *c) {
  Rng r = c->R(27); int M = r.Int(1, 2); std::vector<Model> ms(M); std::vector<ce_stt_t *> recs;
  for (int i = 0; i < M; ++i) { RandModel(&ms[i], &r, 0.2, 0.03); ms[i].Write(c->Path("m" + std::to_string(i)), &r); recs.push_back(Load(c, ms[i])); if (!recs[i]) return; }
  std::vector<Job> jobs; int J = r.Int(2, 4); for (int i = 0; i < J; ++i) { jobs.push_back(RandJob(&r, M, 14000, false)); if (!RunJob(c, recs[jobs[i].model], &jobs[i], true)) return; }
  long steps = 0, abandoned = 0, reloads = 0;
  for (int round = 0; round < 3; ++round) {
    if (round == 1 && r.P(0.6)) { int k = r.Int(0, M - 1); ce_stt_destroy(recs[k]); if (r.P(0.5)) { ce_stt_t *bad = ce_stt_init((ms[k].dir + "/nothing.conf").c_str()); if (bad) { c->Violation("init-missing", "a missing configuration gives a recogniser"); return; } } recs[k] = Load(c, ms[k]); if (!recs[k]) return; ++reloads; }
    if (round == 2 && r.P(0.5)) { for (auto &j : jobs) if (!RunJob(c, recs[j.model], &j, false)) return; continue; }
    struct Live { ce_utt_t *u; int job; size_t call; }; std::vector<Live> live; std::vector<int> todo; for (int i = 0; i < J; ++i) for (int k = r.Int(1, 2); k > 0; --k) todo.push_back(i); r.Shuffle(&todo);
    std::vector<std::pair<ce_utt_t *, int> > junk;
    while (!todo.empty() || !live.empty()) {
      ++steps;
      if (!todo.empty() && (live.empty() || r.P(0.3))) { Live l = {Utt(c, recs[jobs[todo.back()].model], jobs[todo.back()].a.bits), todo.back(), 0}; if (!l.u) return; live.push_back(l); todo.pop_back(); continue; }
      if (r.P(0.25)) {                       // a stranger: garbage audio, abandoned at any point
        if (junk.size() < 3 && r.P(0.5)) { int bits = r.P(0.5) ? 16 : 8; ce_utt_t *u = Utt(c, recs[r.Int(0, M - 1)], bits); if (!u) return; junk.push_back(std::make_pair(u, bits)); }
        else if (!junk.empty()) { size_t k = r.Int(0, (int)junk.size() - 1); if (r.P(0.6)) { std::string g(r.LogInt(1, 6000), 0); for (auto &ch : g) ch = (char)r.Next(); Feed(junk[k].first, g, 0, g.size()); } else { if (r.P(0.3)) ce_stt_end_of_stream(junk[k].first); ce_utt_destroy(junk[k].first); junk.erase(junk.begin() + k); ++abandoned; } }
      }
      size_t k = r.Int(0, (int)live.size() - 1); Live &l = live[k]; Job &j = jobs[l.job];
      if (l.call < j.cut.size()) {
        size_t p = l.call ? j.cut[l.call - 1] : 0; Feed(l.u, j.a.bytes, p, j.cut[l.call] - p);
        if (j.partial[l.call] != l.u->hyp) { c->Violation("iso-partial", "with %zu others alive, call %zu: '%s', alone '%s'", live.size() - 1 + junk.size(), l.call, l.u->hyp, j.partial[l.call].c_str()); return; }
        ++l.call;
      } else {
        ce_stt_end_of_stream(l.u);
        if (j.hyp != l.u->hyp || memcmp(&j.score, &l.u->loglikelihood_per_frame, 4)) { c->Violation("iso", "with %zu others alive: '%s' %.9g, alone '%s' %.9g", live.size() - 1 + junk.size(), l.u->hyp, l.u->loglikelihood_per_frame, j.hyp.c_str(), j.score); return; }
        c->Count("utterances_compared"); ce_utt_destroy(l.u); live.erase(live.begin() + k);
      }
    }
    for (auto &x : junk) ce_utt_destroy(x.first);
  }
  for (auto x : recs) ce_stt_destroy(x);
  c->Count("interleaved_calls", steps); c->Count("abandoned", abandoned); c->Count("reloads", reloads);
  bool any = false; for (auto &j : jobs) { c->SigS(j.hyp); c->SigD(j.score); any |= !j.hyp.empty(); } c->Sig(steps); c->nontrivial = any;
  c->Sample("%d utterances over %d recognisers, %ld interleaved steps, %ld abandoned strangers, %ld reloads: same results as alone ('%s' ...)", J, M, steps, abandoned, reloads, jobs[0].hyp.substr(0, 50).c_str());
}

// Many utterances alive at once, created first, then fed in any order.
static void ManyCase(Ctx *c) {
  Rng r = c->R(270); bool asan = c->flavor == "asan"; Model m; RandModel(&m, &r, 0, 0); m.Write(c->Path("m"), &r); ce_stt_t *rec = Load(c, m); if (!rec) return;
  std::vector<Job> jobs; int J = r.Int(2, 5); for (int i = 0; i < J; ++i) { Job j = RandJob(&r, 1, 6000, false); if (j.cut.size() > 24) { std::vector<size_t> k; for (size_t q = 0; q < j.cut.size(); ++q) if (q % (j.cut.size() / 20) == 0 || q + 1 == j.cut.size()) k.push_back(j.cut[q]); j.cut = k; } jobs.push_back(j); if (!RunJob(c, rec, &jobs[i], true)) return; }
  int n = c->cur % 40 == 11 ? r.Int(1000, asan ? 1300 : 5000) : r.LogInt(12, asan ? 150 : 500); struct Live { ce_utt_t *u; int job; size_t call; }; std::vector<Live> live; long done = 0; std::string what = Str("%d utterances alive at once", n);
  for (int i = 0; i < n; ++i) { int j = i < J ? i : r.Int(0, J - 1); Live l = {Utt(c, rec, jobs[j].a.bits), j, 0}; if (!l.u) return; if (l.u->hyp[0] || l.u->loglikelihood_per_frame != 0) { c->Violation("many-fresh", "%s: a new one has transcript '%s'", what.c_str(), l.u->hyp); return; } live.push_back(l); }
  int order = r.Int(0, 2); size_t at = 0;
  while (!live.empty()) {
    size_t k = order == 0 ? r.Int(0, (int)live.size() - 1) : order == 1 ? at++ % live.size() : live.size() - 1; Live &l = live[k]; Job &j = jobs[l.job];
    if (l.call < j.cut.size()) {
      size_t p = l.call ? j.cut[l.call - 1] : 0; Feed(l.u, j.a.bytes, p, j.cut[l.call] - p);
      if (j.partial[l.call] != l.u->hyp) { c->Violation("many-partial", "%s, call %zu: '%s', alone '%s'", what.c_str(), l.call, l.u->hyp, j.partial[l.call].c_str()); return; }
      ++l.call;
    } else {
      ce_stt_end_of_stream(l.u);
      if (j.hyp != l.u->hyp || memcmp(&j.score, &l.u->loglikelihood_per_frame, 4)) { c->Violation("many", "%s: '%s' %.9g, alone '%s' %.9g", what.c_str(), l.u->hyp, l.u->loglikelihood_per_frame, j.hyp.c_str(), j.score); return; }
      ce_utt_destroy(l.u); live[k] = live.back(); live.pop_back(); ++done;
    }
  }
  ce_stt_destroy(rec); c->Count("crowd_utterances", done); c->Max("utterances_alive", n); bool any = false; for (auto &j : jobs) { c->SigS(j.hyp); c->SigD(j.score); any |= !j.hyp.empty(); } c->Sig(n); c->nontrivial = any;
  c->Sample("%s, fed %s: all as alone ('%s' ...)", what.c_str(), order == 0 ? "in random order" : order == 1 ? "in turn" : "one after the other", jobs[0].hyp.substr(0, 50).c_str());
}

// Twins: models that differ in one part only, stored one after the other in the
// same place.  The reference of each is taken in a process that did nothing else.
static std::string Plain(ce_stt_t *rec, const Job &j) {
  ce_wave_format_t f = Fmt(j.a.bits); ce_utt_t *u = ce_utt_init(rec, &f); if (!u) return std::string("utterance refused: ") + ce_stt_last_error(); std::string o; size_t p = 0;
  for (size_t e : j.cut) { Feed(u, j.a.bytes, p, e - p); p = e; o += std::string(u->hyp) + "\n"; }
  ce_stt_end_of_stream(u); char b[64]; snprintf(b, sizeof b, "\n%a\n", u->loglikelihood_per_frame); o += std::string(u->hyp) + b; ce_utt_destroy(u); return o;
}
static std::string InChild(const Model &m, const Job &j) {
  int fd[2]; if (pipe(fd)) _exit(98); fflush(nullptr); pid_t pid = fork(); if (pid < 0) _exit(98);
  if (!pid) { close(fd[0]); ce_stt_t *rec = ce_stt_init(m.Conf().c_str()); std::string o = rec ? Plain(rec, j) : std::string("refused: ") + ce_stt_last_error(); size_t at = 0; while (at < o.size()) { ssize_t k = write(fd[1], o.data() + at, o.size() - at); if (k <= 0) break; at += k; } _exit(0); }
  close(fd[1]); std::string o; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) o.append(b, k); close(fd[0]); int st = 0; waitpid(pid, &st, 0); if (st) return "died"; return o;
}
static Model Variant(const Model &base, Rng *r, int kind) {
  Model m = base; if (base.lm) m.lm.reset(new Lm(*base.lm));
  switch (kind) {
    case 0: for (auto &v : m.lm->arcs) for (auto &a : v) if (a.il) a.w = (float)(r->Int(0, 6000) / 1024.0); break;
    case 1: for (auto &x : m.lm->small) x = (float)(r->Int(0, 6000) / 1024.0); break;
    case 2: for (auto &v : m.g.arcs) for (auto &a : v) a.w = (double)(float)r->Uni(0, 4); break;
    case 3: for (auto &x : m.g.fin) if (x != INFINITY) x = (double)(float)r->Uni(0, 6); break;
    case 4: for (auto &x : m.prior) x = (float)exp(r->Uni(-6, 0)); break;
    case 5: for (auto &y : m.net.layers) if (y.type == 0) for (auto &x : y.b) x = (float)(x + r->Uni(-2, 2)); break;
    case 6: for (size_t i = 1; i + 2 < m.words.size(); ++i) m.words[i][0] = (char)('A' + r->Int(0, 25)); m.ids.clear(); for (size_t i = 0; i < m.words.size(); ++i) m.ids[m.words[i]] = (int)i; break;
    case 7: for (int i = 1; i <= m.tids; ++i) m.t2p[i] = r->Int(0, m.pdfs - 1); break;
    default: for (auto &y : m.net.layers) if (y.type == 7) for (auto &x : y.b2) x = (float)(x + r->Uni(-1, 1)); break;
  }
  return m;
}
static void TwinCase(Ctx *c) {
  Rng r = c->R(271); Model base; RandModel(&base, &r, 0.6, 0.02); int kind = base.lm ? (r.P(0.5) ? 0 : r.Int(0, 8)) : r.Int(2, 8); int K = r.Int(2, 3); std::string d = c->Path("tw");
  std::vector<Model> ms; for (int i = 0; i < K; ++i) { ms.push_back(i ? Variant(base, &r, kind) : base); if (base.lm && !i) ms[0].lm.reset(new Lm(*base.lm)); ms[i].chunk = base.chunk; }
  std::vector<Job> jobs; for (int i = r.Int(1, 2); i > 0; --i) jobs.push_back(RandJob(&r, 1, 12000, false));
  auto put = [&](Model &m) { static const char *n[] = {"HCLG.fst", "final.nnet", "final.prior", "final.map", "words.txt", "large.lm", "orig.lm", "model.conf"}; for (auto x : n) unlink((d + "/" + x).c_str()); Rng q(7); m.Write(d, &q); };
  std::vector<std::vector<std::string> > want(K); bool differ = false;
  for (int i = 0; i < K; ++i) { put(ms[i]); for (auto &j : jobs) { want[i].push_back(InChild(ms[i], j)); if (want[i].back() == "died" || want[i].back().compare(0, 7, "refused") == 0) { c->Violation("twin-child", "a process of its own: %s", want[i].back().c_str()); return; } } differ |= want[i] != want[0]; }
  struct Sticky { Sticky() { gSticky = true; } ~Sticky() { gSticky = false; } } sticky;
  struct Rec { ce_stt_t *r; int k; }; std::vector<Rec> live; int steps = r.Int(6, 12); std::set<ce_stt_t *> seen; long again = 0, n = 0; double keep = r.P(0.5) ? 0 : 0.3;
  for (int s = 0; s < steps; ++s) {
    int k = r.Int(0, K - 1); put(ms[k]);
    if (!r.P(keep)) while (!live.empty()) { ce_stt_destroy(live.back().r); live.pop_back(); }
    Rec x = {Load(c, ms[k]), k}; if (!x.r) return; again += !seen.insert(x.r).second; live.push_back(x);
    for (int t = r.Int(1, 2); t > 0; --t) {
      Rec &y = t == 1 ? live.back() : live[r.Int(0, (int)live.size() - 1)]; int q = r.Int(0, (int)jobs.size() - 1); std::string got = Plain(y.r, jobs[q]); ++n;
      if (got != want[y.k][q]) { int as = -1; for (int z = 0; z < K; ++z) if (got == want[z][q]) as = z; c->Violation("twin", "model %d of %d that differ in part %d only, load %d, %zu recognisers alive: gives '%s' instead of '%s'%s", y.k, K, kind, s, live.size(), got.substr(got.size() > 80 ? got.size() - 80 : 0).c_str(), want[y.k][q].substr(want[y.k][q].size() > 80 ? want[y.k][q].size() - 80 : 0).c_str(), as >= 0 ? " (the result of another model)" : ""); return; }
    }
  }
  while (!live.empty()) { ce_stt_destroy(live.back().r); live.pop_back(); }
  c->Count("twin_models", K); c->Count("twin_decodes", n); c->Count("twin_loads", steps); c->Count("twin_same_address", again); c->Count("twin_with_lm", base.lm != nullptr); if (differ) c->Count("twins_that_differ");
  c->nontrivial = differ; for (auto &v : want) for (auto &x : v) c->SigS(x); c->Sig(steps);
  c->Sample("%d models that differ in part %d, %d loads in one place, %ld decodes as in a process of their own", K, kind, steps, n);
}

// ------------------------------------------------------------------ C25
static bool BadCall(Ctx *c, Rng *r, ce_stt_t *rec, ce_utt_t *u, const Model &m, const std::string &tmp);
static void HistCase(Ctx *c) {
  Rng r = c->R(25); bool small = c->flavor == "vg"; Model m; RandModel(&m, &r, small ? 0 : 0.15, small ? 0 : 0.03); m.Write(c->Path("m"), &r);
  ce_stt_t *rec = Load(c, m); if (!rec) return; std::string tmp = c->Path("bad"); mkdir(tmp.c_str(), 0755);
  struct U { ce_utt_t *u; int bits; int ended; }; std::vector<U> us; int ops = small ? r.Int(4, 8) : r.Int(5, 60); long fed = 0, late = 0; size_t peak = 0;
  for (int i = 0; i < ops; ++i) {
    double k = r.Uni();
    if (us.empty() || (k < 0.15 && us.size() < 6)) { int bits = r.P(0.5) ? 16 : r.P(0.5) ? 8 : 32; U x = {Utt(c, rec, bits), bits, 0}; if (!x.u) return; us.push_back(x); peak = std::max(peak, us.size()); }
    else {
      size_t w = r.Int(0, (int)us.size() - 1); U &x = us[w];
      if (k < 0.75) {
        std::string b; if (r.P(0.5)) { Audio a = RandAudio(&r, r.LogInt(1, small ? 1500 : 9000), false); b = a.bytes; } else { b.resize(r.LogInt(1, small ? 2000 : 20000)); int style = r.Int(0, 3); for (auto &ch : b) ch = style == 0 ? (char)r.Next() : style == 1 ? (char)0x80 : style == 2 ? (char)0x7f : (char)0; }
        int32_t n = Feed(x.u, b, 0, b.size()); if (n < 0) { c->Violation("hist-process", "valid audio refused: %s", ce_stt_last_error()); return; } fed += (long)b.size(); if (x.ended) ++late;
      } else if (k < 0.88) { ce_stt_end_of_stream(x.u); ++x.ended; }
      else if (k < 0.94) { if (!BadCall(c, &r, rec, x.u, m, tmp)) return; }   // also with names longer than any buffer
      else { ce_utt_destroy(x.u); us.erase(us.begin() + w); continue; }
      // read the results: a NUL-terminated string of known words, a number
      std::vector<int> ids; if (!ParseHyp(m, std::string(x.u->hyp, strnlen(x.u->hyp, 1 << 22)), &ids)) { c->Violation("hist-text", "transcript '%.200s' is not a sequence of words", x.u->hyp); return; }
      float s = x.u->loglikelihood_per_frame; if (s > 0) c->Count("positive_scores"); c->Count("reads");
    }
  }
  while (!us.empty()) { size_t w = r.Int(0, (int)us.size() - 1); ce_utt_destroy(us[w].u); us.erase(us.begin() + w); }
  ce_stt_destroy(rec);
  c->Count("calls", ops); c->Count("bytes_fed", fed); c->Count("calls_after_end", late); c->Max("utterances_alive", (long long)peak);
  c->nontrivial = fed > 0; c->Sig(ops); c->Sig(fed); c->Sig(late);
  c->Sample("%d calls on up to %zu utterances, %ld bytes, %ld calls after the end: clean", ops, peak, fed, late);
}

// ------------------------------------------------------------------ C26
// refused requests of one thread beside the work of the others
static bool Refused(ce_stt_t *rec, ce_utt_t *u, int k, std::string *msg) {
  char b[4] = {1, 2, 3, 4}; bool ok = false; ce_wave_format_t f = Fmt(16);
  if (k == 0) ok = ce_stt_process(u, nullptr, 4) == CE_STT_FAILED; else if (k == 1) ok = ce_stt_process(u, b, 0) == CE_STT_FAILED; else if (k == 2) ok = ce_stt_process(nullptr, b, 4) == CE_STT_FAILED;
  else if (k == 3) { f.sample_rate = 8000; ok = ce_utt_init(rec, &f) == nullptr; } else if (k == 4) { f.num_channels = 2; ok = ce_utt_init(rec, &f) == nullptr; } else ok = ce_stt_init("/nonexistent/model.conf") == nullptr;
  const char *e = ce_stt_last_error(); *msg = std::string(e, strnlen(e, 2047)); return ok && !msg->empty();
}
struct Shared { std::string refusal[6]; long refused, loaded; Ctx *c; std::vector<ce_stt_t *> recs; std::vector<Job> *jobs; pthread_barrier_t bar; pthread_mutex_t mu; std::string bad; long done; uint64_t salt; bool own; const std::vector<Model> *ms; };
struct ThArg { Shared *s; int id; };
static void *Worker(void *p) {
  ThArg *a = (ThArg *)p; Shared *s = a->s; Rng r(s->salt * 977 + a->id); pthread_barrier_wait(&s->bar);
  int rounds = r.Int(1, 3); long refused = 0, loaded = 0; double pbad = r.P(0.4) ? 0.3 : 0;
  for (int k = 0; k < rounds; ++k) {
    const Job &j = (*s->jobs)[r.Int(0, (int)s->jobs->size() - 1)]; ce_wave_format_t f = Fmt(j.a.bits); std::string err; ce_stt_t *rec = s->recs[j.model], *mine = nullptr;
    if (r.P(0.08)) { mine = rec = ce_stt_init((*s->ms)[j.model].Conf().c_str()); ++loaded; if (!rec) { err = "a valid model is refused while others decode"; rec = s->recs[j.model]; } }   // its own recogniser
    ce_utt_t *u = ce_utt_init(rec, &f);
    if (!u) err = "utterance refused";
    else {
      size_t pos = 0; bool abandon = r.P(0.1);
      for (size_t i = 0; i < j.cut.size() && err.empty(); ++i) { if (abandon && r.P(0.3)) break; Feed(u, j.a.bytes, pos, j.cut[i] - pos); pos = j.cut[i]; if (j.partial[i] != u->hyp) err = "partial transcript '" + std::string(u->hyp) + "', alone '" + j.partial[i] + "'"; if (r.P(0.05)) usleep(r.Int(0, 300)); if (err.empty() && r.P(pbad)) { int q = r.Int(0, 5); std::string m; ++refused; if (!Refused(rec, u, q, &m)) err = "an invalid request is not refused"; else if (m != s->refusal[q]) err = "the message of a refused request is '" + m + "', alone '" + s->refusal[q] + "'"; } }
      if (!abandon && err.empty()) { ce_stt_end_of_stream(u); if (j.hyp != u->hyp || memcmp(&j.score, &u->loglikelihood_per_frame, 4)) err = "'" + std::string(u->hyp) + "' " + std::to_string(u->loglikelihood_per_frame) + ", alone '" + j.hyp + "' " + std::to_string(j.score); }
      ce_utt_destroy(u);
    }
    if (mine) ce_stt_destroy(mine);
    pthread_mutex_lock(&s->mu); ++s->done; if (!err.empty() && s->bad.empty()) s->bad = err; pthread_mutex_unlock(&s->mu);
  }
  pthread_mutex_lock(&s->mu); s->refused += refused; s->loaded += loaded; pthread_mutex_unlock(&s->mu);
  return nullptr;
}
static void ThreadCase(Ctx *c) {
  Rng r = c->R(26); bool tsan = c->flavor == "tsan"; int M = r.P(0.2) ? 2 : 1; std::vector<Model> ms(M); Shared s; s.c = c; s.done = s.refused = s.loaded = 0; s.salt = r.Next(); s.ms = &ms;
  for (int i = 0; i < M; ++i) { RandModel(&ms[i], &r, 0.4, 0.03); ms[i].Write(c->Path("m" + std::to_string(i)), &r); ce_stt_t *x = Load(c, ms[i]); if (!x) return; s.recs.push_back(x); }
  std::vector<Job> jobs; int J = r.Int(1, 3); for (int i = 0; i < J; ++i) { jobs.push_back(RandJob(&r, M, tsan ? 5000 : 14000, false)); if (!RunJob(c, s.recs[jobs[i].model], &jobs[i], true)) return; }
  if (r.P(0.5)) { for (int i = 0; i < M; ++i) { ce_stt_destroy(s.recs[i]); s.recs[i] = Load(c, ms[i]); if (!s.recs[i]) return; } }   // threads start on a fresh recogniser
  { ce_wave_format_t f = Fmt(16); ce_utt_t *u = ce_utt_init(s.recs[0], &f); if (!u) _exit(98); for (int q = 0; q < 6; ++q) if (!Refused(s.recs[0], u, q, &s.refusal[q])) { c->Violation("not-refused", "invalid request %d", q); return; } ce_utt_destroy(u); }
  int T = r.P(tsan ? 0.05 : 0.08) ? r.Int(tsan ? 20 : 40, tsan ? 70 : 150) : r.Int(2, tsan ? 6 : 10); c->Max("threads_at_once", T); s.jobs = &jobs; pthread_barrier_init(&s.bar, nullptr, T); pthread_mutex_init(&s.mu, nullptr); std::vector<pthread_t> th(T); std::vector<ThArg> arg(T);
  for (int i = 0; i < T; ++i) { arg[i].s = &s; arg[i].id = i; if (pthread_create(&th[i], nullptr, Worker, &arg[i])) _exit(98); }
  for (auto &t : th) pthread_join(t, nullptr);
  pthread_barrier_destroy(&s.bar); pthread_mutex_destroy(&s.mu); for (auto x : s.recs) ce_stt_destroy(x);
  if (!s.bad.empty()) { c->Violation("concurrent", "%d threads: %s", T, s.bad.c_str()); return; }
  c->Count("concurrent_utterances", s.done); c->Count("threads", T); c->Count("refused_requests", s.refused); c->Count("own_recognisers", s.loaded); c->nontrivial = s.done > 1; c->Sig(T); c->Sig(s.done); for (auto &j : jobs) { c->SigS(j.hyp); c->SigD(j.score); }
  c->Sample("%d threads, %ld utterances of %d recogniser(s)%s: results as alone ('%s' ...)", T, s.done, M, ms[0].lm ? " with second LM" : "", jobs[0].hyp.substr(0, 40).c_str());
}

// ------------------------------------------------------------------ C30
static bool Msg(Ctx *c, const char *what) {
  const char *e = ce_stt_last_error(); size_t n = strnlen(e, 2048);
  if (n == 0 || n >= 2048) { c->Violation("message", "%s: error message %s", what, n ? "is not terminated within its 2048 bytes" : "is empty"); return false; }
  return true;
}
static bool BadCall(Ctx *c, Rng *r, ce_stt_t *rec, ce_utt_t *u, const Model &m, const std::string &tmp) {
  (void)m; char buf[64]; memset(buf, 7, sizeof buf); const char *what = ""; bool ok = true;
  switch (r->Int(0, 8)) {
    case 0: what = "null utterance"; ok = ce_stt_process(nullptr, buf, r->Int(-2, 40)) == CE_STT_FAILED; break;
    case 1: what = "null buffer"; ok = ce_stt_process(u, nullptr, r->Int(-1, 1000)) == CE_STT_FAILED; break;
    case 2: { what = "non-positive size"; int n = r->P(0.3) ? 0 : r->P(0.3) ? INT32_MIN : r->Int(-5000, -1); ok = ce_stt_process(u, buf, n) == CE_STT_FAILED; break; }
    case 3: what = "end of a null utterance"; ce_stt_end_of_stream(nullptr); break;
    case 4: { what = "unsupported format"; ce_wave_format_t f = Fmt(16); switch (r->Int(0, 2)) { case 0: f.num_channels = r->P(0.5) ? 2 : r->Int(-3, 0); break; case 1: f.sample_rate = r->P(0.5) ? 8000 : r->Int(-1, 15999); break; default: f.bits_per_sample = r->P(0.5) ? 24 : r->P(0.5) ? 0 : r->Int(33, 100); } ce_utt_t *x = ce_utt_init(rec, &f); ok = x == nullptr; break; }
    case 5: { what = "missing model"; std::string p = tmp + "/"; int len = r->P(0.4) ? r->Int(1, 30) : r->P(0.5) ? r->Int(1900, 2200) : r->Int(30, 4000); while ((int)p.size() < len) p += r->P(0.02) ? '/' : 'n'; ok = ce_stt_init(p.c_str()) == nullptr; break; }
    case 6: {   // the failing file name comes from the configuration
      what = "model with a missing file"; std::string p = tmp + "/bad.conf"; int len = r->P(0.3) ? r->Int(1, 30) : r->P(0.5) ? r->Int(1900, 2200) : r->Int(30, 3900); std::string n; while ((int)n.size() < len) n += 'q';
      WriteFile(p, "fst=" + n + "\nnnet=" + n + "\n"); ok = ce_stt_init(p.c_str()) == nullptr; break; }
    case 7: { what = "wave header"; std::string p = tmp + "/bad.wav"; std::string b = WavBytes(RandAudio(r, 4, true)).substr(0, 44); if (r->P(0.4)) b.resize(r->Int(0, 43)); else b[r->P(0.5) ? r->Int(0, 3) : r->P(0.5) ? r->Int(8, 20) : r->Int(28, 39)] ^= (char)(1 << r->Int(0, 6)); WriteFile(p, b); FILE *f = fopen(p.c_str(), "rb"); ce_wave_format_t w; ok = ce_read_pcm_header(f, &w) == nullptr; fclose(f); break; }
    default: { what = "utterance without internals"; ce_utt_t e; memset(&e, 0, sizeof e); if (r->P(0.5)) ok = ce_stt_process(&e, buf, 10) == CE_STT_FAILED; else ce_stt_end_of_stream(&e); if (e.hyp || e.internal) ok = false; }
  }
  if (!ok) { c->Violation("not-refused", "%s: no failure value", what); return false; }
  c->Count("refused");
  return Msg(c, what);
}
static void BadCase(Ctx *c) {
  Rng r = c->R(30); Model m; RandModel(&m, &r, 0.15); m.Write(c->Path("m"), &r); ce_stt_t *rec = Load(c, m); if (!rec) return;
  std::string tmp = c->Path("bad"); mkdir(tmp.c_str(), 0755);
  Job j = RandJob(&r, 1, 9000, false); if (j.cut.size() > 60) { std::vector<size_t> k; for (size_t i = 0; i < j.cut.size(); ++i) if (i % (j.cut.size() / 50) == 0 || i + 1 == j.cut.size()) k.push_back(j.cut[i]); j.cut = k; }
  if (!RunJob(c, rec, &j, true)) return;
  for (int rep = 0; rep < 2; ++rep) {
    ce_utt_t *u = Utt(c, rec, j.a.bits); if (!u) return; size_t p = 0; long bad = 0;
    for (size_t i = 0; i <= j.cut.size(); ++i) {
      for (int k = r.P(0.5) ? r.Int(1, 3) : 0; k > 0; --k, ++bad) {
        std::string before = u->hyp; float sb = u->loglikelihood_per_frame;
        if (!BadCall(c, &r, rec, u, m, tmp)) return;
        if (before != u->hyp || memcmp(&sb, &u->loglikelihood_per_frame, 4)) { c->Violation("changed", "a refused request changed the transcript from '%s' to '%s'", before.c_str(), u->hyp); return; }
      }
      if (i == j.cut.size()) break;
      Feed(u, j.a.bytes, p, j.cut[i] - p); p = j.cut[i];
      if (j.partial[i] != u->hyp) { c->Violation("after-refusal", "after %ld refused requests, call %zu gives '%s' instead of '%s'", bad, i, u->hyp, j.partial[i].c_str()); return; }
    }
    ce_stt_end_of_stream(u);
    if (j.hyp != u->hyp || memcmp(&j.score, &u->loglikelihood_per_frame, 4)) { c->Violation("after-refusal", "after %ld refused requests: '%s' %.9g instead of '%s' %.9g", bad, u->hyp, u->loglikelihood_per_frame, j.hyp.c_str(), j.score); return; }
    ce_utt_destroy(u); c->Sig(bad);
  }
  ce_stt_destroy(rec); c->nontrivial = true; c->SigS(j.hyp); c->Sig(j.cut.size());
  c->Sample("%zu calls with refused requests in between: '%s' as without them", j.cut.size(), j.hyp.substr(0, 60).c_str());
}

// ------------------------------------------------------------------ C09
static void MemCase(Ctx *c) {
  Rng r = c->R(9); Model m;
  if (c->cur % 2 == 0) {
    // repeated use: live memory returns to where it was
    RandModel(&m, &r, 0.3); m.Write(c->Path("m"), &r); Audio a = RandAudio(&r, r.LogInt(300, 9000), false); std::vector<long> at; const int passes = 10; int cycles = r.Int(1, 5), one = r.P(0.5) ? r.Int(0, 4) : -1; bool keep = r.P(0.4); ce_stt_t *rec = nullptr; at.reserve(100); uint64_t seed = r.Next();
    if (keep && !(rec = Load(c, m))) return;
    std::string broken = c->Path("broken.conf"); std::string txt = m.ConfText(false, &r);
    { std::vector<std::string> keys = {"nnet=", "prior=", "tid2pdf=", "symbol_table=", "fst=", "num_pdfs=", "left_context="}; if (m.lm) { keys.push_back("large_lm="); keys.push_back("original_lm="); } std::string k = r.Pick(keys); size_t p = txt.find(k); txt.replace(p + k.size(), 0, "no"); std::string ab; size_t i = 0; while (i < txt.size()) { size_t e = txt.find('\n', i); std::string l = txt.substr(i, e - i); size_t q = l.find('='); std::string v = l.substr(q + 1); if (isdigit((unsigned char)v[0]) || l.find("no" + std::string()) == q + 1) ab += l; else ab += l.substr(0, q + 1) + m.dir + "/" + v; ab += "\n"; i = e + 1; } WriteFile(broken, ab); }
    static const char *names[] = {"created and destroyed", "fed and ended", "abandoned half-way", "refused format", "failed initialisation"};
    // the same history several times over: nothing may be held in addition after a further pass
    for (int pass = 0; pass < passes; ++pass) {
    Rng r(seed);
    for (int k = 0; k < cycles; ++k) {
      int kind = one >= 0 ? one : r.Int(0, 4); ce_stt_t *x = keep ? rec : nullptr; if (kind != 4 && !keep) { x = Load(c, m); if (!x) return; }
      if (kind == 4) { if (ce_stt_init(broken.c_str())) { c->Violation("init-broken", "a model with a missing file gives a recogniser"); return; } }
      else if (kind == 3) { ce_wave_format_t f = Fmt(24); if (ce_utt_init(x, &f)) { c->Violation("format", "24 bits accepted"); return; } }
      else { ce_utt_t *u = Utt(c, x, a.bits); if (!u) return; if (kind == 1) { Feed(u, a.bytes, 0, a.bytes.size()); ce_stt_end_of_stream(u); if (r.P(0.5)) ce_stt_end_of_stream(u); } if (kind == 2) { size_t p = 0; while (p < a.bytes.size() * 2 / 3) { size_t q = Piece(&r, 2, a.bytes.size() - p); Feed(u, a.bytes, p, q); p += q; } } ce_utt_destroy(u); }
      if (kind != 4 && !keep) ce_stt_destroy(x);
    }
    at.push_back(Live() + OpenFiles() * (1L << 20));
    // the first passes may fill one-time tables
    if (pass >= 2 && at[pass] <= at[pass - 1]) break;
    }
    if (keep) ce_stt_destroy(rec);
    const char *name = one >= 0 ? names[one] : "mixed use";
    if ((int)at.size() == passes) { c->Violation("leak", "%s%s, %d cycles: live bytes (and 1 MiB per open file) after repetitions 1, 2, 3, 9, 10: %ld %ld %ld %ld %ld", name, keep ? " (one recogniser)" : "", cycles, at[0], at[1], at[2], at[8], at[9]); return; }
    c->Count("cycles", (long long)at.size() * cycles); c->nontrivial = true; c->Sig(one); c->Sig(keep); c->Sig(cycles); c->Sig(a.s.size()); c->Sig(m.g.n());
    c->Sample("%zu repetitions of %d cycles '%s'%s: live bytes stay at %ld", at.size(), cycles, name, keep ? " on one recogniser" : "", at.back());
    return;
  }
  // a long stream: memory follows the transcript, not the frames
  RandModel(&m, &r, 0.2); for (auto &v : m.g.arcs) for (auto &a : v) if (a.ol && !r.P(0.1)) a.w += 8; m.chunk = std::min(m.chunk, 40);
  for (int i = 0; i < m.g.n(); ++i) m.g.Add(i, i, r.Int(1, m.tids), 0, 0.1);
  m.Write(c->Path("m"), &r); ce_stt_t *rec = Load(c, m); if (!rec) return; int sec = c->thorough ? 600 : 120; int bits = r.P(0.6) ? 16 : r.P(0.7) ? 32 : 8, style = r.Int(0, 2); std::string pend; size_t fed = 0; ce_utt_t *u = Utt(c, rec, bits); if (!u) return; std::vector<long> live; live.reserve(sec * 2); size_t text = 0; size_t t1 = 0;
  for (int i = 0; i < sec * 2; ++i) { Rng q(r.Next()); Audio a = RandAudio(&q, 8000, false); while (a.bits != bits) a = RandAudio(&q, 8000, false);
    // 0: calls end with the half second; 1: half a sample is always pending;
    // 2: one call per half second, shifted inside a sample
    size_t hold = style == 0 || bits == 8 ? 0 : q.Int(1, bits / 8 - 1); if (style == 2) hold = bits / 8 - 1; pend += a.bytes; size_t p = 0, end = pend.size() - hold;
    while (p < end) { size_t k = style == 2 ? end - p : Piece(&q, 4, end - p); if (style == 1 && bits > 8 && (fed + k) % (bits / 8) == 0) { if (p + k < end) ++k; else if (k > 1) --k; } Feed(u, pend, p, k); p += k; fed += k; }
    pend = pend.substr(p); a = Audio(); live.push_back(Live() - (long)pend.capacity()); text = strlen(u->hyp); if (i == sec) t1 = text; }
  long A = 0, B = 0; int n = (int)live.size(); for (int i = n / 8; i < n / 2; ++i) A = std::max(A, live[i]); for (int i = n / 2; i < n; ++i) B = std::max(B, live[i]);
  ce_stt_end_of_stream(u); ce_utt_destroy(u); ce_stt_destroy(rec); (void)t1;
  // the word history may cost up to 400 bytes per word of the transcript
  if (B - A > 1000000 + 400L * (long)text) { c->Violation("stream-memory", "%d s streamed, transcript of %zu bytes: live memory grew from %ld to %ld bytes", sec, text, A, B); return; }
  c->Count("streamed_seconds", sec); c->Max("growth_bytes", B - A); c->Count(style == 0 ? "streams_cut_at_samples" : "streams_cut_inside_samples"); c->nontrivial = true; c->Sig(B); c->Sig(text);
  c->Sample("%d s stream, transcript %zu bytes: at most %ld bytes live, %ld more than in the first half", sec, text, B, B - A);
}

int main(int argc, char **argv) {
  std::map<std::string, CaseFn> m;
  m["split"] = SplitCase; m["best"] = BestCase; m["iso"] = IsoCase; m["many"] = ManyCase; m["twins"] = TwinCase; m["hist"] = HistCase; m["threads"] = ThreadCase; m["bad"] = BadCase; m["partial"] = PartialCase; m["mem"] = MemCase;
  return Main(argc, argv, m);
}
