// Work per piece of audio, counted in executed basic blocks (C34).
#include "am.h"
#include "decoder.h"
#include "fbank.h"
#include "e2e.h"
using namespace vf;
using pocketkaldi::Decoder;
using pocketkaldi::Vector;
#define NOCOV __attribute__((no_sanitize_coverage))
static thread_local unsigned long gWork;
extern "C" NOCOV void __sanitizer_cov_trace_pc(void) { ++gWork; }
// bulk memory operations (also those inside the C++ library) count too: 16 bytes a block
extern "C" {
NOCOV void *memcpy(void *d, const void *s, size_t n) { gWork += n / 16; void *r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
NOCOV void *memset(void *d, int v, size_t n) { gWork += n / 16; void *r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
NOCOV void *memmove(void *d, const void *s, size_t n) {
  if ((uintptr_t)d - (uintptr_t)s >= n) return memcpy(d, s, n);
  gWork += n / 16; void *r = d; char *de = (char *)d + n - 1; const char *se = (const char *)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(de), "+S"(se), "+c"(n) : : "memory"); return r;
}
}
static long Since(unsigned long t) { return (long)(gWork - t); }
static ce_stt_t *Load(Ctx *c, const Model &m) { ce_stt_t *r = ce_stt_init(m.Conf().c_str()); if (!r) c->Violation("init", "a valid model is refused: %s", ce_stt_last_error()); return r; }
static ce_utt_t *Utt(Ctx *c, ce_stt_t *r, int bits) { ce_wave_format_t f = Fmt(bits); ce_utt_t *u = ce_utt_init(r, &f); if (!u) c->Violation("utt-init", "utterance refused: %s", ce_stt_last_error()); return u; }
// the same audio over and over again in one utterance
static void StreamCase(Ctx *c) {
  Rng r = c->R(35); Model m; RandModel(&m, &r, 0.3);
  bool words = r.P(0.4); for (int i = 0; i < m.g.n(); ++i) m.g.Add(i, i, r.Int(1, m.tids), 0, 0.1);
  if (!words) for (auto &v : m.g.arcs) for (auto &a : v) if (a.ol && !r.P(0.05)) a.ol = 0;
  m.chunk = std::min(m.chunk, 20); m.Write(c->Path("m"), &r); ce_stt_t *rec = Load(c, m); if (!rec) return;
  Audio a = RandAudio(&r, r.Int(20, 60) * 160, true); int per = (int)(16000 * 0.8 / a.s.size()) + 1, n = c->thorough ? 240 : 48; std::string b; for (int i = 0; i < per; ++i) b += a.bytes;
  int style = r.Int(0, 4); std::vector<size_t> cut; for (size_t p = 0; p < b.size();) { size_t k = style == 0 ? b.size() : style == 1 ? 1024 : style == 2 ? (size_t)r.LogInt(1, 3000) : style == 3 ? (size_t)r.Int(300, 700) : (size_t)r.LogInt(3000, 40000); k = std::min(k, b.size() - p); cut.push_back(k); p += k; }
  ce_utt_t *u = Utt(c, rec, a.bits); if (!u) return; std::vector<long> w; std::vector<size_t> text; long calls = 0;
  for (int i = 0; i < n; ++i) { unsigned long t = gWork; size_t p = 0; for (size_t k : cut) { ce_stt_process(u, b.data() + p, (int32_t)k); p += k; ++calls; } w.push_back(Since(t)); text.push_back(strlen(u->hyp)); }
  ce_stt_end_of_stream(u); ce_utt_destroy(u); ce_stt_destroy(rec);
  long A = 0, B = 0; for (int i = 1; i < n / 4; ++i) A = std::max(A, w[i]); for (int i = 3 * n / 4; i < n; ++i) B = std::max(B, w[i]);
  // every 20 frames the transcript is written anew and the history is walked through
  double refresh = b.size() / a.bps() / 160.0 / 20 + 1; double allow = refresh * 24.0 * (double)(text.back()) + 20000;
  if (getenv("VERIF_SHOW")) fprintf(stderr, "stream A=%ld B=%ld ratio %.3f text %zu per char %.2f\n", A, B, (double)B / A, text.back(), (B - A) / refresh / (text.back() + 1));
  if (B > 1.15 * A + allow) { c->Violation("stream-work", "%d times the same %.1f s of audio in one utterance, transcript of %zu bytes: at most %ld blocks in each of the first %d, %ld in the last quarter", n, b.size() / a.bps() / 16000.0, text.back(), A, n / 4, B); return; }
  c->Count("periods", n); c->Count("calls", calls); c->Max("growth_percent", (long long)(100.0 * (B - A) / A)); c->nontrivial = true; c->Sig(A); c->Sig(style);
  c->Sample("%d times the same %.1f s: at most %ld blocks at first, %ld at the end, transcript of %zu bytes", n, b.size() / a.bps() / 16000.0, A, B, text.back());
}
// the same utterance again and again with one recogniser, others in between
static void RepeatCase(Ctx *c) {
  Rng r = c->R(36); Model m; RandModel(&m, &r, 0.5, 0.03); m.Write(c->Path("m"), &r); ce_stt_t *rec = Load(c, m); if (!rec) return;
  Audio a = RandAudio(&r, r.LogInt(400, 12000), true), b = RandAudio(&r, r.LogInt(400, 12000), false); std::vector<long> w; int n = c->thorough ? 60 : 16; int other = r.Int(0, 3); bool reload = r.P(0.3); long load = 0;
  for (int i = 0; i < n; ++i) {
    unsigned long t = gWork; if (reload && i) { ce_stt_destroy(rec); rec = Load(c, m); if (!rec) return; }
    load = Since(t); t = gWork; ce_utt_t *u = Utt(c, rec, a.bits); if (!u) return; ce_stt_process(u, a.bytes.data(), (int32_t)a.bytes.size()); ce_stt_end_of_stream(u); ce_utt_destroy(u); w.push_back(Since(t) + load);
    if (other && i % other == 0) { u = Utt(c, rec, b.bits); if (!u) return; ce_stt_process(u, b.bytes.data(), (int32_t)b.bytes.size()); if (r.P(0.5)) ce_stt_end_of_stream(u); ce_utt_destroy(u); }
  }
  ce_stt_destroy(rec); long A = std::max(w[0], std::max(w[1], w[2])), B = 0; for (int i = n / 2; i < n; ++i) B = std::max(B, w[i]);
  if (getenv("VERIF_SHOW")) fprintf(stderr, "repeat A=%ld B=%ld ratio %.3f\n", A, B, (double)B / A);
  if (B > 1.1 * A + 5000) { c->Violation("repeat-work", "the same %zu samples decoded %d times%s: at most %ld blocks in the first three, %ld in the second half", a.s.size(), n, reload ? ", recogniser reloaded" : "", A, B); return; }
  c->Count("utterances", n); c->nontrivial = true; c->Sig(A); c->Sig(other); c->Sample("the same %zu samples %d times: %ld blocks at first, %ld later", a.s.size(), n, A, B);
}
static std::unique_ptr<fst::Fst<fst::StdArc> > ToFst(const Graph &g) {
  fst::VectorFst<fst::StdArc> f; for (int i = 0; i < g.n(); ++i) f.AddState(); f.SetStart(g.start);
  for (int i = 0; i < g.n(); ++i) { if (g.fin[i] != INFINITY) f.SetFinal(i, fst::TropicalWeight((float)g.fin[i])); for (auto &a : g.arcs[i]) f.AddArc(i, fst::StdArc(a.il, a.ol, fst::TropicalWeight((float)a.w), a.to)); }
  return std::unique_ptr<fst::Fst<fst::StdArc> >(new fst::ConstFst<fst::StdArc>(f));
}
// the search alone, for many frames
static void SearchCase(Ctx *c) {
  Rng r = c->R(37); int n = r.Int(2, 60), V = r.Int(1, 30), tids = r.Int(1, 6); Graph g; g.Resize(n); double pw = r.P(0.2) ? 0 : r.Uni(0.1, 1), wpen = r.Uni(4, 9);
  for (int i = 0; i < n; ++i) {
    g.Add(i, i, 1, 0, r.Uni(0, 0.2)); g.Add(i, (i + 1) % n, r.Int(1, tids), 0, r.Uni(0.5, 2));
    for (int k = r.Int(0, 3); k > 0; --k) { int ol = Word(&r, V, pw); g.Add(i, r.Int(0, n - 1), r.Int(1, tids), ol, r.Uni(0.2, 2) + (ol ? wpen : 0)); }
    if (i + 1 < n && r.P(0.2)) { int ol = Word(&r, V, pw); g.Add(i, r.Int(i + 1, n - 1), 0, ol, r.Uni(0.5, 2) + (ol ? wpen : 0)); }
    g.fin[i] = 0;
  }
  std::unique_ptr<fst::Fst<fst::StdArc> > f = ToFst(g); Vector<int32_t> map(tids + 1); for (int i = 1; i <= tids; ++i) map(i) = i - 1;
  int period = 40 * r.Int(1, 10), seg = 1000 / period * period + period, segs = c->thorough ? 40 : 10; std::vector<float> sc((size_t)period * tids); for (auto &x : sc) x = (float)r.Gauss();
  Decoder d(f.get(), map, 0.5f); d.Initialize(); Vector<float> row(tids); std::vector<long> w; long words = 0, bp = 0;
  for (int s = 0; s < segs; ++s) {
    long k = 0; for (int t = 0; t < seg; ++t) { for (int i = 0; i < tids; ++i) row(i) = sc[(size_t)(t % period) * tids + i]; unsigned long a = gWork; d.Process(row); k += Since(a); }
    w.push_back(k); unsigned long a = gWork; words = (long)d.BestPath().words().size(); bp = Since(a);
    if (getenv("VERIF_SHOW") && s == segs - 1) fprintf(stderr, "bestpath %ld words %ld blocks\n", words, bp);
    if (bp > 20000 + 100L * (n + words)) { c->Violation("bestpath-work", "%d states, a hypothesis of %ld words after %d frames takes %ld blocks", n, words, (s + 1) * seg, bp); return; }
  }
  long A = 0, B = 0; for (int s = 1; s < segs / 4; ++s) A = std::max(A, w[s]); for (int s = 3 * segs / 4; s < segs; ++s) B = std::max(B, w[s]); double allow = seg / 20.0 * 40.0 * words;
  if (getenv("VERIF_SHOW")) fprintf(stderr, "search A=%ld B=%ld ratio %.3f words %ld per word %.2f\n", A, B, (double)B / A, words, (B - A) / (seg / 20.0) / (words + 1));
  if (B > 1.02 * A + allow) { c->Violation("search-work", "%d states, %d frames in all, transcript of %ld words: at most %ld blocks for each %d frames at first, %ld at the end", n, segs * seg, words, A, seg, B); return; }
  c->Count("frames", (long long)segs * seg); c->Max("search_growth_percent", (long long)(100.0 * (B - A) / A)); c->nontrivial = true; c->Sig(A); c->Sig(n); c->Sample("%d states, %d frames: at most %ld blocks per %d frames at first, %ld at the end", n, segs * seg, A, seg, B);
}
// more hypotheses than the cap: the work stops growing with the graph
static void CrowdCase(Ctx *c) {
  Rng r = c->R(38); int fan = r.Int(3, 6), base = r.Int(100000, 140000), tids = r.Int(1, 4), T = 7; double wmax = r.P(0.3) ? 0.5 : r.Uni(0.5, 14); long w[2]; int style = r.Int(0, 1); uint64_t seed = r.Next();
  for (int k = 0; k < 2; ++k) {
    Rng q(seed); int n = k ? 4 * base : base; Graph g; g.Resize(n); g.start = 0;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < fan; ++j) g.Add(i, style ? q.Int(0, n - 1) : (int)(((long)i * fan + j + 1) % n), q.Int(1, tids), 0, q.Uni(0, wmax / 3)); g.fin[i] = 0; }
    // everything is reached within a few frames
    for (int j = 0; j < n; j += 7) g.Add(0, j, 1, 0, q.Uni(0, wmax));
    std::unique_ptr<fst::Fst<fst::StdArc> > f = ToFst(g); Vector<int32_t> map(tids + 1); for (int i = 1; i <= tids; ++i) map(i) = i - 1;
    Decoder d(f.get(), map, 0.1f); d.Initialize(); Vector<float> row(tids); long sum = 0;
    for (int t = 0; t < T; ++t) { for (int i = 0; i < tids; ++i) row(i) = (float)q.Gauss(); unsigned long a = gWork; d.Process(row); if (t >= 3) sum += Since(a); }
    w[k] = sum;
  }
  if (getenv("VERIF_SHOW")) fprintf(stderr, "crowd fan %d wmax %.2f style %d: %ld %ld ratio %.3f\n", fan, wmax, style, w[0], w[1], (double)w[1] / w[0]);
  if (w[1] > 2.2 * w[0]) { c->Violation("crowd-work", "%d arcs per state: %ld blocks for %d frames with %d states alive, %ld with %d", fan, w[0], T - 3, base, w[1], 4 * base); return; }
  c->Count("crowds"); c->Max("states", 4 * base); c->nontrivial = true; c->Sig(w[0]); c->Sig(w[1]); c->Sample("%d arcs per state: %ld blocks with %d states, %ld with %d", fan, w[0], base, w[1], 4 * base);
}
// the stages before the search alone: filter banks, then the acoustic model, over very long streams
static bool Flat(Ctx *c, const char *what, const std::vector<long> &w, long per) {
  size_t n = w.size(); long A = 0, B = 0; for (size_t i = 1; i < n / 4; ++i) A = std::max(A, w[i]); for (size_t i = 3 * n / 4; i < n; ++i) B = std::max(B, w[i]);
  if (getenv("VERIF_SHOW")) fprintf(stderr, "%s A=%ld B=%ld ratio %.4f\n", what, A, B, (double)B / A);
  if (B > 1.03 * A + 5000) { c->Violation("front-work", "%s: at most %ld blocks for each %ld frames at first, %ld in the last quarter of %ld frames", what, A, per, B, per * (long)n); return false; }
  c->Count("front_frames", per * (long long)n); c->Sig(A); return true;
}
static void FrontCase(Ctx *c) {
  Rng r = c->R(39); int segs = 20; long frames = c->thorough ? 300000 : 80000, seg = frames / segs;
  if (c->cur % 2) {
    pocketkaldi::Fbank fb; pocketkaldi::Fbank::Instance inst; pocketkaldi::Matrix<float> out; int k = r.P(0.5) ? 160 : r.P(0.5) ? r.Int(100, 400) : r.LogInt(400, 16000); std::vector<int16_t> au(16000); for (auto &x : au) x = (int16_t)(r.Gauss() * 2000);
    std::vector<long> w; long pos = 0; for (int s = 0; s < segs; ++s) { long end = (s + 1) * seg * 160, sum = 0; end -= end % k; for (; pos < end; pos += k) { Vector<float> v(k); for (int i = 0; i < k; ++i) v(i) = au[(pos + i) % 16000]; unsigned long t = gWork; fb.Process(&inst, v, &out); sum += Since(t); } w.push_back(sum); }
    if (!Flat(c, Str("filter banks, pieces of %d samples", k).c_str(), w, seg)) return;
  } else {
    Model m; RandModel(&m, &r, 0); m.chunk = std::min(m.chunk, 60); m.Write(c->Path("m"), &r); pocketkaldi::Configuration conf; pocketkaldi::Status st = conf.Read(m.Conf()); pocketkaldi::AcousticModel am; if (st.ok()) st = am.Read(conf); if (!st.ok()) { c->Violation("read", "valid acoustic model refused: %s", st.what().c_str()); return; }
    pocketkaldi::AcousticModel::Instance inst; pocketkaldi::Matrix<float> out; std::vector<float> f(40 * 1000); for (auto &x : f) x = (float)r.Gauss(); std::vector<long> w; Vector<float> row(40); long rows = 0, t0 = 0; seg -= seg % 1000;
    for (int s = 0; s < segs; ++s) { long sum = 0; for (long t = 0; t < seg; ++t) { for (int i = 0; i < 40; ++i) row(i) = f[(t0 % 1000) * 40 + i]; ++t0; unsigned long a = gWork; am.Process(&inst, row, &out); sum += Since(a); rows += out.NumRows(); } w.push_back(sum); }
    if (!Flat(c, Str("acoustic model, batches of %d", m.chunk).c_str(), w, seg)) return; c->Count("front_rows", rows);
  }
  c->nontrivial = true; c->Sample("front end: %ld frames, work per %ld frames constant", frames, seg);
}
int main(int argc, char **argv) { std::map<std::string, CaseFn> m; m["stream"] = StreamCase; m["repeat"] = RepeatCase; m["search"] = SearchCase; m["crowd"] = CrowdCase; m["front"] = FrontCase; return Main(argc, argv, m); }
