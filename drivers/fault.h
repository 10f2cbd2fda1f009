// A complete model whose initialisation must fail while a fault lasts.
#ifndef VERIF_FAULT_H
#define VERIF_FAULT_H
#include <malloc.h>
#include <functional>
#include "e2e.h"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static long Live() { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
static long Live() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
#endif
using namespace vf;

struct World {
  Ctx *c; Model m; std::map<std::string, std::string> files; std::string conf; Audio a; std::string hyp; float score; long faults; int slot;
  std::string P(const std::string &f) const { return m.dir + "/" + f; }
};
static bool Decode(World *w, const std::string &conf, std::string *hyp, float *score) {
  ce_stt_t *r = ce_stt_init(conf.c_str()); if (!r) return false;
  ce_wave_format_t f = Fmt(w->a.bits); ce_utt_t *u = ce_utt_init(r, &f); if (!u) { ce_stt_destroy(r); return false; }
  ce_stt_process(u, w->a.bytes.data(), (int32_t)w->a.bytes.size()); ce_stt_end_of_stream(u); *hyp = u->hyp; *score = u->loglikelihood_per_frame; ce_utt_destroy(u); ce_stt_destroy(r); return true;
}
static bool Repaired(World *w, const std::string &what) {
  std::string h; float s;
  if (!Decode(w, w->conf, &h, &s)) { w->c->Violation("repair", "after %s: the repaired model is refused: %s", what.c_str(), ce_stt_last_error()); return false; }
  if (h != w->hyp || memcmp(&s, &w->score, 4)) { w->c->Violation("repair", "after %s: '%s' %.9g instead of '%s' %.9g", what.c_str(), h.c_str(), s, w->hyp.c_str(), w->score); return false; }
  w->c->Count("repaired"); return true;
}
// one faulty model: `conf` is what is initialised
static bool Refuses(World *w, const std::string &conf, const std::string &what, const std::string &kind, const std::function<void()> &before = nullptr) {
  const int kMax = 10; long live[kMax]; int n = 0; std::string msg;
  for (; n < kMax; ++n) {
    ce_stt_process(nullptr, "x", 1); std::string sentinel = ce_stt_last_error(); if (before) before();
    ce_stt_t *r = ce_stt_init(conf.c_str());
    if (r) { w->c->Violation("accepted:" + kind, "%s: initialisation returns a recogniser", what.c_str()); return false; }
    const char *e = ce_stt_last_error(); size_t k = strnlen(e, 2048);
    if (k == 0 || k >= 2048 || sentinel == e) { w->c->Violation("message:" + kind, "%s: %s", what.c_str(), k == 0 ? "no error message" : k >= 2048 ? "unterminated message" : "the error message is the one of the call before"); return false; }
    msg = e; std::string().swap(sentinel); live[n] = Live() + OpenFiles() * (1L << 20);
    // one-time buffers may appear once; a leak grows every time
    if (n >= 1 && live[n] <= live[n - 1]) break;
  }
  if (n == kMax) { w->c->Violation("leak:" + kind, "%s: live bytes (and 1 MiB per open file) after failed initialisations 1, 2, 3, 9, 10: %ld %ld %ld %ld %ld", what.c_str(), live[0], live[1], live[2], live[8], live[9]); return false; }
  ++w->faults; w->c->Count("refused_" + kind); w->c->SigS(kind);
  return true;
}
static void Put32(std::string *s, size_t at, int32_t v) { memcpy(&(*s)[at], &v, 4); }
static int32_t Get32(const std::string &s, size_t at) { int32_t v; memcpy(&v, &s[at], 4); return v; }
static std::vector<size_t> FindAll(const std::string &s, const char *k) { std::vector<size_t> v; size_t n = strlen(k); for (size_t p = s.find(k); p != std::string::npos; p = s.find(k, p + n)) v.push_back(p); return v; }

#endif
