// Read errors while a model is loaded or a wave header is read.
#include "fault.h"
#include "ioshim.h"

static void LoadCase(Ctx *c) {
  Rng r = c->R(33); World w; w.c = c; w.faults = 0; w.slot = 0;
  RandModel(&w.m, &r, r.P(0.5) ? 1 : 0, 0.05); w.m.Write(c->Path("m"), &r); w.conf = w.m.Conf(); std::string text = w.m.ConfText(false, &r); if (r.P(0.3)) text.insert(r.P(0.5) ? 0 : text.size(), "# " + std::string(r.Int(4000, 20000), r.P(0.5) ? '#' : 'x') + (r.P(0.5) ? "= 1" : "") + "\n"); WriteFile(w.conf, text);
  std::vector<std::string> names = {"HCLG.fst", "final.nnet", "final.prior", "final.map", "words.txt", "model.conf"}; if (w.m.lm) { names.push_back("large.lm"); names.push_back("orig.lm"); }
  w.a = RandAudio(&r, r.Int(500, 3000), false);
  if (w.conf != w.P("model.conf")) { fprintf(stderr, "harness: conf\n"); _exit(98); }
  if (!Decode(&w, w.conf, &w.hyp, &w.score)) { c->Violation("valid", "a valid model is refused: %s", ce_stt_last_error()); return; }
  std::string what; long fired = 0, n = c->thorough ? 60 : 14;
  for (auto &f : names) {
    std::string p = w.P(f); long size = (long)ReadFile(p).size();
    for (long i = 0; i < n; ++i) {
      long k = i == 0 ? 0 : i == 1 ? size - 1 : r.P(0.2) ? r.Int(0, (int)std::min<long>(size, 64) - 1) : r.P(0.2) && size > 4096 ? (long)r.Int(1, (int)(size / 4096)) * 4096 + r.Int(-1, 0) : r.Int(0, (int)size - 1); int once = r.P(0.4);
      what = Str("%s: %s at byte %ld of %ld", f.c_str(), once ? "one failed read" : "reads fail", k, size);
      ce_stt_process(nullptr, "x", 1); IoFault(p.c_str(), k, once); ce_stt_t *t = ce_stt_init(w.conf.c_str()); bool hit = IoFired() > 0; IoFault(nullptr, 0, 0);
      if (t) { ce_stt_destroy(t); if (hit) { c->Violation("accepted:" + f, "%s: initialisation returns a recogniser", what.c_str()); return; } c->Count("not_reached"); continue; }
      if (!hit) { c->Violation("refused", "%s: refused without a failed read: %s", what.c_str(), ce_stt_last_error()); return; }
      ++fired; bool ok = Refuses(&w, w.conf, what, f, [&]() { IoFault(p.c_str(), k, once); }); IoFault(nullptr, 0, 0); if (!ok) return;
    }
    if (r.P(0.3) && !Repaired(&w, what)) return;
  }
  // a directory where a file is expected
  for (auto &f : names) { std::string p = w.P(f), b = ReadFile(p); if (remove(p.c_str()) || mkdir(p.c_str(), 0755)) _exit(98); what = f + " is a directory"; bool ok = Refuses(&w, w.conf, what, "directory"); if (rmdir(p.c_str())) _exit(98); WriteFile(p, b); if (!ok) return; }
  // wave headers
  std::string wav = c->Path("x.wav"); WriteFile(wav, WavBytes(w.a));
  for (long i = 0; i < n; ++i) {
    long k = r.Int(0, 43); int once = r.P(0.4); ce_wave_format_t f; ce_stt_process(nullptr, "x", 1); std::string before = ce_stt_last_error();
    IoFault(wav.c_str(), k, once); FILE *fd = fopen(wav.c_str(), "rb"); ce_wave_format_t *g = ce_read_pcm_header(fd, &f); bool hit = IoFired() > 0; fclose(fd); IoFault(nullptr, 0, 0);
    if (!hit) { c->Count("not_reached"); continue; }
    if (g) { c->Violation("header", "a wave file whose reads fail at byte %ld of the header is accepted", k); return; }
    std::string e = ce_stt_last_error(); if (e.empty() || e == before) { c->Violation("header-message", "a wave file whose reads fail at byte %ld of the header: %s", k, e.empty() ? "no message" : "the message is the one of the call before"); return; }
    c->Count("refused_headers");
  }
  if (!Repaired(&w, what)) return;
  c->Count("failed_reads", fired); c->nontrivial = fired > 0; c->Sig(fired); c->Sig(w.faults); c->SigS(w.hyp); for (auto &f : names) c->Sig(ReadFile(w.P(f)).size());
  c->Sample("%ld models with a read error refused (last: %s), then the same model without decodes '%s' as before", fired, what.c_str(), w.hyp.substr(0, 40).c_str());
}
int main(int argc, char **argv) { std::map<std::string, CaseFn> m; m["load"] = LoadCase; return Main(argc, argv, m); }
