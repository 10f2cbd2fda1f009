// The command-line program against the library it is built on.
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <csignal>
#include <thread>
#include "e2e.h"
using namespace vf;
static std::string gCli;
struct Proc { int status; long rss; std::string out, err; bool signalled() const { return WIFSIGNALED(status); } int code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : 256; } };
typedef std::vector<std::pair<std::string, std::string> > Env;
static Proc RunCli(Ctx *c, const std::vector<std::string> &args, const std::string &cwd, const Env &env = Env(), const char *to = nullptr) {
  std::string o = c->Path("cli.out"), e = c->Path("cli.err"); fflush(stdout); fflush(stderr);
  pid_t p = fork(); if (p < 0) _exit(98);
  if (p == 0) {
    int fo = to ? open(to, O_WRONLY) : open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), fe = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), fi = open("/dev/null", O_RDONLY);
    dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); if (!cwd.empty() && chdir(cwd.c_str())) _exit(98);
    std::vector<char *> v; v.push_back(const_cast<char *>(gCli.c_str())); for (auto &a : args) v.push_back(const_cast<char *>(a.c_str())); v.push_back(nullptr);
    struct rlimit fds = {24, 24}; setrlimit(RLIMIT_NOFILE, &fds);      // many entries must not need many files at a time
    for (auto &x : env) setenv(x.first.c_str(), x.second.c_str(), 1); execv(gCli.c_str(), v.data()); _exit(98);
  }
  Proc r; int st; struct rusage ru; while (wait4(p, &st, 0, &ru) < 0) {} r.status = st; r.rss = ru.ru_maxrss; r.out = to ? std::string() : ReadFile(o); r.err = ReadFile(e);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 98 && r.out.empty()) { fprintf(stderr, "harness: the program cannot be started\n"); _exit(98); }
  if (r.err.find("runtime error:") != std::string::npos || r.err.find("Sanitizer") != std::string::npos) c->Violation("sanitizer", "%s", r.err.substr(0, 2500).c_str());
  return r;
}
static std::string LibHyp(ce_stt_t *rec, const Audio &a, const std::string &bytes) {
  ce_wave_format_t f = Fmt(a.bits); ce_utt_t *u = ce_utt_init(rec, &f); if (!u) _exit(98);
  if (bytes.size()) ce_stt_process(u, bytes.data(), (int32_t)bytes.size()); ce_stt_end_of_stream(u); std::string h = u->hyp; ce_utt_destroy(u); return h;
}
struct Entry { std::string name, path, hyp; };
static std::string Uniq(Rng *r, int i) { static const char *n[] = {"utt", "\xe4\xb8\xad\xe6\x96\x87", "a-b_c.d", "\xc3\xa9t\xc3\xa9", "%s%d", "x\ty", "Q"}; return std::string(n[r->Int(0, 6)]) + std::to_string(i) + (r->P(0.1) ? std::string(r->P(0.1) ? r->Int(1000, r->P(0.7) ? 4200 : 9000) : r->Int(1, 80), 'n') : ""); }
static std::string Show(const Proc &p) { return Str("exit %d, stdout '%.700s', stderr '%.500s'", p.signalled() ? -WTERMSIG(p.status) : p.code(), p.out.c_str(), p.err.c_str()); }

static void CliCase(Ctx *c) {
  Rng r = c->R(28); const char *e = getenv("VERIF_CLI"); if (!e) _exit(98); gCli = e;
  Model m; RandModel(&m, &r, 0.35, 0.03); std::string dir = c->Path("m");
  if (m.lm && r.P(0.6)) {            // a language model that does not know <s> or some of the words
    bool nobos = r.P(0.6); double pw = r.P(0.5) ? r.Uni(0, 0.7) : 0;
    std::set<int> gone; if (nobos) gone.insert(m.lm->bos); for (int w = 1; w <= m.V; ++w) if (r.P(pw)) gone.insert(w);
    for (auto &v : m.lm->arcs) { std::vector<LArc> k; for (auto &x : v) if (!gone.count(x.il)) k.push_back(x); v.swap(k); }
    c->Count("incomplete_lms", !gone.empty());
  }
  if (r.P(0.4)) for (auto &f : m.g.fin) f = 0;
  m.Write(dir, &r);
  ce_stt_t *rec = ce_stt_init(m.Conf().c_str()); if (!rec) { c->Violation("init", "a valid model is refused: %s", ce_stt_last_error()); return; }
  int n = r.P(0.1) ? 0 : r.P(0.6) ? r.Int(1, 5) : r.Int(6, 20); std::vector<Entry> es; long words = 0;
  bool rel = r.P(0.3);
  for (int i = 0; i < n; ++i) {
    bool big = r.P(0.006); if (big) c->Count("long_recordings");
    Audio a = RandAudio(&r, big ? r.Int(40000, 300000) : r.P(0.1) ? r.Int(1, 400) : r.LogInt(400, 9000), true); int bps = a.bps();
    int cutk = r.Int(0, 9); if (cutk == 0) a.bytes.clear(); else if (cutk <= 2) a.bytes.resize(a.bytes.size() - r.Int(0, std::min<int>(bps, (int)a.bytes.size()))); else if (cutk == 3) { int unit = 1024; a.bytes.resize(std::max<size_t>(unit, a.bytes.size() / unit * unit), 0); } else if (cutk == 4) { int k = r.Int(1, 10) * 1024 + r.Int(-2, 2); a.bytes.resize(k, 3); }
    Entry x; x.name = Uniq(&r, i); std::string base = r.P(0.15) ? "a%20\xe4\xb8\xad" + std::to_string(i) + ".x" : "w" + std::to_string(i) + ".wav"; WriteFile(dir + "/" + base, WavBytes(a)); x.path = rel ? base : dir + "/" + base; x.hyp = LibHyp(rec, a, a.bytes); words += !x.hyp.empty(); es.push_back(x);
    if (r.P(0.1) && i + 1 < n) { Entry y = x; if (r.P(0.5)) y.name = Uniq(&r, i); es.push_back(y); ++i; }
  }
  if (!es.empty() && r.P(0.1)) { int k = r.P(0.15) ? r.Int(100, 500) : r.Int(25, 80); c->Count("long_lists"); while ((int)es.size() < k) { Entry y = es[r.Int(0, n - 1)]; if (y.hyp.size() > 2000 || ReadFile(y.path[0] == '/' ? y.path : dir + "/" + y.path).size() > 20000) { y = es[0]; if (es.size() > 60) break; } y.name = Uniq(&r, (int)es.size()); es.push_back(y); } }
  n = (int)es.size(); ce_stt_destroy(rec);
  std::string conf = rel && r.P(0.5) ? "model.conf" : m.Conf(), cwd = rel ? dir : "";
  auto list = [&](const std::vector<std::string> &l, bool last, const char *nl) { std::string s; for (size_t i = 0; i < l.size(); ++i) { s += l[i]; if (last || i + 1 < l.size()) s += nl; } std::string f = dir + "/" + r.Pick(std::vector<std::string>{"list.scp", "list.txt", "wav.scp", "lists"}); WriteFile(f, s); return rel ? f.substr(dir.size() + 1) : f; };
  auto lines = [&]() { std::vector<std::string> l; for (auto &x : es) l.push_back(x.name + " " + x.path); return l; };
  auto expect = [&](int k) { std::string s; for (int i = 0; i < k; ++i) s += es[i].name + " " + es[i].hyp + "\n"; return s; };
  // a list
  { bool last = r.P(0.5); const char *nl = r.P(0.85) ? "\n" : "\r\n"; std::string f = list(lines(), last, nl); Proc p = RunCli(c, {conf, f}, cwd);
    if (c->violations) return;
    if (p.signalled() || p.code() != 0) { c->Violation("list-exit", "list of %d entries%s: %s", n, last ? "" : " without final newline", Show(p).c_str()); return; }
    if (p.out != expect(n)) { c->Violation("list", "list of %d entries%s%s: printed '%.1200s', the library gives '%.1200s'", n, last ? "" : " without final newline", nl[0] == '\r' ? " with CRLF" : "", p.out.c_str(), expect(n).c_str()); return; }
    if (c->flavor == "o2" && n >= 25 && n <= 120) {       // the memory for a list is that of its largest entry
      std::vector<std::string> l = lines(), l2 = l; for (int k = 0; k < 2; ++k) l2.insert(l2.end(), l.begin(), l.end()); std::string f2 = list(l2, true, "\n"); Proc q = RunCli(c, {conf, f2}, cwd); if (c->violations) return;
      if (q.signalled() || q.code() != 0 || q.out != expect(n) + expect(n) + expect(n)) { c->Violation("list", "list of %d entries three times over: %s", n, Show(q).c_str()); return; }
      c->Count("memory_compared"); c->Max("growth_kib", std::max(0L, q.rss - p.rss)); if (q.rss > p.rss + p.rss / 50 + 2560) { c->Violation("list-memory", "a list of %d entries takes %ld KiB of memory, three times over %ld KiB", n, p.rss, q.rss); return; }
    }
    c->Count("lists"); c->Count("entries", n); c->Count("without_newline", n > 0 && !last); }
  // single files
  for (int k = 0; k < std::min(n, 4); ++k) { const Entry &x = es[r.Int(0, n - 1)]; if (x.path.size() < 4 || x.path.compare(x.path.size() - 4, 4, ".wav")) continue; Proc p = RunCli(c, {conf, x.path}, cwd); if (c->violations) return;
    if (p.signalled() || p.code() != 0 || p.out != x.hyp + "\n") { c->Violation("wav", "%s: %s, the library gives '%s'", x.path.c_str(), Show(p).c_str(), x.hyp.c_str()); return; } c->Count("files"); }
  // a recording or a list that arrives through a named pipe, in pieces
  for (int k = 0; k < 2 && n && r.P(0.5); ++k) {
    const Entry &x = es[r.Int(0, n - 1)]; bool lst = k == 1; std::string pn = lst ? "pipe.scp" : "pipe.wav", pp = dir + "/" + pn, all; if (lst) for (auto &l : lines()) all += l + "\n"; else all = ReadFile(x.path[0] == '/' ? x.path : dir + "/" + x.path);
    signal(SIGPIPE, SIG_IGN); unlink(pp.c_str()); if (mkfifo(pp.c_str(), 0600)) _exit(98); std::vector<size_t> cut; for (size_t q = 0; q < all.size(); q += cut.back()) cut.push_back(std::min<size_t>(all.size() - q, r.P(0.5) ? r.Int(1, 100) : r.LogInt(100, 60000)));
    std::thread w([&] { int fd = open(pp.c_str(), O_WRONLY); size_t q = 0; int i = 0; for (size_t z : cut) { if (fd < 0 || write(fd, all.data() + q, z) < 0) break; q += z; if (++i < 20) usleep(200); } if (fd >= 0) close(fd); });
    Proc p = RunCli(c, {conf, rel ? pn : pp}, cwd); int fd = open(pp.c_str(), O_RDONLY | O_NONBLOCK); w.join(); if (fd >= 0) close(fd); unlink(pp.c_str()); if (c->violations) return;
    if (p.signalled() || p.code() != 0 || p.out != (lst ? expect(n) : x.hyp + "\n")) { c->Violation("pipe", "a %s of %zu bytes through a named pipe: %s, the library gives '%.700s'", lst ? "list" : "wave file", all.size(), Show(p).c_str(), lst ? expect(n).c_str() : x.hyp.c_str()); return; } c->Count("pipes");
  }
  // one faulty entry
  int faults = c->thorough ? 10 : 5;
  for (int k = 0; k < faults; ++k) {
    std::vector<std::string> l = lines(); int at = r.Int(0, n); std::string what, line; int how = r.Int(0, 9); std::string bad = dir + "/bad.wav", badp = rel ? "bad.wav" : bad; line = "bad " + badp; remove(bad.c_str());
    Audio a = RandAudio(&r, 500, true); std::string w = WavBytes(a);
    switch (how) {
      case 0: what = "a missing wave file"; break;
      case 1: w.resize(r.Int(0, 43)); what = Str("a wave file cut to %zu bytes", w.size()); WriteFile(bad, w); break;
      case 2: { size_t o = r.Pick(std::vector<size_t>{0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 36, 37, 38, 39}); w[o] ^= 0x20; what = Str("a wave file with byte %zu changed", o); WriteFile(bad, w); break; }
      case 3: { int16_t ch = r.P(0.5) ? 2 : r.Int(3, 8); memcpy(&w[22], &ch, 2); what = Str("a wave file with %d channels", ch); WriteFile(bad, w); break; }
      case 4: { int32_t rate = r.Pick(std::vector<int>{8000, 44100, 48000, 15999, 0}), br = rate * a.bps(); memcpy(&w[24], &rate, 4); memcpy(&w[28], &br, 4); what = Str("a wave file of %d Hz", rate); WriteFile(bad, w); break; }
      case 5: { int16_t b = 24, al = 3; int32_t br = 48000; memcpy(&w[34], &b, 2); memcpy(&w[32], &al, 2); memcpy(&w[28], &br, 4); what = "a 24-bit wave file"; WriteFile(bad, w); break; }
      case 6: { int16_t f = r.P(0.5) ? 3 : r.Int(2, 100); memcpy(&w[20], &f, 2); what = Str("a wave file of audio format %d", f); WriteFile(bad, w); break; }
      case 7: line = "onlyname"; what = "a line with one field"; break;
      case 8: line = "a b c"; if (n && r.P(0.5)) line = es[0].name + " " + es[0].path + " " + es[0].path; what = "a line with three fields"; break;
      default: line = "dir " + (rel ? std::string(".") : dir); what = "a directory as wave file"; }
    l.insert(l.begin() + at, line); bool last = r.P(0.7); std::string f = list(l, last, "\n"); Proc p = RunCli(c, {conf, f}, cwd); if (c->violations) return; std::string want = expect(at);
    std::string ctx = Str("entry %d of %d is %s", at, n + 1, what.c_str());
    if (p.signalled() || p.code() == 0) { c->Violation("fault-exit", "%s: %s", ctx.c_str(), Show(p).c_str()); return; }
    if (p.out.compare(0, want.size(), want) != 0) { c->Violation("fault-output", "%s: %s; the entries before it give '%.900s'", ctx.c_str(), Show(p).c_str(), want.c_str()); return; }
    std::string rest = p.out.substr(want.size()) + p.err; size_t vis = 0; for (char ch : rest) vis += !isspace((unsigned char)ch);
    if (vis == 0) { c->Violation("fault-message", "%s: no message; %s", ctx.c_str(), Show(p).c_str()); return; }
    for (int i = at; i < n; ++i) if (!es[i].hyp.empty() && rest.find(es[i].name + " " + es[i].hyp + "\n") != std::string::npos && (at == 0 || want.find(es[i].name + " " + es[i].hyp + "\n") == std::string::npos)) { c->Violation("fault-goes-on", "%s: goes on after it; %s", ctx.c_str(), Show(p).c_str()); return; }
    c->Count("faulty_entries"); c->SigS(what);
    if (how <= 6 && r.P(0.3)) { Proc q = RunCli(c, {conf, badp}, cwd); if (c->violations) return; std::string t = q.out + q.err; if (q.signalled() || q.code() == 0 || t.find_first_not_of(" \n") == std::string::npos) { c->Violation("file-fault", "%s: %s", what.c_str(), Show(q).c_str()); return; } c->Count("faulty_files"); }
  }
  // a missing or unusable model, a missing list
  for (int k = 0; k < 3; ++k) {
    std::string cf = conf, in = n ? es[0].path : dir + "/x.scp", what; if (k == 0) { cf = dir + "/none.conf"; what = "no model"; } else if (k == 1) { std::string nm = r.Pick(std::vector<std::string>{"HCLG.fst", "final.nnet", "final.prior", "final.map", "words.txt"}); std::string b = ReadFile(dir + "/" + nm); what = nm + (r.P(0.5) ? " cut" : " missing"); if (what.find("cut") != std::string::npos && nm != "words.txt") WriteFile(dir + "/" + nm, b.substr(0, r.Int(0, (int)b.size() - 1))); else { remove((dir + "/" + nm).c_str()); } Proc p = RunCli(c, {conf, list(lines(), true, "\n")}, cwd); WriteFile(dir + "/" + nm, b); if (c->violations) return; if (p.signalled() || p.code() == 0 || (p.out + p.err).find_first_not_of(" \n") == std::string::npos) { c->Violation("model-fault", "%s: %s", what.c_str(), Show(p).c_str()); return; } for (auto &x : es) if (p.out.find(x.name + " " + x.hyp + "\n") != std::string::npos) { c->Violation("model-fault", "%s: yet it decodes; %s", what.c_str(), Show(p).c_str()); return; } c->Count("faulty_models"); continue; } else { in = dir + "/missing.scp"; what = "a missing list"; }
    Proc p = RunCli(c, {cf, in}, cwd); if (c->violations) return;
    if (p.signalled() || p.code() == 0 || (p.out + p.err).find_first_not_of(" \n") == std::string::npos) { c->Violation("model-fault", "%s: %s", what.c_str(), Show(p).c_str()); return; } c->Count("faulty_models");
  }
  // usage
  for (int k = 0; k < 3; ++k) { std::vector<std::string> args; if (k == 1) args = {conf}; if (k == 2) args = {conf, "a.wav", "b.wav"}; Proc p = RunCli(c, args, cwd); if (c->violations) return; if (p.signalled() || p.code() == 0 || p.out.size() + p.err.size() == 0) { c->Violation("usage", "%zu arguments: %s", args.size(), Show(p).c_str()); return; } }
  c->nontrivial = n > 0; c->Sig(n); c->Count("transcripts_with_words", words); for (auto &x : es) c->SigS(x.hyp);
  c->Sample("list of %d entries printed as the library decodes it (%ld with words), then %d faulty lists stopped at the faulty entry", n, words, faults);
}
// Read errors under the program, and an output that cannot be written.
static void IoCase(Ctx *c) {
  Rng r = c->R(34); const char *e = getenv("VERIF_CLI"); if (!e) _exit(98); gCli = e;
  Model m; RandModel(&m, &r, 0.2, 0.03); std::string dir = c->Path("m"); if (r.P(0.5)) for (auto &f : m.g.fin) f = 0; m.Write(dir, &r);
  ce_stt_t *rec = ce_stt_init(m.Conf().c_str()); if (!rec) { c->Violation("init", "a valid model is refused: %s", ce_stt_last_error()); return; }
  int n = r.Int(1, 6); std::vector<Entry> es; std::string list, full; std::vector<size_t> ends; long words = 0;
  for (int i = 0; i < n; ++i) { Audio a = RandAudio(&r, r.LogInt(400, 9000), true); Entry x; x.name = Uniq(&r, i); x.path = dir + "/w" + std::to_string(i) + ".wav"; WriteFile(x.path, WavBytes(a)); x.hyp = LibHyp(rec, a, a.bytes); words += !x.hyp.empty(); es.push_back(x); list += x.name + " " + x.path + (i + 1 < n || r.P(0.7) ? "\n" : ""); full += x.name + " " + x.hyp + "\n"; ends.push_back(full.size()); }
  ce_stt_destroy(rec); std::string conf = m.Conf(), lf = dir + "/list.scp"; WriteFile(lf, list);
  auto env = [](const std::string &p, long k, int once) { Env v; v.push_back(std::make_pair("VERIF_IO_PATH", p)); v.push_back(std::make_pair("VERIF_IO_AT", std::to_string(k))); v.push_back(std::make_pair("VERIF_IO_ONCE", std::to_string(once))); return v; };
  auto stopped = [&](const Proc &p, const std::string &want, const std::string &what, const char *key) {
    if (c->violations) return false;
    if (p.signalled() || p.code() == 0) { c->Violation(key, "%s: %s", what.c_str(), Show(p).c_str()); return false; }
    if (p.out.compare(0, want.size(), want)) { c->Violation(std::string(key) + "-output", "%s: %s; the entries before it give '%.900s'", what.c_str(), Show(p).c_str(), want.c_str()); return false; }
    if ((p.out.substr(want.size()) + p.err).find_first_not_of(" \n\t\r") == std::string::npos) { c->Violation(std::string(key) + "-message", "%s: no message; %s", what.c_str(), Show(p).c_str()); return false; }
    return true; };
  // the shim without a fault
  { Proc p = RunCli(c, {conf, lf}, ""); if (c->violations) return; if (p.signalled() || p.code() != 0 || p.out != full) { c->Violation("list", "list of %d entries: %s, the library gives '%.900s'", n, Show(p).c_str(), full.c_str()); return; } }
  int reps = c->thorough ? 12 : 5;
  for (int i = 0; i < reps; ++i) {
    int at = r.Int(0, n - 1); const std::string &f = es[at].path; long size = (long)ReadFile(f).size(), k = r.P(0.15) ? r.Int(0, 44) : r.P(0.2) ? size - 1 - r.Int(0, (int)std::min<long>(size - 1, 300)) : r.P(0.3) && size > 1068 ? 44 + 1024 * (long)r.Int(0, (int)((size - 45) / 1024)) : r.Int(0, (int)size - 1); int once = r.P(0.4);
    std::string what = Str("%s at byte %ld of the %ld of entry %d of %d", once ? "one failed read" : "reads fail", k, size, at, n); size_t pre = at ? ends[at - 1] : 0;
    Proc p = RunCli(c, {conf, lf}, "", env(f, k, once)); if (!stopped(p, full.substr(0, pre), what, "wave")) return;
    if (!es[at].hyp.empty() && p.out.compare(pre, ends[at] - pre, full, pre, ends[at] - pre) == 0) { c->Violation("wave-goes-on", "%s: goes on after it; %s", what.c_str(), Show(p).c_str()); return; }
    c->Count("failed_waves"); p = RunCli(c, {conf, f}, "", env(f, k, once)); if (!stopped(p, "", what + " (alone)", "wave-alone")) return;
  }
  for (int i = 0; i < reps; ++i) {
    long k = r.Int(0, (int)list.size() - 1); int once = r.P(0.4); size_t pre = 0; long pos = 0; for (int j = 0; j < n; ++j) { pos = (long)list.find('\n', pos); if (pos < 0 || pos >= k) break; ++pos; pre = ends[j]; }
    std::string what = Str("%s at byte %ld of the %zu of the list", once ? "one failed read" : "reads fail", k, list.size()); Proc p = RunCli(c, {conf, lf}, "", env(lf, k, once)); if (!stopped(p, "", what, "list")) return;
    size_t same = 0; for (int j = 0; j < n; ++j) if (p.out.compare(0, ends[j], full, 0, ends[j]) == 0) same = ends[j];
    if (same != pre) { c->Violation("list-output", "%s: %s; the entries before it give '%.900s'", what.c_str(), Show(p).c_str(), full.substr(0, pre).c_str()); return; }
    c->Count("failed_lists");
  }
  for (int i = 0; i < reps; ++i) {
    std::string f = r.Pick(std::vector<std::string>{"HCLG.fst", "final.nnet", "final.prior", "final.map", "words.txt", "model.conf"}), p = dir + "/" + f; long size = (long)ReadFile(p).size(), k = r.Int(0, (int)size - 1); int once = r.P(0.4);
    if (!stopped(RunCli(c, {conf, lf}, "", env(p, k, once)), "", Str("%s at byte %ld of the %ld of %s", once ? "one failed read" : "reads fail", k, size, f.c_str()), "model")) return; c->Count("failed_models");
  }
  if (access("/dev/full", W_OK) == 0) for (int i = 0; i < 2; ++i) {
    std::string in = i ? lf : es[0].path; Proc p = RunCli(c, {conf, in}, "", Env(), "/dev/full"); if (c->violations) return;
    if (p.signalled() || p.code() == 0) { c->Violation("output", "%s with an output that cannot be written: %s", i ? "a list" : "a wave file", Show(p).c_str()); return; } c->Count("failed_outputs");
  }
  c->nontrivial = true; c->Sig(n); c->Sig(list.size()); for (auto &x : es) c->SigS(x.hyp);
  c->Sample("list of %d entries (%ld with words): %d read errors in waves, list and model stopped the program with a message", n, words, 3 * reps);
}
int main(int argc, char **argv) { std::map<std::string, CaseFn> m; m["cli"] = CliCase; m["ioerr"] = IoCase; return Main(argc, argv, m); }
