// File-format and language-model monitors: wave input (C20), configuration
// (C21), symbol table (C22), LM lookups (C13), cached lookups (C14), binary
// containers (C24).
#include <sys/mman.h>
#include <climits>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <memory>
#include "h.h"
#include "pcm_reader.h"
#include "configuration.h"
#include "symbol_table.h"
#include "fst.h"
#include "nnet.h"
#include "matrix.h"
#include "vector.h"
using namespace vf;
using namespace pocketkaldi;
static void Put(std::string *s, const void *p, size_t n) { s->append((const char *)p, n); }
static void P32(std::string *s, int32_t v) { Put(s, &v, 4); }
static void P16(std::string *s, int v) { int16_t w = (int16_t)v; Put(s, &w, 2); }
static void PF(std::string *s, float v) { Put(s, &v, 4); }
template <class T> static std::string VecB(const std::vector<T> &v) { std::string s = "VEC0"; P32(&s, 4 + (int)(v.size() * sizeof(T))); P32(&s, (int)v.size()); Put(&s, v.data(), v.size() * sizeof(T)); return s; }

// ------------------------------------------------------------------ C20
struct Hdr { std::string riff, wave, fmt, data; int chunk, sub1, af, ch, rate, brate, align, bits, size; 
  Hdr() : riff("RIFF"), wave("WAVE"), fmt("fmt "), data("data"), chunk(36), sub1(16), af(1), ch(1), rate(16000), brate(32000), align(2), bits(16), size(0) {}
  std::string B() const { std::string s = riff; P32(&s, chunk); s += wave + fmt; P32(&s, sub1); P16(&s, af); P16(&s, ch); P32(&s, rate); P32(&s, brate); P16(&s, align); P16(&s, bits); s += data; P32(&s, size); return s; }
  bool Good() const { return riff == "RIFF" && wave == "WAVE" && fmt == "fmt " && data == "data" && sub1 == 16 && af == 1 && (long long)brate == (long long)rate * bits / 8 && align == bits / 8; } };
static void WavHeader(Ctx *c, Rng *r) {
  Hdr h;
  h.bits = r->P(0.6) ? 16 : r->P(0.5) ? 8 * r->Int(1, 8) : 8 * r->Int(1, 500);
  h.rate = r->P(0.5) ? 16000 : r->P(0.7) ? r->Int(1, 200000) : r->Int(1, INT_MAX);
  h.ch = r->P(0.6) ? 1 : r->Int(1, 300);
  long long br = (long long)h.rate * h.bits / 8; h.brate = (int32_t)br; h.align = h.bits / 8;
  h.chunk = (int)r->Next(); h.size = (int)r->Next();
  int nf = r->P(0.35) ? 0 : 1; std::string f = "none";
  if (nf) switch (r->Int(0, 8)) {
    case 0: { std::string *p[4] = {&h.riff, &h.wave, &h.fmt, &h.data}; int k = r->Int(0, 3), i = r->Int(0, 3); (*p[k])[i] = r->P(0.3) ? (char)0 : (char)((*p[k])[i] ^ (1 << r->Int(0, 7))); f = "tag"; break; }
    case 1: h.sub1 = r->P(0.5) ? 18 : r->P(0.5) ? 40 : (int)r->Next(); f = "fmt size"; break;
    case 2: h.af = r->P(0.3) ? 3 : r->P(0.3) ? -2 : r->Int(-32768, 32767); f = "audio format"; break;
    case 3: h.brate = (int32_t)((long long)h.brate + (r->P(0.3) ? 1 : r->P(0.5) ? -1 : r->Int(2, 100000))); f = "byte rate"; break;
    case 4: h.align = (int16_t)(h.align + (r->P(0.5) ? 1 : r->Int(1, 1000))); f = "block align"; break;
    case 5: h.align = (int16_t)(h.align * 2); h.brate = (int)(br * 2); h.ch = 2; f = "two channels"; break;
    case 6: h.rate = r->Int(1, INT_MAX); f = "rate"; break;
    case 7: h.bits = 8 * r->Int(1, 4000); f = "bits"; break;
    default: h.brate = (int32_t)((long long)h.rate * (h.ch == 1 ? 3 : h.ch) * h.align); f = "byte rate of several channels"; break;
  }
  std::string bytes = h.B(), tail(r->Int(0, 70), 't');
  for (auto &ch : tail) ch = (char)r->Next();
  bool good = h.Good();
  size_t cut = bytes.size() + tail.size(); bool trunc = false;
  if (r->P(0.3)) { cut = r->Int(0, 43); trunc = true; good = false; }
  std::string all = (bytes + tail).substr(0, cut), path = c->Path("h.wav");
  WriteFile(path, all);
  for (int api = 0; api < 2; ++api) {
    ce_wave_format_t w; memset(&w, 0x55, sizeof w);
    bool ok; std::string msg; long pos = -1;
    FILE *fp; long off = 0; int how = r->P(0.5) ? 0 : r->Int(1, 2);
    if (how == 1) { int p[2]; if (pipe(p) || write(p[1], all.data(), all.size()) != (ssize_t)all.size()) _exit(98); close(p[1]); fp = fdopen(p[0], "rb"); c->Count("headers_from_pipes"); }
    else if (how == 2) { off = r->P(0.5) ? 44 + (long)tail.size() : r->LogInt(1, 9000); std::string junk((size_t)off, 'j'); if (r->P(0.5)) junk = (bytes + tail + junk).substr(0, off); WriteFile(path + "2", junk + all); fp = fopen((path + "2").c_str(), "rb"); if (fp && r->P(0.5)) fseek(fp, off, SEEK_SET); else if (fp && fread(&junk[0], 1, off, fp) != (size_t)off) _exit(98); c->Count("headers_inside_files"); }
    else fp = fopen(path.c_str(), "rb");
    if (!fp) _exit(98);
    if (api == 0) { ce_wave_format_t *g = ce_read_pcm_header(fp, &w); ok = g != nullptr; msg = ok ? "" : ce_stt_last_error(); if (ok && g != &w) { c->Violation("wav-return", "returns another format object"); } }
    else { util::ReadableFile fd(fp); Status st = ReadPcmHeader(&fd, &w); ok = st.ok(); msg = st.what(); }
    pos = how == 1 ? 44 : ftell(fp) - off; std::string rest(all.size() + 100, 0); rest.resize(ok ? fread(&rest[0], 1, rest.size(), fp) : 0); fclose(fp);
    if (ok != good) { c->Violation(good ? "wav-rejected" : "wav-accepted", "header (fault: %s, %s %zu bytes; ch %d rate %d byterate %d align %d bits %d fmt size %d format %d) was %s: %s", f.c_str(), trunc ? "cut to" : "of", all.size(), h.ch, h.rate, h.brate, h.align, h.bits, h.sub1, h.af, ok ? "accepted" : "rejected", msg.c_str()); return; }
    if (ok && (w.num_channels != h.ch || w.sample_rate != h.rate || w.bits_per_sample != h.bits)) { c->Violation("wav-format", "header ch %d rate %d bits %d reported as ch %d rate %d bits %d", h.ch, h.rate, h.bits, w.num_channels, w.sample_rate, w.bits_per_sample); return; }
    if (ok && rest != tail.substr(0, cut - 44)) { c->Violation("wav-position", "header in a %s: the %zu bytes read after it are not the %zu sample bytes", how == 0 ? "file" : how == 1 ? "pipe" : "larger file", rest.size(), cut - 44); return; }
    if (ok && pos != 44) { c->Violation("wav-position", "position after the header is %ld", pos); return; }
    if (!ok && msg.empty()) { c->Violation("wav-message", "rejected without a message (fault %s)", f.c_str()); return; }
    if (ok) {
      WaveReader rd; bool want = h.ch == 1 && h.rate == 16000 && (h.bits == 8 || h.bits == 16 || h.bits == 32);
      Status st = rd.SetFormat(w);
      if (st.ok() != want || (!want && st.what().empty())) { c->Violation("wav-supported", "ch %d rate %d bits %d %s", h.ch, h.rate, h.bits, st.ok() ? "accepted for decoding" : "refused"); return; }
      c->Count(want ? "formats_supported" : "formats_refused");
    }
    c->Count(ok ? "headers_accepted" : "headers_rejected");
  }
  c->nontrivial = true; c->SigS(f); c->Sig(cut); c->Sig(h.bits); c->Sig(h.rate);
  c->Sample("header fault '%s'%s, rate %d bits %d ch %d: %s", f.c_str(), trunc ? ", truncated" : "", h.rate, h.bits, h.ch, good ? "accepted with its format" : "rejected with a message");
}
static void WavPcm(Ctx *c, Rng *r) {
  int bits = r->P(0.4) ? 16 : r->P(0.5) ? 8 : 32, bps = bits / 8;
  ce_wave_format_t f; f.num_channels = 1; f.sample_rate = 16000; f.bits_per_sample = bits;
  // formats that must be refused
  { ce_wave_format_t g = f; int k = r->Int(0, 2); if (k == 0) g.num_channels = r->P(0.5) ? 2 : r->P(0.5) ? 0 : r->Int(-5, 100); else if (k == 1) g.sample_rate = r->P(0.3) ? 8000 : r->P(0.3) ? 16001 : r->Int(-100, 100000); else g.bits_per_sample = r->P(0.3) ? 24 : r->P(0.3) ? 64 : r->Int(-40, 200);
    bool want = g.num_channels == 1 && g.sample_rate == 16000 && (g.bits_per_sample == 8 || g.bits_per_sample == 16 || g.bits_per_sample == 32);
    WaveReader w; Status st = w.SetFormat(g); if (st.ok() != want || (!want && st.what().empty())) { c->Violation("wav-supported", "ch %d rate %d bits %d %s", g.num_channels, g.sample_rate, g.bits_per_sample, st.ok() ? "accepted for decoding" : "refused"); return; }
    if (!want) { Vector<float> v; char b[8] = {1, 2, 3, 4}; if (w.Process(b, 4, &v).ok()) { c->Violation("wav-notready", "samples decoded although no supported format was set"); return; } }
  }
  WaveReader rd; Status st = rd.SetFormat(f);
  if (!st.ok()) { c->Violation("wav-supported", "mono 16 kHz %d-bit refused", bits); return; }
  int streams = r->Int(1, 3); long calls = 0, total = 0;
  for (int s = 0; s < streams; ++s) {
    bool big = r->P(0.03); int n = big ? r->Int(60000, 2000000) : r->LogInt(1, 6000); std::string d(n, 0); for (auto &ch : d) ch = (char)r->Next();
    size_t pos = 0, got = 0; int style = big ? r->Int(3, 4) : r->Int(0, 3); if (big) c->Count("long_streams");
    while (pos < d.size()) {
      size_t k = style == 0 ? 1 : style == 1 ? r->Int(1, 7) : style == 2 ? r->LogInt(1, 3000) : style == 4 ? r->LogInt(100, 500000) : d.size();
      k = std::min(k, d.size() - pos);
      if (r->P(0.05)) { Vector<float> v; if (rd.Process(nullptr, 4, &v).ok() || rd.Process(d.data(), r->Int(-3, 0), &v).ok()) { c->Violation("wav-badcall", "null buffer or non-positive size accepted"); return; } }
      // exact-size heap copy: an overread is seen by ASan
      std::unique_ptr<char[]> piece(new char[k]); memcpy(piece.get(), d.data() + pos, k);
      Vector<float> v(r->Int(0, 5)); st = rd.Process(piece.get(), (int)k, &v); ++calls;
      if (!st.ok()) { c->Violation("wav-process", "%zu bytes refused: %s", k, st.what().c_str()); return; }
      pos += k; size_t want = pos / bps;
      if (got + v.Dim() != want) { c->Violation("wav-count", "%d-bit: after %zu bytes %zu samples delivered, %zu complete", bits, pos, got + v.Dim(), want); return; }
      for (int i = 0; i < v.Dim(); ++i) {
        const unsigned char *p = (const unsigned char *)d.data() + (got + i) * bps;
        long long x = bits == 8 ? (int8_t)p[0] : bits == 16 ? (int16_t)(p[0] | p[1] << 8) : (int32_t)((uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24);
        if (v(i) != (float)x) { c->Violation("wav-sample", "%d-bit sample %zu is %.9g, bytes say %lld", bits, got + i, v(i), x); return; }
      }
      got += v.Dim();
    }
    total += got; rd.Reset();
  }
  c->Count("samples", total); c->Count("pieces", calls);
  c->nontrivial = total > 1; c->Sig(bits); c->Sig(total); c->Sig(calls);
  c->Sample("%d-bit: %ld samples in %ld pieces, %d streams: every sample exact, once", bits, total, calls, streams);
}
// a whole file at once
static void WavFile(Ctx *c, Rng *r) {
  int bits = r->P(0.4) ? 16 : r->P(0.5) ? 8 : 32, bps = bits / 8, n = r->P(0.06) ? r->Int(60000, 3000000) : r->LogInt(1, 5000); Hdr h; h.bits = bits; h.rate = 16000; h.ch = 1; h.brate = 16000 * bps; h.align = bps; h.chunk = 36 + n; h.size = n; bool good = true;
  switch (r->Int(0, 9)) { case 0: h.rate = 8000; h.brate = 8000 * bps; good = false; break; case 1: h.ch = 2; good = false; break; case 2: h.af = 3; good = false; break; case 3: h.bits = 24; h.align = 3; h.brate = 48000; good = false; break; case 4: h.data[1] = 'x'; good = false; break; default: ; }
  std::string d(n, 0); for (auto &ch : d) ch = (char)r->Next();
  std::string all = h.B() + d; if (r->P(0.1)) { all.resize(r->Int(0, 43)); good = false; } std::string path = c->Path("w.wav"); WriteFile(path, all);
  Vector<float> v(r->Int(0, 9)); Status st = Read16kPcm(path.c_str(), &v);
  if (st.ok() != good || (!good && st.what().empty())) { c->Violation("wav-file", "%zu-byte file (%d-bit, %d Hz, %d channels): %s %s", all.size(), h.bits, h.rate, h.ch, st.ok() ? "accepted" : "refused", st.what().c_str()); return; }
  if (good) {
    if (v.Dim() != n / bps) { c->Violation("wav-file-count", "%d bytes of %d-bit data give %d samples", n, bits, v.Dim()); return; }
    for (int i = 0; i < v.Dim(); ++i) { const unsigned char *p = (const unsigned char *)d.data() + (size_t)i * bps; long long x = bits == 8 ? (int8_t)p[0] : bits == 16 ? (int16_t)(p[0] | p[1] << 8) : (int32_t)((uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24); if (v(i) != (float)x) { c->Violation("wav-file-sample", "%d-bit sample %d is %.9g, bytes say %lld", bits, i, v(i), x); return; } }
    c->Count("samples", v.Dim()); if (n >= 60000) c->Count("long_files");
  }
  Vector<float> w; if (Read16kPcm((path + ".none").c_str(), &w).ok()) { c->Violation("wav-file", "a missing file is accepted"); return; }
  c->Count(good ? "files_read" : "files_refused"); c->nontrivial = n > 1; c->Sig(n); c->Sig(bits); c->Sig(good);
}
// a file too large to be read at once, or without a size: every sample or an error
static void WavOdd(Ctx *c, Rng *r) {
  int bits = r->P(0.4) ? 16 : r->P(0.5) ? 8 : 32, bps = bits / 8; Hdr h; h.bits = bits; h.rate = 16000; h.brate = 16000 * bps; h.align = bps; std::string path = c->Path("odd.wav"); bool fifo = c->flavor != "o2" || r->P(0.3); signal(SIGPIPE, SIG_IGN); long n = fifo ? r->Int(1, 3000) : r->P(0.5) ? (1L << 32) + r->Int(0, 100000) : (1L << 31) + r->LogInt(1, 1 << 30);
  Vector<float> v; std::string what;
  if (fifo) {
    if (mkfifo(path.c_str(), 0600)) _exit(98); std::string all = h.B() + std::string(n, 1); std::thread w([&] { int fd = open(path.c_str(), O_WRONLY); if (fd >= 0) { (void)!write(fd, all.data(), all.size()); close(fd); } });
    Status st; try { st = Read16kPcm(path.c_str(), &v); what = st.ok() ? "" : st.what(); if (!st.ok() && what.empty()) what = "-"; } catch (const std::exception &e) { c->Violation("wav-odd-raise", "reading a wave file from a named pipe raises %s", e.what()); }
    int fd = open(path.c_str(), O_RDONLY | O_NONBLOCK); w.join(); if (fd >= 0) close(fd); unlink(path.c_str());
  } else {
    FILE *f = fopen(path.c_str(), "wb"); std::string b = h.B(); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || ftruncate(fileno(f), 0) || fseek(f, 0, SEEK_SET) || fwrite(b.data(), 1, b.size(), f) != b.size()) _exit(98); fflush(f); if (ftruncate(fileno(f), 44 + n)) { fclose(f); unlink(path.c_str()); c->Count("no_sparse_files"); return; } fclose(f);
    struct rlimit old, lim; getrlimit(RLIMIT_AS, &old); lim = old; lim.rlim_cur = 3L << 30; setrlimit(RLIMIT_AS, &lim);
    Status st; try { st = Read16kPcm(path.c_str(), &v); what = st.ok() ? "" : st.what(); if (!st.ok() && what.empty()) what = "-"; } catch (const std::bad_alloc &) { what = "no memory"; } catch (const std::exception &e) { c->Violation("wav-odd-raise", "reading a wave file of %ld bytes raises %s", n + 44, e.what()); }
    setrlimit(RLIMIT_AS, &old); unlink(path.c_str());
  }
  if (c->violations) return; if (what == "-") { c->Violation("wav-odd-message", "a %s is refused without a message", fifo ? "named pipe" : "huge file"); return; }
  if (what.empty() && v.Dim() != n / bps) { c->Violation("wav-odd-count", "%s with %ld bytes of %d-bit samples: accepted with %d samples", fifo ? "a named pipe" : "a file", n, bits, v.Dim()); return; }
  c->Count("odd_files"); c->nontrivial = true; c->Sig(n); c->Sig(bits); c->Sample("%s with %ld bytes of samples: %s", fifo ? "named pipe" : "file", n, what.empty() ? "all there" : what.c_str());
}
// the largest piece there is, behind the beginning of a sample
static void WavVast(Ctx *c, Rng *r, int bits) {
  int bps = bits / 8, pend = r->Int(1, 3), more = r->Int(1, 40); size_t n = bps == 1 ? ((size_t)1 << 30) + r->Int(0, 1000) : (size_t)INT_MAX - r->Int(0, pend - 1), N;
  if (bps == 2) { pend = 1; n = INT_MAX; } N = pend + n + more;
  char *p = (char *)mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { c->Count("no_memory_for_vast"); return; }
  std::set<size_t> at; for (int i = 0; i < 400; ++i) { size_t o = i < 50 ? i : i < 100 ? N - 1 - (i - 50) : (size_t)((double)N * r->Uni()); o = std::min(o, N - 1); p[o] = (char)r->Next(); at.insert(o / bps); }
  ce_wave_format_t f; f.num_channels = 1; f.sample_rate = 16000; f.bits_per_sample = bits; WaveReader rd; if (!rd.SetFormat(f).ok()) { c->Violation("wav-supported", "mono 16 kHz %d-bit refused", bits); return; }
  size_t cut[4] = {0, (size_t)pend, pend + n, N}, got = 0; Vector<float> v;
  for (int k = 0; k < 3; ++k) {
    Status st = rd.Process(p + cut[k], (int)(cut[k + 1] - cut[k]), &v); if (!st.ok()) { c->Violation("wav-process", "%zu bytes refused: %s", cut[k + 1] - cut[k], st.what().c_str()); return; }
    if (got + v.Dim() != cut[k + 1] / bps) { c->Violation("wav-count", "%d-bit: after %zu bytes %zu samples delivered, %zu complete", bits, cut[k + 1], got + v.Dim(), cut[k + 1] / bps); return; }
    for (size_t i : at) if (i >= got && i < got + v.Dim()) { const unsigned char *q = (const unsigned char *)p + i * bps; long long x = bits == 8 ? (int8_t)q[0] : bits == 16 ? (int16_t)(q[0] | q[1] << 8) : (int32_t)((uint32_t)q[0] | (uint32_t)q[1] << 8 | (uint32_t)q[2] << 16 | (uint32_t)q[3] << 24); if (v((int)(i - got)) != (float)x) { c->Violation("wav-sample", "%d-bit sample %zu is %.9g, bytes say %lld", bits, i, v((int)(i - got)), x); return; } }
    got += v.Dim();
  }
  munmap(p, N); c->Count("vast_pieces"); c->Count("samples", (long long)at.size()); c->nontrivial = true; c->Sig(N); c->Sample("%d-bit: a piece of %zu bytes behind %d: %zu samples, every marked one exact", bits, n, pend, got);
}
static void WavCase(Ctx *c) { Rng r = c->R(20); if (c->cur == 1001) { for (int bits : {8, 16, 32}) if (!c->violations && (bits == 32 || c->flavor == "o2")) WavVast(c, &r, bits); } else if (c->cur % 500 == 3) WavOdd(c, &r); else if (c->cur % 5 == 4) WavFile(c, &r); else if (c->cur % 3 == 2) WavPcm(c, &r); else for (int i = 0; i < 6 && !c->violations; ++i) WavHeader(c, &r); }

// ------------------------------------------------------------------ C21
static std::string Word(Rng *r, const char *abc, int lo, int hi) { int n = r->Int(lo, hi); std::string s; size_t L = strlen(abc); for (int i = 0; i < n; ++i) s += abc[r->Next() % L]; return s; }
static std::string Blank(Rng *r) { static const char *b[] = {"", "", " ", "\t", "  ", " \t "}; return b[r->Int(0, 5)]; }
static std::string Lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
// a long text that would mean something if it were cut at 4 kB
static std::string Long(Rng *r, const std::string &key) { std::string s = std::string(r->P(0.7) ? r->Int(4080, 4100) : r->Int(3000, 40000), 'c'); if (r->P(0.5)) s += key + (r->P(0.7) ? "=cut" : " "); return s; }
static void ConfCase(Ctx *c) {
  Rng r = c->R(21);
  std::vector<std::string> keys; bool many = r.P(0.02); int nk = many ? r.Int(500, 4000) : r.Int(1, 8);
  for (int i = 0; i < nk; ++i) keys.push_back(Word(&r, "abcdefgXYZ_019.-", many ? 3 : 1, r.P(0.05) ? 60 : 10));
  const char *eol = r.P(0.3) ? "\r\n" : "\n"; bool lastnl = r.P(0.6);
  std::string text, bad; std::map<std::string, std::string> want; if (many) c->Count("files_with_many_keys"); int lines = many ? r.Int(500, 9000) : r.P(0.04) ? r.Int(100, 500) : r.Int(0, 20); int nset = 0;
  bool fail = false;
  int badline = r.P(0.25) && lines > 0 ? r.Int(0, lines - 1) : -1;
  for (int i = 0; i < lines; ++i) {
    std::string l;
    if (i == badline) {
      switch (r.Int(0, 5)) { case 0: l = "novalue"; break; case 1: l = "key="; break; case 2: l = "key = \t "; break; case 3: l = "a=b=c"; break; case 4: l = " k == v"; break; default: l = "two words"; }
      fail = true; bad = l;
    } else if (r.P(0.15)) l = Blank(&r);
    else if (r.P(0.15)) { l = Blank(&r) + "#" + (r.P(0.03) ? Long(&r, keys[0]) : Word(&r, "abc =#/", 0, 20)); }
    else {
      std::string k = r.Pick(keys), kk = k, v;
      if (r.P(0.4)) for (auto &ch : kk) { if (ch >= 'a' && ch <= 'z' && r.P(0.5)) ch -= 32; else if (ch >= 'A' && ch <= 'Z') ch += 32; }
      switch (r.Int(0, 4)) {
        case 0: v = std::to_string(r.Int(-100000, 100000)); break;
        case 1: v = r.P(0.3) ? std::to_string(INT_MAX) : r.P(0.3) ? std::to_string(INT_MIN) : r.P(0.5) ? std::to_string((long long)INT_MAX + 1 + r.Int(0, 999)) : r.P(0.5) ? Word(&r, "0123456789x ", 1, 30) : "3.5"; break;
        case 2: v = (r.P(0.5) ? "/" : "") + Word(&r, "abc/._-", 1, 20) + "x"; break;
        case 3: v = "A" + Word(&r, "abcXYZ #;:\\'\",$%\xc3\xa9 \t", 0, r.P(0.05) ? (r.P(0.5) ? 3900 : 20000) : 40) + "z"; break;
        default: v = "w" + Word(&r, "XYZ", 0, 6); break;
      }
      { size_t a = v.find_first_not_of(" \t"), b = v.find_last_not_of(" \t"); v = a == std::string::npos ? "q" : v.substr(a, b - a + 1); }
      l = Blank(&r) + kk + Blank(&r) + "=" + Blank(&r) + v + Blank(&r);
      if (!fail) { want[Lower(kk)] = v; ++nset; }
    }
    text += l; if (i + 1 < lines || lastnl) text += eol;
  }
  std::string dir = r.P(0.5) ? c->tmp + "/d" : c->tmp; mkdir(dir.c_str(), 0755);
  std::string path = dir + "/" + (r.P(0.5) ? "a.conf" : "b"); WriteFile(path, text);
  std::string given = path, prefix = dir + "/";
  if (r.P(0.2)) { if (chdir(dir.c_str()) != 0) _exit(98); given = path.substr(dir.size() + 1); prefix = ""; }
  else if (r.P(0.2)) { if (chdir(dir.c_str()) != 0) _exit(98); given = "./" + path.substr(dir.size() + 1); prefix = "./"; }
  Configuration conf; Status st = conf.Read(given);
  if (st.ok() == fail) { c->Violation(fail ? "conf-accepted" : "conf-refused", fail ? "malformed line '%s' among %d lines accepted%s" : "text without malformed line refused%s (%d lines): %s", fail ? bad.c_str() : "", lines, st.what().c_str()); return; }
  if (fail) { if (st.what().empty()) c->Violation("conf-message", "no message"); c->Count("refused"); c->nontrivial = true; c->SigS(bad); c->Sig(lines); return; }
  if (conf.filename() != given) { c->Violation("conf-filename", "%s", conf.filename().c_str()); return; }
  for (int q = 0; q < (many ? 1500 : 12); ++q) {
    std::string k = q < nk ? keys[q] : r.P(0.5) ? r.Pick(keys) : Word(&r, "abcdefgXYZ_019.-", 1, 4); std::string kk = k;
    for (auto &ch : kk) { if (r.P(0.3)) { if (ch >= 'a' && ch <= 'z') ch -= 32; else if (ch >= 'A' && ch <= 'Z') ch += 32; } }
    auto it = want.find(Lower(k)); bool has = it != want.end(); std::string v = has ? it->second : "";
    std::string got = conf.GetStringOrElse(kk, "dflt");
    if (got != (has ? v : "dflt")) { c->Violation("conf-value", "key '%s' gives '%s', the file says '%s'", kk.c_str(), got.c_str(), has ? v.c_str() : "(nothing)"); return; }
    std::string s = "untouched"; st = conf.GetString(kk, &s);
    if (st.ok() != has || (has && s != v) || (!has && st.what().empty())) { c->Violation("conf-value", "GetString('%s') gives '%s'", kk.c_str(), s.c_str()); return; }
    std::string wp = has ? (v[0] == '/' ? v : prefix + v) : "dp";
    got = conf.GetPathOrElse(kk, "dp");
    if (got != wp) { c->Violation("conf-path", "path '%s' (configuration '%s', value '%s') resolves to '%s', expected '%s'", kk.c_str(), given.c_str(), v.c_str(), got.c_str(), wp.c_str()); return; }
    s = "u"; st = conf.GetPath(kk, &s);
    if (st.ok() != has || (has && s != wp)) { c->Violation("conf-path", "GetPath('%s') gives '%s', expected '%s'", kk.c_str(), s.c_str(), wp.c_str()); return; }
    // integers
    errno = 0; char *end; long long iv = strtoll(v.c_str(), &end, 10);
    bool isint = has && *end == 0 && !v.empty() && v.find_first_of(" \t+") == std::string::npos && iv >= INT_MIN && iv <= INT_MAX && errno == 0;
    int x = 4711; bool threw = false;
    try { st = conf.GetInteger(kk, &x); } catch (...) { threw = true; }
    if (threw) { c->Violation("conf-throw", "GetInteger raises for '%s'", v.c_str()); return; }
    bool maybe = v.find('+') != std::string::npos;     // not claimed
    if (!maybe && (st.ok() != isint || (isint && x != iv) || (!st.ok() && st.what().empty()))) { c->Violation("conf-int", "GetInteger of '%s' gives %s %d", has ? v.c_str() : "(missing)", st.ok() ? "ok" : st.what().c_str(), x); return; }
    if (isint || !has) { int y = conf.GetIntegerOrElse(kk, -77); if (y != (has ? (int)iv : -77)) { c->Violation("conf-int", "GetIntegerOrElse of '%s' gives %d", v.c_str(), y); return; } }
    c->Count("lookups"); if (isint) c->Count("integers"); if (has) c->Count("present");
  }
  c->nontrivial = nset > 1; c->Sig(nset); c->SigS(text.substr(0, 60)); c->Count("files");
  c->Sample("%d lines, %zu keys, %s line ends, %s final newline: every lookup is the last setting", lines, want.size(), eol[0] == '\r' ? "CRLF" : "LF", lastnl ? "with" : "no");
}

// ------------------------------------------------------------------ C22
static void SymCase(Ctx *c) {
  Rng r = c->R(22);
  int n = r.P(0.03) ? r.Int(60000, 90000) : r.LogInt(2, 1500);
  std::map<int, std::string> by; std::set<std::string> used;
  int span = r.P(0.4) ? n : n * r.Int(1, 5); std::vector<int> ids; for (int i = 0; i < span; ++i) ids.push_back(i);
  bool shuffle = r.P(0.6); if (span > n || shuffle) r.Shuffle(&ids); ids.resize(n); if (!shuffle) std::sort(ids.begin(), ids.end());
  int bos = r.Int(0, n - 1), eos = r.Int(0, n - 1); while (eos == bos) eos = r.Int(0, n - 1);
  std::string text; bool crlf = r.P(0.3), lastnl = r.P(0.6);
  int nosym = r.P(0.1) ? r.Int(1, 3) : 0;
  int badline = r.P(0.25) ? r.Int(0, n - 1) : -1; std::string bad;
  for (int i = 0; i < n; ++i) {
    std::string w = i == bos ? (nosym & 1 ? "<ss>" : "<s>") : i == eos ? (nosym & 2 ? "</ss>" : "</s>") : "";
    while (w.empty() || (i != bos && i != eos && used.count(w))) w = r.P(0.1) ? "\xe4\xb8\xad" + Word(&r, "\xe4\xb8\xad\xe6\x96\x87", 0, 6) + std::to_string(i) : r.P(0.02) ? Word(&r, "abc", 1000, r.P(0.7) ? 3900 : 12000) + std::to_string(i) : Word(&r, "abcdefghijkABC#<>'=0123456789", 1, 7) + (n > 5000 ? std::to_string(i) : "");
    used.insert(w); by[ids[i]] = w;
    std::string l = w + " " + std::to_string(ids[i]);
    if (i == badline) {
      static const char *b[] = {"onlyword", "a b c", "word -1", "word x7", "word 7x", "word  ", "word 1.5", "word 99999999999999999999", "w  5", "", "word -2147483649", "word --", "word 4294967296", "word 4294967301", "word 5 6", "w 3 x y", "<s> 1 2", "word 1 2 3"};
      bad = b[r.Int(0, (int)(sizeof(b) / sizeof(b[0])) - 1)]; l = bad;
    }
    text += l; if (i + 1 < n || lastnl || i == badline) text += crlf ? "\r\n" : "\n";
  }
  bool fail = badline >= 0 || nosym;
  std::string path = c->Path("w.txt"); WriteFile(path, text);
  SymbolTable t; bool threw = false; Status st;
  try { st = t.Read(path); } catch (...) { threw = true; }
  if (threw) { c->Violation("sym-throw", "bad line '%s' raises", bad.c_str()); return; }
  if (st.ok() == fail) { c->Violation(fail ? "sym-accepted" : "sym-refused", fail ? "%d entries with bad line '%s' (line %d), missing sentence symbols %d: accepted%s" : "valid table of %d entries%s refused%.0d%.0d: %s", n, fail ? bad.c_str() : "", fail ? badline : 0, fail ? nosym : 0, st.what().c_str()); return; }
  c->nontrivial = true; c->Sig(n); c->SigS(bad); c->Sig(nosym); c->Sig(span); c->SigS(by.begin()->second);
  if (fail) { if (st.what().empty()) c->Violation("sym-message", "no message for '%s'", bad.c_str()); c->Count("refused"); return; }
  if (t.bos_id() != ids[bos] || t.eos_id() != ids[eos]) { c->Violation("sym-bos", "sentence symbols %d, %d reported as %d, %d", ids[bos], ids[eos], t.bos_id(), t.eos_id()); return; }
  int mx = by.rbegin()->first; std::map<std::string, int> rev;
  for (int i = 0; i <= mx; ++i) {
    auto it = by.find(i); const char *g = t.Get(i);
    if (std::string(g) != (it == by.end() ? "" : it->second)) { c->Violation("sym-word", "id %d of %d entries gives '%s', file says '%s'", i, n, g, it == by.end() ? "(gap)" : it->second.c_str()); return; }
    if (it != by.end()) rev[it->second] = i; else c->Count("gaps");
    c->Count("ids");
  }
  for (auto &kv : rev) if (t.GetId(kv.first) != kv.second) { c->Violation("sym-id", "word '%s' gives %d, file says %d", kv.first.c_str(), t.GetId(kv.first), kv.second); return; }
  for (int i = 0; i < 20; ++i) { std::string w = i < 3 ? (i == 0 ? "" : i == 1 ? "<S>" : " ") : Word(&r, "abcdXYZ", 1, 4); if (!rev.count(w) && t.GetId(w) != SymbolTable::kNotExist) { c->Violation("sym-unlisted", "unlisted '%s' gives %d", w.c_str(), t.GetId(w)); return; } }
  c->Count("files");
  c->Sample("%d entries over ids 0..%d%s%s: all words, ids and gaps as listed", n, mx, crlf ? ", CRLF" : "", lastnl ? "" : ", no final newline");
}

// ------------------------------------------------------------------ LM models
struct Arc { int next, il, ol; float w; };
struct Model { int start; std::vector<float> fin; std::vector<std::vector<Arc> > arcs;
  std::string B() const {
    std::string s = "pk::fst_0"; s.resize(32, '\0'); int na = 0; for (auto &a : arcs) na += a.size();
    P32(&s, 12 + 8 * (int)fin.size() + 16 * na); P32(&s, (int)fin.size()); P32(&s, na); P32(&s, start);
    for (float f : fin) PF(&s, f);
    int at = 0; for (auto &a : arcs) { P32(&s, a.empty() ? -1 : at); at += a.size(); }
    for (auto &v : arcs) for (auto &a : v) { P32(&s, a.next); P32(&s, a.il); P32(&s, a.ol); PF(&s, a.w); }
    return s; } };
// Backoff model: acyclic backoff links towards lower states' "order".
static Model RandLm(Rng *r, int V, int eos) {
  Model m; int n = r->LogInt(1, 200); m.arcs.resize(n); m.fin.resize(n);
  bool root0 = r->P(0.85);
  std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; if (!root0) r->Shuffle(&perm);
  for (int i = 0; i < n; ++i) {
    int s = perm[i]; std::set<int> labs; double dens = i == 0 ? r->Uni(0.3, 1.2) : r->P(0.2) ? 0 : r->Uni(0, 0.3);
    for (int w = 1; w <= V; ++w) if (r->P(dens)) labs.insert(w);
    if (i > 0 && r->P(0.92)) labs.insert(0);
    if (i == 0 && r->P(0.1) && n > 1) labs.clear();
    for (int w : labs) { Arc a; a.il = w; a.ol = w; a.w = (float)r->Uni(-2, 12); a.next = w == 0 ? perm[r->Int(0, i - 1)] : r->Int(0, n - 1); m.arcs[s].push_back(a); }
    m.fin[s] = r->P(0.4) ? (float)r->Uni(-1, 6) : INFINITY;
  }
  m.start = r->Int(0, n - 1);
  (void)eos; return m;
}
static const Arc *Plain(const Model &m, int s, int lab) {      // arcs are stored in label order
  auto it = std::lower_bound(m.arcs[s].begin(), m.arcs[s].end(), lab, [](const Arc &a, int l) { return a.il < l; });
  return it != m.arcs[s].end() && it->il == lab ? &*it : nullptr;
}
// The sizes real models have: more than 2^16 states, arcs of one state, and word ids.
static Model BigLm(Rng *r, int *V, std::string *what) {
  Model m; int k = r->Int(0, 2); *what = k == 0 ? "states" : k == 1 ? "root arcs" : "word ids";
  int n = k == 0 ? r->Int(65537, 140000) : r->Int(2, 300), wide = k == 1 ? r->Int(65537, 120000) : r->Int(50, 400);
  *V = k == 2 ? r->Int(1 << 17, 1 << 22) : wide + r->Int(0, 50); m.arcs.resize(n); m.fin.resize(n);
  for (int s = 0; s < n; ++s) {
    std::set<int> labs; int na = s == 0 ? wide : r->P(0.2) ? 0 : r->LogInt(1, 6); if (s == 1 && r->P(0.5)) na = wide / 2;
    if (k == 1 && s == 0 && r->P(0.5)) { for (int w = 1; w <= wide; ++w) labs.insert(w); } else for (int i = 0; i < na; ++i) labs.insert(r->Int(1, *V));
    if (r->P(0.3)) labs.insert(*V); if (r->P(0.3)) labs.insert(1);
    if (s > 0 && r->P(0.95)) labs.insert(0);
    for (int w : labs) { Arc a; a.il = w; a.ol = w; a.w = (float)r->Uni(-2, 12); a.next = w == 0 ? (r->P(0.5) ? 0 : std::max(0, s - r->LogInt(1, s))) : r->P(0.5) ? n - 1 - r->Int(0, std::min(n - 1, 50)) : r->Int(0, n - 1); m.arcs[s].push_back(a); }
    m.fin[s] = r->P(0.4) ? (float)r->Uni(-1, 6) : INFINITY;
  }
  m.start = r->P(0.5) ? n - 1 : r->Int(0, n - 1); return m;
}
static bool RefArc(const Model &m, int s, int lab, Arc *out, double *cost, int *depth) {
  double acc = 0; *depth = 0;
  for (;;) {
    if (const Arc *a = Plain(m, s, lab)) { *out = *a; *cost = acc + a->w; return true; }
    if (m.arcs[s].empty() || m.arcs[s][0].il != 0) return false;
    acc += m.arcs[s][0].w; s = m.arcs[s][0].next; ++*depth;
  }
}
static double RefFinal(const Model &m, int s) {
  double acc = 0;
  for (;;) { if (std::isfinite(m.fin[s])) return acc + m.fin[s]; if (m.arcs[s].empty() || m.arcs[s][0].il != 0) return INFINITY; acc += m.arcs[s][0].w; s = m.arcs[s][0].next; }
}
static bool CNear(double a, double b) { return a == b || fabs(a - b) <= 2e-4; }
static void LmCase(Ctx *c) {
  Rng r = c->R(13);
  int V = r.LogInt(3, 120); int bos = r.Int(1, V), eos = r.Int(1, V); while (eos == bos) eos = r.Int(1, V);
  bool big = r.P(0.015); std::string what; Model m = big ? BigLm(&r, &V, &what) : RandLm(&r, V, eos); if (big) c->Count("large_models");
  if (big) { bos = r.P(0.5) ? V : m.arcs[0].empty() ? 1 : m.arcs[0][r.Next() % m.arcs[0].size()].il; do eos = r.P(0.5) ? r.Int(1, V) : r.Int(std::max(1, V - 5), V); while (eos == bos); }
  std::vector<int> visit; { int n = (int)m.fin.size(); if (n <= 500) for (int s = 0; s < n; ++s) visit.push_back(s); else { for (int i = 0; i < 600; ++i) visit.push_back(r.P(0.5) ? r.Int(0, n - 1) : r.Int(65000, n - 1)); visit.push_back(0); visit.push_back(n - 1); } }
  // half of the words asked for are listed somewhere
  auto word = [&]() { if (big && r.P(0.6)) { const std::vector<Arc> &v = m.arcs[r.P(0.6) ? 0 : r.Pick(visit)]; if (!v.empty()) { int w = v[r.P(0.2) ? v.size() - 1 : r.Next() % v.size()].il; if (w) return w; } } return r.Int(1, V + 2); };
  std::string path = c->Path("lm"); WriteFile(path, m.B());
  util::ReadableFile fd; LmFst lm; Status st = fd.Open(path); if (st.ok()) st = lm.Read(&fd);
  if (!st.ok()) { c->Violation("lm-read", "valid graph refused: %s", st.what().c_str()); return; }
  Fst plain; { util::ReadableFile f2; st = f2.Open(path); if (st.ok()) st = plain.Read(&f2); if (!st.ok()) { c->Violation("lm-read", "%s", st.what().c_str()); return; } }
  int n = (int)m.fin.size();
  if (lm.StartState() != m.start || plain.StartState() != m.start) { c->Violation("lm-start", "start %d read as %d", m.start, lm.StartState()); return; }
  for (int s = 0; s < n; ++s) {
    Fst::ArcIterator it = plain.IterateArcs(s), it2 = lm.IterateArcs(s); size_t k = 0; const FstArc *a;
    while ((a = it.Next()) != nullptr) {
      const FstArc *b = it2.Next();
      if (k >= m.arcs[s].size() || !b || a->next_state != m.arcs[s][k].next || a->input_label != m.arcs[s][k].il || a->output_label != m.arcs[s][k].ol || a->weight != m.arcs[s][k].w || memcmp(a, b, sizeof *a)) { c->Violation("lm-iterate", "state %d: arc %zu of %zu differs", s, k, m.arcs[s].size()); return; }
      ++k;
    }
    if (k != m.arcs[s].size() || it2.Next()) { c->Violation("lm-iterate", "state %d of %d: iteration yields %zu of %zu arcs", s, n, k, m.arcs[s].size()); return; }
    float pf = plain.Final(s); if (!(pf == m.fin[s])) { c->Violation("lm-final", "state %d: final %g, stored %g", s, pf, m.fin[s]); return; }
  }
  long hits = 0, miss = 0, back = 0;
  for (int pass = 0; pass < 2; ++pass) {
    if (pass == 1) lm.InitBucket0();
    for (int s : visit) {
      double rf = RefFinal(m, s), gf = lm.Final(s);
      if (!CNear(gf, rf)) { c->Violation("lm-final", "state %d%s: sentence-final cost %.6g, definition %.6g", s, pass ? " (table built)" : "", gf, rf); return; }
      for (int q = 0; q < (n > 60 || big ? 40 : V + 2); ++q) {
        int w = n > 60 || big ? word() : q + 1; Arc a; double cost; int d; FstArc g;
        g.next_state = g.input_label = g.output_label = -9; g.weight = -9;
        bool want = RefArc(m, s, w, &a, &cost, &d), ok = lm.GetArc(s, w, &g);
        if (ok != want) { c->Violation(ok ? "lm-found" : "lm-missed", "state %d word %d%s: lookup %s, but %s state on the backoff chain has it", s, w, pass ? " (table built)" : "", ok ? "succeeds" : "fails", want ? "a" : "no"); return; }
        if (ok && (g.next_state != a.next || g.input_label != w || g.output_label != a.ol || !CNear(g.weight, cost))) { c->Violation("lm-arc", "state %d word %d%s: arc to %d cost %.6g, definition: to %d cost %.6g (%d backoffs)", s, w, pass ? " (table built)" : "", g.next_state, g.weight, a.next, cost, d); return; }
        ok ? ++hits : ++miss; if (ok && d) ++back;
        // plain lookup: no backoff
        bool pw = false; if (const Arc *x = Plain(m, s, w)) { pw = true; a = *x; }
        bool pg = plain.GetArc(s, w, &g); if (pg != pw || (pg && (g.next_state != a.next || g.weight != a.w))) { c->Violation("fst-arc", "state %d word %d: plain lookup differs from the stored arcs", s, w); return; }
      }
    }
  }
  // difference model
  std::vector<float> small(V + 3); for (auto &x : small) x = (float)r.Uni(0, 12);
  Vector<float> sm((int)small.size()); for (int i = 0; i < sm.Dim(); ++i) sm(i) = small[i];
  std::string words; for (int i = 0; i < V + 3; ++i) if (V < 200000 || i == bos || i == eos || i == V + 2) words += (i == bos ? "<s>" : i == eos ? "</s>" : "w" + std::to_string(i)) + " " + std::to_string(i) + "\n";
  std::string wp = c->Path("w"); WriteFile(wp, words); SymbolTable sym; st = sym.Read(wp); if (!st.ok()) { c->Violation("lm-sym", "%s", st.what().c_str()); return; }
  DeltaLmFst delta(&sm, &lm, &sym); Arc a; double cost; int d;
  if (RefArc(m, m.start, bos, &a, &cost, &d)) { if (delta.StartState() != a.next) { c->Violation("delta-start", "start state %d, expected %d after <s>", delta.StartState(), a.next); return; } c->Count("delta_starts"); }
  for (int s : visit) {
    double want = INFINITY; if (RefArc(m, s, eos, &a, &cost, &d)) want = cost + RefFinal(m, a.next) - small[eos];
    if (!CNear(delta.Final(s), want)) { c->Violation("delta-final", "state %d: sentence-end cost %.6g, definition %.6g", s, delta.Final(s), want); return; }
    for (int q = 0; q < 12; ++q) {
      int w = big ? std::min(V, word()) : r.Int(1, V); FstArc g; bool ok = delta.GetArc(s, w, &g), wok = RefArc(m, s, w, &a, &cost, &d);
      if (ok != wok || (ok && (g.next_state != a.next || !CNear(g.weight, cost - small[w])))) { c->Violation("delta-arc", "state %d word %d: %s cost %.6g, definition %s cost %.6g", s, w, ok ? "found" : "missing", ok ? g.weight : 0, wok ? "found" : "missing", wok ? cost - small[w] : 0); return; }
      c->Count("delta_lookups");
    }
  }
  c->Count("lookups_found", hits); c->Count("lookups_failed", miss); c->Count("lookups_backed_off", back); c->Count("states", n);
  c->nontrivial = back > 0 && miss >= 0 && n > 1; c->Sig(n); c->Sig(V); c->Sig(hits); c->Sig(back);
  c->Sample("%d states, %d words%s: %ld lookups found (%ld through backoff), %ld refused, as defined", n, V, big ? (", large in " + what).c_str() : "", hits, back, miss);
}

// ------------------------------------------------------------------ C14
struct Odd : public IFst {       // any deterministic answer, incl. shared next states and labels
  uint64_t salt; double pfail; mutable long asked; explicit Odd(uint64_t s, double p) : salt(s), pfail(p), asked(0) {}
  int StartState() const override { return (int)(Mix(salt) % 1000); }
  float Final(int s) const override { return (float)(Mix(salt ^ s ^ 0xf00d) % 1000) / 8; }
  bool GetArc(int s, int l, FstArc *a) const override {
    ++asked; uint64_t h = Mix(salt * 31 + (uint64_t)s * 1000003 + l);
    if ((h >> 40 & 1023) < pfail * 1024) { a->next_state = -5; a->input_label = l; a->weight = 1e9f; return false; }
    a->next_state = (int)(h % 50000); a->input_label = l; a->output_label = (int)(h >> 20 & 255); a->weight = (float)(h >> 30 & 65535) / 64; return true;
  } };
static void CacheCase(Ctx *c) {
  Rng r = c->R(14);
  Odd odd(r.Next(), r.P(0.3) ? 0 : r.Uni(0, 0.6)); std::unique_ptr<LmFst> lm; const IFst *f = &odd; int V = 5000, n = 100000;
  bool real = r.P(0.5); Model m; if (!real && r.P(0.3)) { n = r.P(0.5) ? INT_MAX : r.Int(100000, 1 << 29); V = r.P(0.5) ? INT_MAX : r.Int(5000, 1 << 29); c->Count("huge_ids"); }
  if (real) {
    V = r.LogInt(3, 120); m = RandLm(&r, V, 1); std::string path = c->Path("lm"); WriteFile(path, m.B()); lm.reset(new LmFst()); util::ReadableFile fd; Status st = fd.Open(path); if (st.ok()) st = lm->Read(&fd);
    if (!st.ok()) { c->Violation("lm-read", "%s", st.what().c_str()); return; } if (r.P(0.5)) lm->InitBucket0(); f = lm.get(); n = (int)m.fin.size();
  }
  static const int sizes[] = {1, 2, 3, 7, 31, 64, 961, 1000, 65536, 1000000};
  int B = sizes[r.Int(0, c->cur % 10 == 0 ? 9 : 8)];
  CachedFst cf(f, B);
  if (cf.StartState() != f->StartState()) { c->Violation("cache-start", "%d", cf.StartState()); return; }
  // a pool of queries that revisit each other and collide in the cache
  std::vector<std::pair<int, int> > pool; int np = r.LogInt(1, 400);
  for (int i = 0; i < np; ++i) {
    int s = r.P(0.05) ? 0 : r.P(0.3) ? r.LogInt(1, n) - 1 : r.Int(0, n - 1), l = r.Int(1, V);
    if (!pool.empty() && r.P(0.5)) { auto q = r.Pick(pool); int k = r.Int(0, 3);
      if (k == 0) { s = q.first; } else if (k == 1) { l = q.second; } else if (k == 2) { s = q.first < n - 1 ? q.first + 1 : q.first; l = q.second - 31; } else { s = q.first; l = q.second > V - B ? q.second : q.second + B; } }
    if (s < 0 || s >= n || l < 1 || l > V) continue;
    pool.push_back({s, l});
  }
  if (pool.empty()) pool.push_back({0, 1});
  int Q = r.LogInt(50, 4000); long found = 0, failed = 0, repeats = 0; std::set<std::pair<int, int> > seen;
  long before = odd.asked, extra = 0;
  for (int i = 0; i < Q; ++i) {
    auto q = r.Pick(pool); if (!seen.insert(q).second) ++repeats;
    if (r.P(0.1)) { int s = q.first; float a = cf.Final(s), b = f->Final(s); if (!(a == b || (std::isinf(a) && std::isinf(b)))) { c->Violation("cache-final", "state %d: %g, direct %g", s, a, b); return; } }
    FstArc a(-1, -1, -1, -1), b(-2, -2, -2, -2); bool ok = cf.GetArc(q.first, q.second, &a); long z = odd.asked; bool want = f->GetArc(q.first, q.second, &b); extra += odd.asked - z;
    if (ok != want) { c->Violation("cache-success", "query %d (state %d, word %d), cache of %d: %s, direct lookup %s", i, q.first, q.second, B, ok ? "found" : "not found", want ? "found" : "not found"); return; }
    if (ok && (a.next_state != b.next_state || a.input_label != b.input_label || a.output_label != b.output_label || a.weight != b.weight)) { c->Violation("cache-arc", "query %d (state %d, word %d), cache of %d: arc to %d labels %d:%d cost %.9g, direct: to %d labels %d:%d cost %.9g", i, q.first, q.second, B, a.next_state, a.input_label, a.output_label, a.weight, b.next_state, b.input_label, b.output_label, b.weight); return; }
    ok ? ++found : ++failed;
  }
  if (!real) c->Count("served_from_cache", Q - (odd.asked - before - extra));
  c->Count("queries", Q); c->Count("failed", failed); c->Count("repeats", repeats);
  c->nontrivial = repeats > 0 && found > 1; c->Sig(B); c->Sig(found); c->Sig(failed); c->Sig(np);
  c->Sample("cache of %d over %s: %d queries (%ld repeated, %ld failing) all as direct", B, real ? "a backoff model" : "an arbitrary model", Q, repeats, failed);
}

// ------------------------------------------------------------------ C24
struct Item { std::string kind, bytes; std::vector<float> f; std::vector<int32_t> i; std::vector<double> d; std::vector<std::vector<float> > m; Model g; };
static Item RandItem(Rng *r, bool big) {
  Item t; int k = r->Int(0, 4); int n = big ? r->Int(20000, 300000) : r->P(0.1) ? 0 : r->LogInt(1, 60);
  if (k == 0) { t.kind = "vector<float>"; for (int j = 0; j < n; ++j) t.f.push_back(r->P(0.05) ? INFINITY : (float)r->Gauss()); t.bytes = VecB(t.f); }
  else if (k == 1) { t.kind = "vector<int32>"; for (int j = 0; j < n; ++j) t.i.push_back((int32_t)r->Next()); t.bytes = VecB(t.i); }
  else if (k == 2) { t.kind = "vector<double>"; for (int j = 0; j < n; ++j) t.d.push_back(r->Gauss()); t.bytes = VecB(t.d); }
  else if (k == 3) { t.kind = "matrix"; int R = big ? (r->P(0.5) ? r->LogInt(1, 30) : r->Int(1000, 70000)) : r->P(0.1) ? 0 : r->LogInt(1, 12), C = big ? (R > 100 ? r->LogInt(1, 8) : r->Int(1000, 70000 / R + 1000)) : R ? r->LogInt(1, 12) : 0; int sz = 8; for (int a = 0; a < R; ++a) { t.m.push_back(std::vector<float>(C)); for (auto &x : t.m.back()) x = (float)r->Gauss(); sz += 12 + 4 * C; }
    t.bytes = "MAT0"; P32(&t.bytes, sz); P32(&t.bytes, R); P32(&t.bytes, C); for (auto &row : t.m) t.bytes += VecB(row); }
  else if (big) { t.kind = "graph"; int V; std::string what; t.g = BigLm(r, &V, &what); t.bytes = t.g.B(); }
  else { t.kind = "graph"; t.g = RandLm(r, r->LogInt(2, 12), 1); if (t.g.fin.size() > 30) t.g = RandLm(r, 4, 1); t.bytes = t.g.B(); }
  return t;
}
// 0 read and equal, 1 refused, 2 read but different
static int ReadItem(util::ReadableFile *fd, const Item &t, std::string *why) {
  Status st;
#define REFUSED { *why = st.what(); return 1; }
  if (t.kind == "vector<float>") { Vector<float> v(3); st = v.Read(fd); if (!st.ok()) REFUSED; if (v.Dim() != (int)t.f.size()) return 2; return t.f.size() && memcmp(v.Data(), t.f.data(), 4 * t.f.size()) ? 2 : 0; }
  if (t.kind == "vector<int32>") { Vector<int32_t> v(2); st = v.Read(fd); if (!st.ok()) REFUSED; if (v.Dim() != (int)t.i.size()) return 2; return t.i.size() && memcmp(v.Data(), t.i.data(), 4 * t.i.size()) ? 2 : 0; }
  if (t.kind == "vector<double>") { Vector<double> v; st = v.Read(fd); if (!st.ok()) REFUSED; if (v.Dim() != (int)t.d.size()) return 2; return t.d.size() && memcmp(v.Data(), t.d.data(), 8 * t.d.size()) ? 2 : 0; }
  if (t.kind == "matrix") { Matrix<float> v(2, 3); st = v.Read(fd); if (!st.ok()) REFUSED; int C = t.m.empty() ? 0 : (int)t.m[0].size(); if (v.NumRows() != (int)t.m.size() || v.NumCols() != C) return 2; for (int i = 0; i < v.NumRows(); ++i) if (memcmp(v.Row(i).Data(), t.m[i].data(), 4 * C)) return 2; return 0; }
  Fst f; st = f.Read(fd); if (!st.ok()) REFUSED; if (f.StartState() != t.g.start) return 2;
  for (size_t s = 0; s < t.g.fin.size(); ++s) { if (!(f.Final((int)s) == t.g.fin[s])) return 2; Fst::ArcIterator it = f.IterateArcs((int)s); const FstArc *a; size_t k = 0; while ((a = it.Next())) { if (k >= t.g.arcs[s].size()) return 2; const Arc &w = t.g.arcs[s][k++]; if (a->next_state != w.next || a->input_label != w.il || a->output_label != w.ol || a->weight != w.w) return 2; } if (k != t.g.arcs[s].size()) return 2; }
  return 0;
}
static int ReadAll(const std::string &path, const std::vector<Item> &items, size_t *upto, std::string *why) {
  util::ReadableFile fd; Status st = fd.Open(path); if (!st.ok()) { *why = st.what(); return 1; }
  for (*upto = 0; *upto < items.size(); ++*upto) { int k = ReadItem(&fd, items[*upto], why); if (k) return k; }
  return 0;
}
static void BinCase(Ctx *c) {
  Rng r = c->R(24); std::vector<Item> items; std::string all, desc; int n = r.Int(1, 4); std::vector<size_t> start; int large = r.P(0.02) ? r.Int(0, n - 1) : -1; if (large >= 0) c->Count("files_with_large_objects");
  for (int i = 0; i < n; ++i) { items.push_back(RandItem(&r, i == large)); start.push_back(all.size()); all += items[i].bytes; desc += (i ? ", " : "") + items[i].kind + Str("(%zu bytes)", items[i].bytes.size()); }
  std::string path = c->Path("b"), why; size_t at;
  WriteFile(path, all);
  int k = ReadAll(path, items, &at, &why);
  if (k) { c->Violation(k == 1 ? "bin-refused" : "bin-differs", "%s: object %zu (%s) %s", desc.c_str(), at, items[at].kind.c_str(), k == 1 ? ("refused: " + why).c_str() : "read back differently"); return; }
  c->Count("objects_read", n);
  // every truncation
  std::vector<size_t> cuts; if (large >= 0) for (int i = 0; i < 8; ++i) cuts.push_back(r.P(0.5) ? all.size() - 1 - r.Int(0, 100) : r.Int(0, (int)all.size() - 1)); else if (all.size() <= 400 || c->thorough) for (size_t i = 0; i < all.size() && i < 4000; ++i) cuts.push_back(i); else for (int i = 0; i < 150; ++i) cuts.push_back(r.Int(0, (int)all.size() - 1));
  // cuts at round distances from the start of the file and of an object's data, where a reader working in blocks ends one
  if (large >= 0) for (int q = 0; q < 16; ++q) {
    size_t o = r.P(0.3) ? 0 : start[large] + (items[large].kind == "graph" ? 44 : items[large].kind == "matrix" ? 16 : 12), u = (size_t)1 << r.Int(q & 1 ? 15 : 9, 16);
    if (o && items[large].kind == "graph" && r.P(0.6)) o += 4 * items[large].g.fin.size() * r.Int(1, 2);
    if (o + u < all.size()) cuts.push_back(o + u * r.Int(1, (int)((all.size() - 1 - o) / u)));
  }
  for (size_t cut : cuts) {
    if (truncate(path.c_str(), 0)) _exit(98); WriteFile(path, all.substr(0, cut)); why.clear();
    k = ReadAll(path, items, &at, &why);
    size_t expect = 0; while (expect + 1 < start.size() && start[expect + 1] <= cut) ++expect;
    if (k != 1 || why.empty()) { c->Violation("bin-truncated", "%s cut to %zu of %zu bytes: object %zu %s", desc.c_str(), cut, all.size(), at, k == 0 ? "all accepted" : k == 2 ? "yields an object" : "refused without a message"); return; }
    if (at != expect) { c->Violation("bin-truncated", "%s cut to %zu: object %zu is refused, although the cut is in %zu", desc.c_str(), cut, at, expect); return; }
    c->Count("truncations_refused");
  }
  // damaged headers
  for (int q = 0; q < 12; ++q) {
    int w = r.Int(0, n - 1); const Item &t = items[w]; std::string b = all, what; size_t o = start[w];
    int kind = r.Int(0, 3); int32_t v;
    if (kind == 0) { size_t len = t.kind == "graph" ? 9 : 4; size_t i = o + r.Int(0, (int)len - 1); b[i] = (char)(b[i] ^ (1 << r.Int(0, 7))); what = "section name"; }
    else {
      size_t f = 0; 
      if (t.kind == "matrix") { if (t.m.empty()) continue; f = kind == 1 ? o + 8 : kind == 2 ? o + 12 : o + 16 + (12 + 4 * t.m[0].size()) * r.Int(0, (int)t.m.size() - 1) + (r.P(0.5) ? 4 : 8); what = kind == 1 ? "rows" : kind == 2 ? "columns" : "row header"; if (kind == 1) { memcpy(&v, &b[f], 4); v = r.P(0.5) ? -r.Int(1, 1000) : r.P(0.5) ? INT_MIN : 0; memcpy(&b[f], &v, 4); goto go; } }
      else if (t.kind == "graph") { f = o + (kind == 1 ? 32 : kind == 2 ? 36 : 40); what = kind == 1 ? "section size" : kind == 2 ? "state count" : "arc count"; }
      else { f = o + (kind == 1 ? 4 : 8); what = kind == 1 ? "section size" : "dimension"; }
      memcpy(&v, &b[f], 4); int32_t old = v; int z = r.Int(0, 4);
      v = z == 0 ? old + 1 : z == 1 ? old - 1 : z == 2 ? -old - 1 : z == 3 ? INT_MIN + r.Int(0, 3) : old + r.Int(2, 64);
      if (t.kind == "matrix" && what == "columns" && v <= 0 && t.m.empty()) continue;
      memcpy(&b[f], &v, 4);
      // counts whose sizes leave 32 bits
      if (t.kind == "graph" && kind > 1 && r.P(0.4)) { v = kind == 2 ? old + (1 << 29) * r.Int(1, 3) : old + (1 << 28) * r.Int(1, 7); memcpy(&b[f], &v, 4); what = "far larger " + what; c->Count("overflowing_counts"); }
      if (t.kind == "matrix" && what != "row header" && r.P(0.3)) { int32_t x = 1 << r.Int(16, 30), y = r.P(0.5) ? 1 << r.Int(16, 30) : r.P(0.5) ? INT_MAX - r.Int(0, 20) : r.LogInt(1 << 16, INT_MAX); if (r.P(0.5)) std::swap(x, y); memcpy(&b[o + 8], &x, 4); memcpy(&b[o + 12], &y, 4); what = Str("shape %d x %d", x, y); c->Count("overflowing_counts"); }
    }
go: WriteFile(path, b); why.clear();
    k = ReadAll(path, items, &at, &why);
    if (k != 1 || at != (size_t)w || why.empty()) { c->Violation("bin-header", "%s: %s of object %d (%s) damaged: %s", desc.c_str(), what.c_str(), w, t.kind.c_str(), k == 0 ? "accepted" : k == 2 ? Str("object %zu read with other contents", at).c_str() : Str("object %zu refused: '%s'", at, why.c_str()).c_str()); return; }
    c->Count("damage_refused"); c->SigS(what);
  }
  c->nontrivial = all.size() > 12; c->SigS(desc);
  c->Sample("%s: read back exactly, %zu truncations and damaged headers refused", desc.c_str(), cuts.size());
}
// chains of backoff arcs as long as the model has states
static void DeepCase(Ctx *c) {
  Rng r = c->R(14); int n = r.LogInt(2000, c->thorough ? 1500000 : 600000), V = 12, bos = V + 1, eos = V + 2; Model m; m.arcs.resize(n); m.fin.assign(n, INFINITY); std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i;
  int order = r.Int(0, 2); if (order == 1) std::reverse(perm.begin(), perm.end()); else if (order == 2) r.Shuffle(&perm);
  double pb = r.P(0.3) ? 1e-5 : 0, pw = 3.0 / n; bool root = r.P(0.6);
  for (int i = 0; i < n; ++i) { std::vector<Arc> &v = m.arcs[perm[i]]; if (i && !r.P(pb)) { Arc a = {perm[i - 1], 0, 0, r.Int(-8, 8) / 8.0f}; v.push_back(a); } for (int w = 1; w <= eos; ++w) if (i == 0 ? root && r.P(0.7) : r.P(pw / 4)) { Arc a = {perm[r.Int(0, n - 1)], w, w, r.Int(-40, 40) / 8.0f}; v.push_back(a); } if (i == 0 ? r.P(0.5) : r.P(pw / 2)) m.fin[perm[i]] = r.Int(0, 40) / 8.0f; }
  m.start = perm[r.P(0.7) ? n - 1 : r.Int(0, n - 1)]; std::string path = c->Path("deep"); WriteFile(path, m.B()); util::ReadableFile fd; LmFst lm; Status st = fd.Open(path); if (st.ok()) st = lm.Read(&fd); if (!st.ok()) { c->Violation("lm-read", "valid graph refused: %s", st.what().c_str()); return; }
  std::string words; for (int i = 0; i <= eos; ++i) words += (i == bos ? "<s>" : i == eos ? "</s>" : "w" + std::to_string(i)) + " " + std::to_string(i) + "\n"; std::string wp = c->Path("w"); WriteFile(wp, words); SymbolTable sym; st = sym.Read(wp); if (!st.ok()) { c->Violation("lm-sym", "%s", st.what().c_str()); return; }
  Vector<float> sm(eos + 1); for (int i = 0; i <= eos; ++i) sm(i) = r.Int(0, 40) / 8.0f; DeltaLmFst delta(&sm, &lm, &sym); if (r.P(0.7)) lm.InitBucket0();
  auto find = [&](int s, int w, double *cost, long *depth) -> const Arc * { *cost = 0; *depth = 0; for (;;) { for (auto &a : m.arcs[s]) if (a.il == w) { *cost += a.w; return &a; } if (m.arcs[s].empty() || m.arcs[s][0].il) return nullptr; *cost += m.arcs[s][0].w; s = m.arcs[s][0].next; ++*depth; } };
  auto fin = [&](int s) { double cost = 0; for (;;) { if (m.fin[s] != INFINITY) return cost + m.fin[s]; if (m.arcs[s].empty() || m.arcs[s][0].il) return (double)INFINITY; cost += m.arcs[s][0].w; s = m.arcs[s][0].next; } };
  long deepest = 0, found = 0; for (int q = 0; q < 10; ++q) {
    int s = q == 0 ? perm[n - 1] : q == 1 ? m.start : perm[r.P(0.7) ? r.Int(n / 2, n - 1) : r.Int(0, n - 1)], w = r.Int(1, eos); double cost; long depth; const Arc *a = find(s, w, &cost, &depth); FstArc g; g.next_state = -9; g.weight = -9; deepest = std::max(deepest, depth);
    bool ok = lm.GetArc(s, w, &g); if (ok != !!a || (ok && (g.next_state != a->next || g.input_label != w || g.output_label != a->ol || !CNear(g.weight, cost)))) { c->Violation("deep-arc", "chain of %d states, word %d after %ld backoffs: %s, to %d cost %.6g; definition %s, to %d cost %.6g", n, w, depth, ok ? "found" : "missing", g.next_state, g.weight, a ? "found" : "missing", a ? a->next : -1, cost); return; }
    if (ok) { ++found; if (!delta.GetArc(s, w, &g) || !CNear(g.weight, cost - sm(w))) { c->Violation("deep-delta", "chain of %d states, word %d after %ld backoffs: difference %.6g, definition %.6g", n, w, depth, g.weight, cost - sm(w)); return; } }
    double rf = fin(s), gf = lm.Final(s); if (!CNear(gf, rf)) { c->Violation("deep-final", "chain of %d states: sentence-final cost %.6g, definition %.6g", n, gf, rf); return; }
    const Arc *e = find(s, eos, &cost, &depth); double want = e ? cost + fin(e->next) - sm(eos) : INFINITY; if (!CNear(delta.Final(s), want)) { c->Violation("deep-delta", "chain of %d states: sentence end %.6g, definition %.6g", n, delta.Final(s), want); return; }
    c->Count("deep_lookups");
  }
  c->Max("deepest_backoff", deepest); c->nontrivial = found > 0; c->Sig(n); c->Sig(found); c->Sample("chain of %d states: %ld of 10 words found, up to %ld backoffs away", n, found, deepest);
}
int main(int argc, char **argv) { return Main(argc, argv, {{"wav", WavCase}, {"conf", ConfCase}, {"sym", SymCase}, {"lm", LmCase}, {"deep", DeepCase}, {"cache", CacheCase}, {"bin", BinCase}}); }
