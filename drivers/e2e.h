// Random complete models on disk, random audio, and the reference recogniser.
#ifndef VERIF_E2E_H_
#define VERIF_E2E_H_
#include "model.h"
#include "ce_stt.h"
#include "fst/fstlib.h"

namespace vf {

struct Model : Problem {
  Net net; std::vector<float> prior; int left, right, chunk; std::vector<std::string> words; std::string dir;
  std::vector<int> tidvec;
  std::map<std::string, int> ids;
  std::string ConfText(bool fancy, Rng *r) const {
    std::vector<std::string> l;
    l.push_back("fst=HCLG.fst"); l.push_back("nnet=final.nnet"); l.push_back("prior=final.prior");
    l.push_back("left_context=" + std::to_string(left)); l.push_back("right_context=" + std::to_string(right));
    l.push_back("chunk_size=" + std::to_string(chunk)); l.push_back("num_pdfs=" + std::to_string(pdfs));
    l.push_back("tid2pdf=final.map"); l.push_back("symbol_table=words.txt");
    if (lm) { l.push_back("large_lm=large.lm"); l.push_back("original_lm=orig.lm"); }
    if (fancy) {
      r->Shuffle(&l);
      for (auto &x : l) { if (r->P(0.3)) for (size_t i = 0; x[i] != '='; ++i) x[i] = (char)toupper(x[i]); if (r->P(0.3)) { size_t e = x.find('='); x = " " + x.substr(0, e) + " \t= " + x.substr(e + 1) + " "; } }
      if (r->P(0.5)) l.insert(l.begin() + r->Int(0, (int)l.size()), "# a comment = with an equals sign");
      if (r->P(0.5)) l.insert(l.begin() + r->Int(0, (int)l.size()), "   ");
    }
    std::string s; for (auto &x : l) s += x + "\n"; return s;
  }
  static std::string FstBytes(const Graph &g, const std::string &tmp) {
    fst::VectorFst<fst::StdArc> f;
    for (int i = 0; i < g.n(); ++i) f.AddState();
    f.SetStart(g.start);
    for (int i = 0; i < g.n(); ++i) {
      if (g.fin[i] != INFINITY) f.SetFinal(i, fst::TropicalWeight((float)g.fin[i]));
      for (auto &a : g.arcs[i]) f.AddArc(i, fst::StdArc(a.il, a.ol, fst::TropicalWeight((float)a.w), a.to));
    }
    fst::ConstFst<fst::StdArc> k(f); if (!k.Write(tmp)) _exit(98);
    return ReadFile(tmp);
  }
  std::string WordsText() const { std::string s; for (size_t i = 0; i < words.size(); ++i) s += words[i] + " " + std::to_string(i) + "\n"; return s; }
  void Write(const std::string &d, Rng *r) {
    dir = d; mkdir(d.c_str(), 0755);
    WriteFile(d + "/HCLG.fst", FstBytes(g, d + "/HCLG.fst"));
    WriteFile(d + "/final.nnet", net.Bytes()); WriteFile(d + "/final.prior", VecBytes(prior));
    WriteFile(d + "/final.map", VecBytes(std::vector<int32_t>(t2p.begin(), t2p.end())));
    WriteFile(d + "/words.txt", WordsText());
    if (lm) { WriteFile(d + "/large.lm", lm->Bytes()); WriteFile(d + "/orig.lm", VecBytes(lm->small)); }
    WriteFile(d + "/model.conf", ConfText(r->P(0.5), r));
  }
  std::string Conf() const { return dir + "/model.conf"; }
};
inline Net RandNet(Rng *r, int pdfs, bool wide = false) {
  Net n; n.in = 40; n.out = pdfs; n.left = n.right = 0; int dim = 40, L = 0, R = 0;
  { Net::L y; y.type = 7; for (int i = 0; i < 40; ++i) { y.b.push_back((float)r->Uni(0.1, 0.3)); y.b2.push_back((float)r->Uni(-2.5, -1)); } n.layers.push_back(y); }
  int splices = r->Int(0, 2);
  for (int k = 0; k < splices; ++k) {
    Net::L y; y.type = 6; int far = wide && r->P(0.6) ? 20 : 3, l = r->Int(0, far), q = r->Int(0, far); std::set<int> ix; ix.insert(-l); ix.insert(q); if (r->P(0.7)) for (int i = -l; i <= q; ++i) if (r->P(far > 3 ? 0.2 : 0.7)) ix.insert(i);
    y.idx.assign(ix.begin(), ix.end()); if (r->P(0.2)) r->Shuffle(&y.idx);
    n.layers.push_back(y); dim *= (int)y.idx.size(); L += l; R += q;
    int h = wide ? r->LogInt(4, 300) : r->Int(4, 24); n.layers.push_back(NetLinear(r, dim, h, 2)); dim = h;
    y = Net::L(); if (r->P(0.7)) { y.type = 1; n.layers.push_back(y); } if (r->P(0.5)) { y.type = 2; n.layers.push_back(y); }
  }
  if (L + R > 0 || r->P(0.3)) { Net::L y; y.type = 9; y.l = L; y.r = R; n.layers.insert(n.layers.begin() + n.layers.size() - (r->P(0.5) && splices ? 0 : 0), y); }
  n.left = L; n.right = R;
  n.layers.push_back(NetLinear(r, dim, pdfs, r->Uni(3, 30)));
  if (r->P(0.8)) { Net::L y; y.type = 8; n.layers.push_back(y); }
  return n;
}
// wsize: size class of the graph
// pbig: share of models with large numbers of everything
inline void RandModel(Model *m, Rng *r, double plm, double pbig = 0) {
  m->q.unit = 0; m->tids = r->Int(1, 9); m->pdfs = r->Int(1, 8); m->V = r->Int(1, 20); m->lmq = r->P(plm);
  m->t2p.assign(m->tids + 1, 0); for (int i = 1; i <= m->tids; ++i) m->t2p[i] = r->Int(0, m->pdfs - 1);
  m->scale = 0.1f;
  int n = r->LogInt(1, 30); m->g.Resize(n); m->g.start = r->Int(0, n - 1);
  RandomPart(m, r, 0, n, r->Uni(0.2, 4), r->P(0.3));
  if (r->P(0.5)) for (int k = r->Int(1, 2); k > 0; --k) GardenPath(m, r, r->P(0.6) ? m->g.start : r->Int(0, n - 1), r->Int(0, n - 1));
  for (int i = 0; i < m->g.n(); ++i) if (r->P(0.85)) { bool em = false; for (auto &a : m->g.arcs[i]) if (a.il) em = true; if (!em) m->g.Add(i, r->Int(0, n - 1), r->Int(1, m->tids), Word(r, m->V, 0.4), r->Uni(0, 3)); }
  if (r->P(0.5)) for (auto &v : m->g.arcs) for (auto &a : v) if (a.il && !a.ol) a.ol = Word(r, m->V, 0.4);
  if (r->P(0.5)) for (int i = 0; i < m->g.n(); ++i) if (r->P(0.5)) m->g.Add(i, r->P(0.5) ? i : r->Int(0, n - 1), r->Int(1, m->tids), Word(r, m->V, 0.2), r->Uni(1, 4));
  double pf = r->P(0.05) ? 0 : r->P(0.4) ? 1 : r->Uni(0.2, 1); for (int i = 0; i < m->g.n(); ++i) if (r->P(pf)) m->g.fin[i] = r->Uni(0, 5);
  for (auto &v : m->g.arcs) for (auto &a : v) a.w = (double)(float)a.w;
  for (auto &x : m->g.fin) x = (double)(float)x;
  m->lm.reset(); if (m->lmq) m->lm.reset(new Lm(RandLm(r, m->V, 1.0 / 1024, r->LogInt(1, 12))));
  m->big = pbig > 0 && r->P(pbig); if (m->big) Spread(m, r, r->LogInt(100, 20000));
  m->net = RandNet(r, m->pdfs, m->big); m->left = m->net.left; m->right = m->net.right; m->chunk = r->P(0.3) ? r->Int(1, 4) : r->Int(1, m->big ? 300 : 60);
  m->prior.resize(m->pdfs); for (auto &x : m->prior) x = (float)exp(r->Uni(-6, 0)); { Rng t(r->s ^ 0x7072696f72); if (t.P(0.25)) for (auto &x : m->prior) if (t.P(0.2)) x = (float)exp(t.Uni(-30, -6)); }  // hardly ever seen in training
  m->words.clear(); m->words.push_back("<eps>"); static const char *uni[] = {"a", "zwei", "\xe4\xb8\xad\xe6\x96\x87", "\xc3\xa9t\xc3\xa9", "<unk>", "it's", "x-y", "Q"};
  for (int i = 1; i <= m->V; ++i) m->words.push_back(std::string(uni[r->Int(0, 7)]) + std::to_string(i) + std::string(r->P(0.1) ? r->Int(1, 60) : 0, 'w'));
  m->words.push_back("<s>"); m->words.push_back("</s>");
  m->ids.clear(); for (size_t i = 0; i < m->words.size(); ++i) m->ids[m->words[i]] = (int)i;
}

// ------------------------------------------------------------ audio
struct Audio { int bits; std::vector<int32_t> s; std::string bytes; int bps() const { return bits / 8; }
  void Pack() { bytes.clear(); for (int32_t v : s) for (int k = 0; k < bps(); ++k) bytes += (char)((uint32_t)v >> (8 * k)); } };
inline Audio RandAudio(Rng *r, int samples, bool tame) {
  Audio a; a.bits = r->P(0.6) ? 16 : r->P(0.5) ? 8 : 32; double full = a.bits == 8 ? 127 : a.bits == 16 ? 32767 : 2147483647.0;
  a.s.reserve(samples);
  while ((int)a.s.size() < samples) {
    int len = std::min((int)(samples - a.s.size()), r->LogInt(200, 8000)); int kind = tame ? r->Int(0, 3) : r->Int(0, 7); double amp = full * exp(r->Uni(a.bits == 8 ? -2 : -5, -0.5));
    double b1 = r->Uni(-0.9, 0.9), b2 = r->Uni(-0.5, 0.5), y1 = 0, y2 = 0, f = r->Uni(100, 7000), ph = 0;
    for (int i = 0; i < len; ++i) {
      double v = 0, z = r->Gauss() * 0.2;
      switch (kind) { case 0: v = z; break; case 1: v = z + b1 * (1 - fabs(b2)) * y1 + b2 * 0.5 * y2; y2 = y1; y1 = v; break; case 2: ph += 2 * M_PI * f / 16000; v = 0.5 * sin(ph) + 0.1 * z; break; case 3: ph += 2 * M_PI * (f * (1 + 0.5 * sin(i / 900.0))) / 16000; v = 0.3 * sin(ph) + 0.3 * z; break;
        case 4: v = 0; break; case 5: v = full / amp * (i & 1 ? 1 : -1.01); break; case 6: v = full / amp; break; default: v = i % 800 == 0 ? full / amp : 0; }
      double x = std::floor(v * amp + 0.5); x = std::min(std::max(x, -full - 1), full); a.s.push_back((int32_t)x);
    }
  }
  a.Pack(); return a;
}
inline ce_wave_format_t Fmt(int bits) { ce_wave_format_t f; f.num_channels = 1; f.sample_rate = 16000; f.bits_per_sample = bits; return f; }
inline std::string WavBytes(const Audio &a) {
  std::string s = "RIFF"; P32(&s, 36 + (int)a.bytes.size()); s += "WAVEfmt "; P32(&s, 16); int16_t h[2] = {1, 1}; Put(&s, h, 4); P32(&s, 16000); P32(&s, 16000 * a.bps());
  int16_t k[2] = {(int16_t)a.bps(), (int16_t)a.bits}; Put(&s, k, 4); s += "data"; P32(&s, (int)a.bytes.size()); return s + a.bytes;
}
// scores of the whole utterance, by definition
inline Net::D RefScores(const Model &m, const RefFbank &fb, const std::vector<float> &x) {
  int T = RefFbank::Frames((long)x.size()); Net::D f(T, std::vector<double>(40));
  for (int t = 0; t < T; ++t) fb.Frame(x.data() + 160 * t, f[t].data(), nullptr, nullptr);
  Net::D o; if (!T) return o;
  Net::D p; for (int i = 0; i < m.left; ++i) p.push_back(f[0]); p.insert(p.end(), f.begin(), f.end()); for (int i = 0; i < m.right; ++i) p.push_back(f[T - 1]);
  o = m.net.Run(p);
  for (auto &row : o) for (size_t i = 0; i < row.size(); ++i) row[i] -= log((double)m.prior[i]);
  return o;
}
inline std::vector<double> AcRow(const Model &m, const std::vector<double> &row) { std::vector<double> a(m.tids + 1, 0); for (int i = 1; i <= m.tids; ++i) a[i] = -0.1 * row[m.t2p[i]]; return a; }
inline bool ParseHyp(const Model &m, const std::string &h, std::vector<int> *ids) {
  ids->clear(); if (h.empty()) return true; size_t i = 0;
  for (;;) { size_t j = h.find(' ', i); std::string w = h.substr(i, j == std::string::npos ? std::string::npos : j - i); auto it = m.ids.find(w); if (it == m.ids.end()) return false; ids->push_back(it->second); if (j == std::string::npos) return true; i = j + 1; }
}

// ------------------------------------------------------------ running
struct Outcome { bool ok; std::string hyp; float score; long samples; std::vector<std::string> partial; };
}  // namespace vf
#endif
