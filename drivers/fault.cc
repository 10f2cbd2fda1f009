// Every single fault in a model set: initialisation must refuse, say why, leak
// nothing, and the repaired model must work.
#include "fault.h"

struct Damage { std::string what, bytes; };
static void Magic(std::vector<Damage> *v, const std::string &b, size_t at, size_t len, Rng *r, const char *name) {
  std::string d = b; size_t k = at + r->Int(0, (int)len - 1); int how = r->Int(0, 2); char o = d[k]; d[k] = how == 0 ? (char)(d[k] ^ (1 << r->Int(0, 7))) : how == 1 ? (char)0 : (char)~d[k]; if (d[k] == o) d[k] = (char)~o;
  v->push_back(Damage{Str("byte %zu of the section name %s at %zu changed", k - at, name, at), d});
}
static void Field(std::vector<Damage> *v, const std::string &b, size_t at, int32_t x, const char *name) { if (Get32(b, at) == x) return; std::string d = b; Put32(&d, at, x); v->push_back(Damage{Str("%s at %zu set to %d (was %d)", name, at, x, Get32(b, at)), d}); }
static int32_t Neg(Rng *r) { return r->P(0.4) ? -1 : r->P(0.3) ? INT32_MIN : -r->LogInt(1, 1000000); }
static std::vector<Damage> Damages(const std::string &file, const std::string &b, Rng *r) {
  std::vector<Damage> v;
  for (size_t p : FindAll(b, "VEC0")) {
    int32_t dim = Get32(b, p + 8), sz = Get32(b, p + 4); Magic(&v, b, p, 4, r, "VEC0");
    Field(&v, b, p + 4, Neg(r), "vector section size"); Field(&v, b, p + 4, sz + (r->P(0.5) ? 4 : r->Int(1, 1000)), "vector section size"); Field(&v, b, p + 4, 0, "vector section size"); if (sz > 4) Field(&v, b, p + 4, sz - (r->P(0.5) ? 4 : r->Int(1, sz - 1)), "vector section size");
    Field(&v, b, p + 8, Neg(r), "vector dimension"); Field(&v, b, p + 8, dim + r->LogInt(1, 1000), "vector dimension"); if (dim > 0) Field(&v, b, p + 8, dim - r->Int(1, dim), "vector dimension");
    { int32_t k = Neg(r); std::string d = b; Put32(&d, p + 8, k); Put32(&d, p + 4, (int32_t)(4u + 4u * (uint32_t)k)); v.push_back(Damage{Str("vector dimension at %zu set to %d with a matching section size", p + 8, k), d}); }
    { int32_t left = (int32_t)((b.size() - p - 12) / 4), k = left + r->LogInt(1, 5000); std::string d = b; Put32(&d, p + 8, k); Put32(&d, p + 4, 4 + 4 * k); v.push_back(Damage{Str("vector dimension at %zu set to %d, more than the file holds", p + 8, k), d}); }
  }
  for (size_t p : FindAll(b, "MAT0")) {
    int32_t rows = Get32(b, p + 8), cols = Get32(b, p + 12); Magic(&v, b, p, 4, r, "MAT0");
    Field(&v, b, p + 8, Neg(r), "matrix rows"); Field(&v, b, p + 12, Neg(r), "matrix columns"); Field(&v, b, p + 8, rows + r->LogInt(1, 3000), "matrix rows"); Field(&v, b, p + 12, cols + r->LogInt(1, 3000), "matrix columns"); if (cols > 0) Field(&v, b, p + 12, cols - r->Int(1, cols), "matrix columns");
    Field(&v, b, p + 8, 0, "matrix rows");
    // products that leave 32 or 64 bits
    for (int k = 0; k < 3; ++k) { int32_t r2 = rows, c2 = cols; switch (r->Int(0, 5)) { case 0: r2 = 1 << r->Int(16, 30); c2 = 1 << (r->Int(16, 30)); break; case 1: r2 = INT32_MAX - r->Int(0, 3); break; case 2: c2 = INT32_MAX - r->Int(0, 20); break; case 3: r2 = INT32_MAX - r->Int(0, 3); c2 = INT32_MAX - r->Int(0, 20); break; case 4: r2 = 1 << r->Int(20, 30); break; default: r2 = r->LogInt(1000000, INT32_MAX); c2 = r->LogInt(1000000, INT32_MAX); }
      std::string d = b; Put32(&d, p + 8, r2); Put32(&d, p + 12, c2); v.push_back(Damage{Str("matrix at %zu of %d x %d (was %d x %d)", p, r2, c2, rows, cols), d}); }
  }
  if (file == "final.nnet") {
    Magic(&v, b, 0, 4, r, "NN02"); int32_t n = Get32(b, 12); Field(&v, b, 12, Neg(r), "number of layers"); Field(&v, b, 12, n + r->LogInt(1, 1000000), "number of layers");
    for (size_t p : FindAll(b, "LAY0")) { Magic(&v, b, p, 4, r, "LAY0"); const int bad[] = {-1, 4, 5, 10, 11, 255, 1000000}; Field(&v, b, p + 4, bad[r->Int(0, 6)], "layer type"); if (Get32(b, p + 4) == 6) { Field(&v, b, p + 8, Neg(r), "splice length"); Field(&v, b, p + 8, (int32_t)(b.size() - p - 12) / 4 + r->LogInt(1, 5000), "splice length"); Field(&v, b, p + 8, INT32_MAX - r->Int(0, 3), "splice length"); Field(&v, b, p + 8, Get32(b, p + 8) + (1 << r->Int(28, 30)), "splice length"); } }
  }
  if (file == "large.lm") {
    Magic(&v, b, 0, 9, r, "pk::fst_0"); int32_t sz = Get32(b, 32), st = Get32(b, 36), ar = Get32(b, 40);
    Field(&v, b, 32, Neg(r), "graph section size"); Field(&v, b, 32, sz + r->LogInt(1, 5000), "graph section size"); Field(&v, b, 32, sz - r->Int(1, sz), "graph section size");
    Field(&v, b, 36, Neg(r), "graph states"); Field(&v, b, 40, Neg(r), "graph arcs"); Field(&v, b, 36, st + r->LogInt(1, 5000), "graph states"); Field(&v, b, 40, ar + r->LogInt(1, 5000), "graph arcs"); if (st) Field(&v, b, 36, st - r->Int(1, st), "graph states"); if (ar) Field(&v, b, 40, ar - r->Int(1, ar), "graph arcs");
    for (int k = 0; k < 3; ++k) { int32_t s2 = st + r->LogInt(1, 3000), a2 = ar; if (k) { s2 = st; a2 = ar + r->LogInt(1, 3000); } if (k == 2) { a2 = -1; } std::string d = b; Put32(&d, 36, s2); Put32(&d, 40, a2); Put32(&d, 32, (int32_t)(12u + 8u * (uint32_t)s2 + 16u * (uint32_t)a2)); v.push_back(Damage{Str("graph with %d states and %d arcs (has %d and %d) and a matching section size", s2, a2, st, ar), d}); }
  }
  if (file == "large.lm") { int32_t st = Get32(b, 36), ar = Get32(b, 40); for (int k = 0; k < 4; ++k) { int32_t s2 = st, a2 = ar; if (k & 1) a2 += (1 << 28) * r->Int(1, 7); else s2 += (1 << 29) * r->Int(1, 3); std::string d = b; Put32(&d, 36, s2); Put32(&d, 40, a2); v.push_back(Damage{Str("graph with %d states and %d arcs (has %d and %d)", s2, a2, st, ar), d}); } }
  if (file == "HCLG.fst") {
    // magic, "const", "standard", version, flags, properties, start, states, arcs
    size_t t1 = 4, t2 = 8 + Get32(b, 4), ver = t2 + 4 + Get32(b, t2), start = ver + 16, ns = start + 8, na = ns + 8; if (b.compare(8, 5, "const") || b.compare(t2 + 4, 8, "standard")) { fprintf(stderr, "harness: fst layout\n"); _exit(98); }
    Magic(&v, b, 0, 4, r, "(OpenFst)"); Magic(&v, b, 8, 5, r, "const"); Magic(&v, b, t2 + 4, 8, r, "standard");
    Field(&v, b, t1, Neg(r), "type length"); Field(&v, b, t1, 5 + r->LogInt(1, 3000), "type length"); Field(&v, b, t1, r->Int(0, 4), "type length"); Field(&v, b, t2, Neg(r), "arc type length"); Field(&v, b, t2, 8 + r->LogInt(1, 3000), "arc type length"); Field(&v, b, t2, r->Int(0, 7), "arc type length"); Field(&v, b, ver, r->Int(-3, 0), "version");
    int64_t S, A; memcpy(&S, &b[ns], 8); memcpy(&A, &b[na], 8);
    for (int k = 0; k < 6; ++k) { int64_t s2 = S, a2 = A; switch (k) { case 0: s2 = -1; break; case 1: s2 = -r->LogInt(2, 1 << 30); break; case 2: a2 = -1; break; case 3: a2 = -r->LogInt(2, 1 << 30); break; case 4: s2 = (int64_t)b.size() / 16 + r->LogInt(1, 100000); break; default: a2 = A + 1 + r->LogInt(1, 100000); }
      std::string d = b; memcpy(&d[ns], &s2, 8); memcpy(&d[na], &a2, 8); v.push_back(Damage{Str("decoding graph with %lld states and %lld arcs (has %lld and %lld)", (long long)s2, (long long)a2, (long long)S, (long long)A), d}); }
    for (int k = 0; k < 6; ++k) { int64_t s2 = S, a2 = A; int64_t *x = k & 1 ? &a2 : &s2; int z = r->Int(0, 4); *x = z == 0 ? INT64_MAX - r->Int(0, 40) : z == 1 ? *x + ((int64_t)1 << r->Int(59, 62)) : z == 2 ? *x + ((int64_t)1 << r->Int(31, 45)) : z == 3 ? (int64_t)1 << r->Int(31, 62) : *x + ((int64_t)r->Int(1, 7) << 60);
      std::string d = b; memcpy(&d[ns], &s2, 8); memcpy(&d[na], &a2, 8); v.push_back(Damage{Str("decoding graph with %lld states and %lld arcs (has %lld and %lld)", (long long)s2, (long long)a2, (long long)S, (long long)A), d}); }
  }
  return v;
}
static std::string Join(const std::vector<std::string> &l, const char *nl = "\n", bool last = true) { std::string s; for (size_t i = 0; i < l.size(); ++i) { s += l[i]; if (last || i + 1 < l.size()) s += nl; } return s; }
static std::vector<std::string> Lines(const std::string &t) { std::vector<std::string> v; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); v.push_back(t.substr(i, e - i)); i = e + 1; } return v; }

static void FaultCase(Ctx *c) {
  Rng r = c->R(23); World w; w.c = c; w.faults = 0; w.slot = 0; bool lm = r.P(0.5);
  RandModel(&w.m, &r, lm ? 1 : 0); w.m.Write(c->Path("m"), &r); w.conf = w.m.Conf(); WriteFile(w.conf, w.m.ConfText(false, &r));
  std::vector<std::string> names = {"HCLG.fst", "final.nnet", "final.prior", "final.map", "words.txt"}; if (w.m.lm) { names.push_back("large.lm"); names.push_back("orig.lm"); }
  for (auto &n : names) w.files[n] = ReadFile(w.P(n));
  w.a = RandAudio(&r, r.Int(500, 3000), false);
  if (!Decode(&w, w.conf, &w.hyp, &w.score)) { c->Violation("valid", "a valid model is refused: %s", ce_stt_last_error()); return; }
  std::string bad = w.P("bad.conf"), text = w.m.ConfText(false, &r); std::vector<std::string> lines = Lines(text);
  std::string what; int kind = (int)(c->cur % 5); std::string f;
  if (kind == 0) {                      // files missing; configuration faults
    for (auto &n : names) { if (remove(w.P(n).c_str())) _exit(98); what = n + " missing"; bool ok = Refuses(&w, w.conf, what, "missing"); WriteFile(w.P(n), w.files[n]); if (!ok || !Repaired(&w, what)) return; }
    if (!Refuses(&w, w.P("nothing.conf"), "no configuration", "missing")) return;
    WriteFile(bad, r.P(0.5) ? "" : "# nothing\n"); if (!Refuses(&w, bad, "empty configuration", "conf")) return;
    for (size_t i = 0; i < lines.size(); ++i) {
      size_t q = lines[i].find('='); std::string key = lines[i].substr(0, q), val = lines[i].substr(q + 1); bool num = isdigit((unsigned char)val[0]);
      std::vector<std::pair<std::string, std::string> > repl; repl.push_back(std::make_pair(key + r.Pick(std::vector<std::string>{"=", "= ", " ="}), "empty")); repl.push_back(std::make_pair(key, "no '='")); repl.push_back(std::make_pair(key + "=" + val + "=" + val, "two '='")); repl.push_back(std::make_pair(lines[i] + "\n" + r.Pick(std::vector<std::string>{"garbage", "a=b=c", "x y z", "="}), "followed by a malformed line"));
      if (num) for (const char *t : {"abc", "1.5", "0x", "12abc", "--3", "1 2", "9999999999", "-9999999999", "1e3", "\xff"}) repl.push_back(std::make_pair(key + "=" + t, std::string("= ") + t));
      if (!num) repl.push_back(std::make_pair(key + "=" + val + "x", "pointing nowhere"));
      if (key != "large_lm" && (key != "original_lm" || w.m.lm)) repl.push_back(std::make_pair(std::string(), "missing"));
      for (auto &x : repl) { std::vector<std::string> l = lines; if (x.second == "missing") l.erase(l.begin() + i); else l[i] = x.first; if (r.P(0.3)) r.Shuffle(&l); WriteFile(bad, Join(l, r.P(0.2) ? "\r\n" : "\n", r.P(0.8))); what = "configuration with " + key + " " + x.second; if (!Refuses(&w, bad, what, "conf")) return; }
    }
    if (!Repaired(&w, what)) return;
  } else if (kind == 1 || kind == 2) {  // binary files cut at every byte
    std::vector<std::string> bin; for (auto &n : names) if (n != "words.txt") bin.push_back(n);
    f = kind == 1 ? (r.P(0.5) ? "HCLG.fst" : "final.nnet") : r.Pick(bin); const std::string &b = w.files[f]; size_t n = b.size(), budget = c->thorough ? 20000 : 500;
    std::vector<size_t> cuts; if (n <= budget) { for (size_t i = 0; i < n; ++i) cuts.push_back(i); c->Count("files_cut_at_every_byte"); } else { std::set<size_t> s; for (size_t i = 0; i < budget / 4; ++i) { s.insert(i); s.insert(n - 1 - i); } while (s.size() < budget) s.insert(r.Int(0, (int)n - 1)); cuts.assign(s.begin(), s.end()); }
    for (size_t k : cuts) { WriteFile(w.P(f), b.substr(0, k)); what = Str("%s cut to %zu of %zu bytes", f.c_str(), k, n); if (!Refuses(&w, w.conf, what, "cut")) return; }
    WriteFile(w.P(f), b); if (!Repaired(&w, what)) return;
  } else if (kind == 3) {               // damaged fields of every binary file
    for (auto &n : names) if (n != "words.txt") {
      std::vector<Damage> v = Damages(n, w.files[n], &r); r.Shuffle(&v); size_t max = c->thorough ? 400 : 60; if (v.size() > max) v.resize(max);
      for (auto &d : v) { WriteFile(w.P(n), d.bytes); what = n + ": " + d.what; if (!Refuses(&w, w.conf, what, "damage")) return; }
      WriteFile(w.P(n), w.files[n]); f = n;
    }
    if (!Repaired(&w, what)) return;
  } else {                              // the symbol table
    std::vector<std::string> l = Lines(w.files["words.txt"]); f = "words.txt";
    int reps = c->thorough ? 200 : 50;
    for (int k = 0; k < reps; ++k) {
      std::vector<std::string> x = l; size_t i = r.Int(0, (int)l.size() - 1); size_t sp = l[i].find(' '); std::string word = l[i].substr(0, sp); int how = r.Int(0, 9);
      switch (how) {
        case 0: x[i] = word; break; case 1: x[i] = word + " "; break; case 2: x[i] = l[i] + " 3"; break; case 3: x[i] = word + " -" + std::to_string(r.LogInt(1, 100000)); break;
        case 4: x[i] = word + r.Pick(std::vector<std::string>{" x", " 1x", " 1.5", " --1", " 0x", " \xe4\xb8\xad"}); break; case 5: x[i] = word + " 99999999999999999999"; break; case 6: x[i] = word + " 3000000000"; break;
        case 7: x.erase(x.begin() + (x.size() - 2)); break; case 8: x.erase(x.begin() + (x.size() - 1)); break;
        default: x.clear(); }
      if (how == 2 && r.P(0.5)) x[i] = word + " extra 3";
      what = how >= 7 ? std::string("words.txt without ") + (how == 7 ? "<s>" : how == 8 ? "</s>" : "any line") : Str("words.txt with line %zu '%s'", i, x[i].c_str());
      WriteFile(w.P(f), Join(x, "\n", r.P(0.7))); if (!Refuses(&w, w.conf, what, "words")) return;
    }
    WriteFile(w.P(f), w.files[f]); if (!Repaired(&w, what)) return;
  }
  c->Count("faults", w.faults); c->Count("classes_" + std::to_string(kind)); c->nontrivial = w.faults > 0; c->Sig(w.faults); c->SigS(f); for (auto &x : w.files) c->Sig(x.second.size()); c->SigS(w.hyp);
  c->Sample("%ld faulty models refused (last: %s), then the repaired one decodes '%s' as before", w.faults, what.c_str(), w.hyp.substr(0, 40).c_str());
}
// Files that are well formed one by one but refer to what is not there.
static std::vector<Damage> Dangling(World *w, const std::string &file, Rng *r) {
  std::vector<Damage> v; const std::string &b = w->files[file]; auto below = [&](int32_t n) { return r->P(0.4) ? n : r->P(0.5) ? n + r->LogInt(1, 100000) : INT32_MAX; };
  const std::string &h = w->files["HCLG.fst"]; size_t t2 = 8 + Get32(h, 4), start = t2 + 4 + Get32(h, t2) + 16, st = start + 24; int64_t S, A; memcpy(&S, &h[start + 8], 8); memcpy(&A, &h[start + 16], 8); size_t ar = st + 20 * S;
  if (ar + 16 * A != h.size()) { fprintf(stderr, "harness: fst layout\n"); _exit(98); }
  int32_t tids = Get32(w->files["final.map"], 8), pdfs = Get32(w->files["final.prior"], 8), words = 0; for (auto &l : Lines(w->files["words.txt"])) words = std::max(words, atoi(l.c_str() + l.find(' ')) + 1);
  if (file == "HCLG.fst") {
    for (int k = 0; k < 12; ++k) {
      if (A) { size_t i = r->P(0.2) ? 0 : r->P(0.2) ? A - 1 : (size_t)r->Int(0, (int)A - 1), o = ar + 16 * i; int f = r->Int(0, 2); const char *n[] = {"input label", "output label", "next state"}; int32_t x = r->P(0.4) ? Neg(r) : below(f == 0 ? tids : f == 1 ? words : (int32_t)S); Field(&v, b, o + (f == 2 ? 12 : 4 * f), x, Str("%s of arc %zu", n[f], i).c_str()); }
      size_t i = r->Int(0, (int)S - 1), o = st + 20 * i; int32_t pos = Get32(b, o + 4), na = Get32(b, o + 8);
      Field(&v, b, o + 8, r->P(0.3) ? Neg(r) : (int32_t)A - pos + 1 + (r->P(0.5) ? 0 : r->LogInt(1, 100000)), Str("number of arcs of state %zu", i).c_str()); if (na) Field(&v, b, o + 4, r->P(0.3) ? -1 - r->Int(0, 3) : r->P(0.3) ? -r->LogInt(10, 1000000) : (int32_t)A - na + 1 + (r->P(0.5) ? 0 : r->LogInt(1, 100000)), Str("arc position of state %zu", i).c_str());
    }
    for (int64_t x : {(int64_t)-1, S, S + r->LogInt(1, 1000000), (int64_t)1 << 40, -(int64_t)r->LogInt(2, 1 << 30), S + ((int64_t)1 << 32)}) { std::string d = b; memcpy(&d[start], &x, 8); v.push_back(Damage{Str("start state %lld of %lld", (long long)x, (long long)S), d}); }
  } else if (file == "final.map") {
    std::vector<int32_t> used; for (int64_t i = 0; i < A; ++i) { int32_t t = Get32(h, ar + 16 * i); if (t) used.push_back(t); }
    for (int k = 0; k < 6 && !used.empty(); ++k) { int32_t t = r->Pick(used); Field(&v, b, 12 + 4 * t, r->P(0.4) ? Neg(r) : below(pdfs), Str("pdf of transition %d", t).c_str()); }
    for (int k = 0; k < 3 && !used.empty(); ++k) { int32_t t = r->Pick(used); std::string d = b.substr(0, 12 + 4 * t); Put32(&d, 4, 4 + 4 * t); Put32(&d, 8, t); v.push_back(Damage{Str("map of %d transitions, the graph uses %d", t, t), d}); }
  } else if (file == "words.txt") {
    std::vector<int32_t> used; for (int64_t i = 0; i < A; ++i) { int32_t t = Get32(h, ar + 16 * i + 4); if (t) used.push_back(t); }
    std::vector<std::string> l = Lines(b); int top = used.empty() ? 0 : *std::max_element(used.begin(), used.end());
    auto id = [](const std::string &x) { return atoi(x.c_str() + x.find(' ')); };
    for (int k = 0; k < 3 && top >= 3; ++k) {
      int at = r->P(0.5) ? top : r->Int(3, top); std::vector<std::string> x; for (auto &y : l) if (id(y) < at && y.compare(0, 4, "<s> ") && y.compare(0, 5, "</s> ")) x.push_back(y);
      if (x.size() < 3) continue; int p = r->Int(0, (int)x.size() - 1), q = (p + 1) % (int)x.size(); x[p] = "<s> " + std::to_string(id(x[p])); x[q] = "</s> " + std::to_string(id(x[q])); v.push_back(Damage{Str("symbol table of ids below %d, the graph uses %d", at, top), Join(x)});
    }
  } else if (file == "orig.lm") {
    int top = 0; for (int64_t i = 0; i < A; ++i) top = std::max(top, Get32(h, ar + 16 * i + 4)); for (auto &l : Lines(w->files["words.txt"])) if (l.compare(0, 5, "</s> ") == 0) top = std::max(top, atoi(l.c_str() + 5));
    for (int k : {top, r->Int(0, top), top ? top - 1 : 0, 0}) { std::string d = b.substr(0, 12 + 4 * k); Put32(&d, 4, 4 + 4 * k); Put32(&d, 8, k); v.push_back(Damage{Str("original costs of %d words, word %d is used", k, top), d}); }
  } else {                              // large.lm: states, arcs, start, finals, positions, arcs
    int32_t S2 = Get32(b, 36), A2 = Get32(b, 40); size_t fin = 48, pos = fin + 4 * S2, arcs = pos + 4 * S2; if (arcs + 16 * (size_t)A2 != b.size()) { fprintf(stderr, "harness: lm layout\n"); _exit(98); }
    for (int k = 0; k < 8; ++k) {
      if (A2) { size_t i = r->P(0.2) ? 0 : r->P(0.2) ? A2 - 1 : (size_t)r->Int(0, A2 - 1), o = arcs + 16 * i; if (r->P(0.5)) Field(&v, b, o, r->P(0.4) ? Neg(r) : below(S2), Str("next state of arc %zu", i).c_str()); else Field(&v, b, o + 4, Neg(r), Str("label of arc %zu", i).c_str()); }
      size_t i = r->Int(0, S2 - 1); Field(&v, b, pos + 4 * i, r->P(0.3) ? -r->LogInt(2, 1000000) : A2 + r->LogInt(1, 1000000), Str("arc position of state %zu", i).c_str());
    }
    Field(&v, b, 44, Neg(r), "start state"); Field(&v, b, 44, below(S2), "start state");
    std::vector<int> back(S2, -1), at(S2, -1);   // where each state backs off to
    for (int i = 0; i < S2; ++i) { int p = Get32(b, pos + 4 * i), e = A2; if (p < 0) continue; for (int j = i + 1; j < S2; ++j) if (Get32(b, pos + 4 * j) > 0) { e = Get32(b, pos + 4 * j); break; } if (p < e && Get32(b, arcs + 16 * (size_t)p + 4) == 0) { at[i] = p; back[i] = Get32(b, arcs + 16 * (size_t)p); } }
    std::vector<std::pair<int, int> > cyc; for (int i = 0; i < S2; ++i) { int j = i, k = 0; while (j >= 0 && at[j] >= 0 && k++ < 100) { cyc.push_back(std::make_pair(j, i)); j = back[j]; } }
    for (int k = 0; k < 4 && !cyc.empty(); ++k) { std::pair<int, int> x = r->Pick(cyc); Field(&v, b, arcs + 16 * (size_t)at[x.first], x.second, Str("back-off of state %d, to which state %d backs off in the end,", x.first, x.second).c_str()); }
  }
  return v;
}
// Networks whose layers do not fit each other, the features, the priors or the contexts.
static std::vector<Damage> Misfits(const Net &net, Rng *r) {
  std::vector<Damage> v; int n = (int)net.layers.size();
  auto add = [&](Net x, const std::string &what) { for (auto &y : x.layers) if (y.type == 0 && y.W.empty()) y.W.push_back(std::vector<float>(y.b.size(), 1.0f)); v.push_back(Damage{what, x.Bytes()}); };
  auto size = [&](std::vector<float> *b) { int k = r->P(0.5) ? 1 : r->LogInt(1, 50); if (r->P(0.5) && (int)b->size() > k) b->resize(b->size() - k); else b->resize(b->size() + k, 0.5f); };
  for (int i = 0; i < n; ++i) {
    Net x = net; Net::L &y = x.layers[i];
    if (y.type == 0) {
      int in = (int)y.W.size(), out = (int)y.b.size(), k = r->P(0.5) ? 1 : r->LogInt(1, 50);
      if (r->P(0.5) && in > k) y.W.resize(in - k); else y.W.resize(in + k, std::vector<float>(out, 0.25f)); add(x, Str("layer %d: %zu instead of %d inputs", i, y.W.size(), in));
      x = net; size(&y.b); for (auto &w : y.W) w.resize(y.b.size(), 0.25f); add(x, Str("layer %d: %zu instead of %d outputs", i, y.b.size(), out));
      x = net; std::string b = x.Bytes(), lay = net.layers[i].W.empty() ? "" : VecBytes(net.layers[i].b); size_t at = b.find(MatBytes(y.W, out) + lay); if (at != std::string::npos && out) { size_t p = at + MatBytes(y.W, out).size(); std::vector<float> o = y.b; size(&o); if (r->P(0.2)) o.clear(); v.push_back(Damage{Str("layer %d: %zu offsets for %d outputs", i, o.size(), out), b.substr(0, p) + VecBytes(o) + b.substr(p + lay.size())}); }
    } else if (y.type == 7) {
      size(&y.b); add(x, Str("layer %d: %zu scales", i, y.b.size())); x = net; size(&y.b2); add(x, Str("layer %d: %zu shifts", i, y.b2.size())); x = net; size(&y.b); y.b2.assign(y.b.size(), 0.5f); add(x, Str("layer %d: %zu scales and shifts", i, y.b.size())); x = net; y.b.clear(); y.b2.clear(); add(x, Str("layer %d: no scales and shifts", i));
    } else if (y.type == 6) {
      if (r->P(0.5) && y.idx.size() > 1) y.idx.pop_back(); else y.idx.insert(y.idx.begin() + r->Int(0, (int)y.idx.size()), r->Int(-3, 3)); add(x, Str("layer %d: %zu instead of %zu spliced frames", i, y.idx.size(), net.layers[i].idx.size())); x = net; y.idx.clear(); add(x, Str("layer %d: no spliced frames", i));
    } else if (y.type == 9) {
      int k = r->P(0.5) ? 1 : r->LogInt(1, 1000); if (r->P(0.5)) y.l += k; else y.r += k; add(x, Str("layer %d: %d and %d rows removed", i, y.l, y.r));
      x = net; if (y.l + y.r) { if (y.l && (r->P(0.5) || !y.r)) --y.l; else --y.r; add(x, Str("layer %d: %d and %d rows removed", i, y.l, y.r)); }
      x = net; y.l = -r->LogInt(1, 1000); add(x, Str("layer %d: %d rows removed", i, y.l)); x = net; y.r = r->P(0.3) ? INT32_MIN : -r->LogInt(1, 1000); add(x, Str("layer %d: %d rows removed", i, y.r));
      x = net; if (y.l != y.r) { std::swap(y.l, y.r); add(x, Str("layer %d: rows removed from the other side", i)); }
    }
    x = net; if ((y.type == 0 && y.W.size() != y.b.size()) || (y.type == 6 && y.idx.size() > 1) || (y.type == 9 && y.l + y.r)) { x.layers.erase(x.layers.begin() + i); add(x, Str("layer %d is not there", i)); }
  }
  { Net x = net; Net::L y; y.type = 9; y.l = r->Int(0, 1); y.r = y.l ? r->Int(0, 3) : r->Int(1, 3); x.layers.insert(x.layers.begin() + r->Int(0, n), y); add(x, "one more layer that removes rows"); }
  { Net x = net; Net::L y; y.type = 6; y.idx.assign(r->Int(2, 5), 0); x.layers.insert(x.layers.begin() + r->Int(0, n), y); add(x, "one more layer that splices frames"); }
  { Net x = net; x.layers.push_back(NetLinear(r, net.out, net.out + r->Int(1, 10), 1)); add(x, "one more layer of more outputs than priors"); }
  { Net x = net; x.layers.clear(); if (net.out != 40 || net.left + net.right) add(x, "no layers"); }
  return v;
}
static void DanglingCase(Ctx *c) {
  Rng r = c->R(32); World w; w.c = c; w.faults = 0; w.slot = 0;
  RandModel(&w.m, &r, r.P(0.5) ? 1 : 0, 0.05); w.m.Write(c->Path("m"), &r); w.conf = w.m.Conf(); std::string text = w.m.ConfText(false, &r); WriteFile(w.conf, text);
  std::vector<std::string> names = {"HCLG.fst", "final.map", "final.prior", "words.txt", "final.nnet"}; if (w.m.lm) { names.push_back("large.lm"); names.push_back("orig.lm"); }
  for (auto &n : names) w.files[n] = ReadFile(w.P(n));
  w.a = RandAudio(&r, r.Int(500, 3000), false);
  if (!Decode(&w, w.conf, &w.hyp, &w.score)) { c->Violation("valid", "a valid model is refused: %s", ce_stt_last_error()); return; }
  std::string what;
  for (auto &n : names) {
    std::vector<Damage> v;
    if (n == "final.nnet") v = Misfits(w.m.net, &r);
    else if (n == "final.prior") { int have = Get32(w.files[n], 8); for (int k : {have + 1, have - 1, have + r.LogInt(1, 1000), r.Int(0, have - 1)}) { std::string d = w.files[n].substr(0, 12 + 4 * std::min(k, have)); while ((int)(d.size() - 12) / 4 < k) P32(&d, 0x3e000000); Put32(&d, 4, 4 + 4 * k); Put32(&d, 8, k); v.push_back(Damage{Str("%d priors instead of %d", k, have), d}); } }
    else v = Dangling(&w, n, &r);
    r.Shuffle(&v); if (v.size() > 24) v.resize(24);
    for (auto &d : v) { WriteFile(w.P(n), d.bytes); what = n + ": " + d.what; if (!Refuses(&w, w.conf, what, n)) return; }
    WriteFile(w.P(n), w.files[n]);
  }
  std::string bad = w.P("bad.conf"); for (const char *k : {"left_context", "right_context", "chunk_size"}) { int x = Neg(&r); std::string t; for (auto &l : Lines(text)) t += (l.compare(0, strlen(k), k) == 0 ? Str("%s=%d", k, x) : l) + "\n"; WriteFile(bad, t); what = Str("%s = %d", k, x); if (!Refuses(&w, bad, what, k)) return; }
  for (const char *k : {"left_context", "right_context"}) { int have = k[0] == 'l' ? w.m.net.left : w.m.net.right, x = have && r.P(0.5) ? r.Int(0, have - 1) : r.P(0.1) ? INT32_MAX : have + r.LogInt(1, 100); std::string t; for (auto &l : Lines(text)) t += (l.compare(0, strlen(k), k) == 0 ? Str("%s=%d", k, x) : l) + "\n"; WriteFile(bad, t); what = Str("%s = %d, the network removes %d rows", k, x, have); if (!Refuses(&w, bad, what, k)) return; }
  if (!Repaired(&w, what)) return;
  c->Count("faults", w.faults); c->nontrivial = w.faults > 10; c->Sig(w.faults); for (auto &x : w.files) c->Sig(x.second.size()); c->SigS(w.hyp);
  c->Sample("%ld contradicting models refused (last: %s), then the repaired one decodes '%s' as before", w.faults, what.c_str(), w.hyp.substr(0, 40).c_str());
}
int main(int argc, char **argv) { std::map<std::string, CaseFn> m; m["fault"] = FaultCase; m["dangling"] = DanglingCase; return Main(argc, argv, m); }
