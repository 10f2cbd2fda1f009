// Hash table monitor: every Find/Insert/Clear of a history is compared with a
// sequential map model.
#include <unordered_map>
#include <utility>
#include "h.h"
#include "hashtable.h"
using namespace vf;
namespace vfk {
struct PairKey {
  int32_t a, b;
  bool operator==(const PairKey &o) const { return a == o.a && b == o.b; }
  bool operator<(const PairKey &o) const { return a != o.a ? a < o.a : b < o.b; }
};
inline int32_t hash(PairKey k) {
  int32_t h = 19;
  h = (int32_t)((uint32_t)h * 31 + (uint32_t)k.a);
  h = (int32_t)((uint32_t)h * 31 + (uint32_t)k.b);
  return h;
}
struct Bad { int32_t a; bool operator==(const Bad &o) const { return a == o.a; }
  bool operator<(const Bad &o) const { return a < o.a; } };
// heavily colliding hash
inline int32_t hash(Bad k) { return (int32_t)((uint32_t)(k.a % 7) * 1000003u); }
}
static void Ops(Ctx *c);
template <class K> static std::string KS(const K &k) { return Str("%lld", (long long)k); }
template <> std::string KS(const vfk::PairKey &k) { return Str("(%d,%d)", k.a, k.b); }
template <> std::string KS(const vfk::Bad &k) { return Str("bad%d", k.a); }

template <class K, class Gen>
static void History(Ctx *c, Rng *r, int cap, int nops, Gen gen, double p_clear,
                    const char *what) {
  pocketkaldi::HashTable<K, int64_t> t(cap);
  std::map<K, int64_t> model;
  std::vector<K> seen;
  long finds = 0, hits = 0, updates = 0, clears = 0;
  size_t maxsz = 0;
  for (int i = 0; i < nops; ++i) {
    double u = r->Uni();
    if (u < p_clear) {
      t.Clear(); model.clear(); ++clears; continue;
    }
    K k = (!seen.empty() && r->P(0.45)) ? r->Pick(seen) : gen(i);
    if (r->P(0.55)) {
      int64_t v = ((int64_t)i << 20) | (r->Next() & 0xffff);   // unique per write
      updates += model.count(k);
      t.Insert(k, v); model[k] = v;
      if (seen.size() < 200000) seen.push_back(k);
      if (r->P(0.5)) {
        int64_t g = t.Find(k, -7);
        if (g != v) { c->Violation("lost-write", "%s cap=%d op=%d key=%s: wrote %lld then read %lld", what, cap, i, KS(k).c_str(), (long long)v, (long long)g); return; }
      }
    } else {
      ++finds;
      int64_t def = -1 - i;
      int64_t g = t.Find(k, def);
      typename std::map<K, int64_t>::iterator it = model.find(k);
      int64_t e = it == model.end() ? def : it->second;
      hits += it != model.end();
      if (g != e) { c->Violation(it == model.end() ? "phantom" : "wrong-value", "%s cap=%d op=%d key=%s: Find gave %lld, model %lld (size %zu)", what, cap, i, KS(k).c_str(), (long long)g, (long long)e, model.size()); return; }
    }
    maxsz = std::max(maxsz, model.size());
  }
  for (auto &kv : model) {
    int64_t g = t.Find(kv.first, -9);
    if (g != kv.second) { c->Violation("wrong-value", "%s cap=%d at end key=%s: %lld, model %lld (size %zu)", what, cap, KS(kv.first).c_str(), (long long)g, (long long)kv.second, model.size()); return; }
  }
  for (int i = 0; i < 200; ++i) {
    K k = gen(nops + 1000 + i);
    if (model.count(k)) continue;
    if (t.Find(k, -9) != -9) { c->Violation("phantom", "%s cap=%d absent key=%s found", what, cap, KS(k).c_str()); return; }
  }
  c->Count("ops", nops); c->Count("finds", finds); c->Count("hits", hits);
  c->Count("updates", updates); c->Count("clears", clears);
  c->Max("live_keys", maxsz);
  c->nontrivial = maxsz > 3;
  c->Sig(maxsz); c->Sig(hits); c->Sig(cap); c->Sig(updates); c->SigS(what);
  c->Sample("%s initial_cap=%d ops=%d keys<=%zu finds=%ld hits=%ld updates=%ld clears=%ld: all equal to the model", what, cap, nops, maxsz, finds, hits, updates, clears);
}

static void Ops(Ctx *c) {
  Rng r = c->R();
  static const int caps[] = {1, 2, 3, 4, 5, 7, 11, 16, 17, 18, 31, 37, 64, 100, 130, 257, 1000, 1024, 4096, 120000};
  int cap = r.P(0.8) ? caps[r.Int(0, 18)] : r.LogInt(1, 5000);
  int nops = r.LogInt(20, c->thorough ? 60000 : 12000);
  double pc = r.P(0.5) ? 0 : r.P(0.5) ? 0.002 : 0.02;
  if (cap > 20000) pc = std::min(pc, 0.001);
  int kind = r.Int(0, 7);
  int base = r.Int(-100000, 100000), span = r.LogInt(4, 40000);
  Rng g(r.Next());
  switch (kind) {
    case 0: History<int32_t>(c, &r, cap, nops, [&](int i) { return base + g.Int(0, span); }, pc, "small-range ints"); break;
    case 1: History<int32_t>(c, &r, cap, nops, [&](int i) { return (int32_t)g.Next(); }, pc, "random 32-bit ints"); break;
    case 2: { int p[] = {5, 11, 17, 37, 67, 131, 257, 521, 1031, 2053};
      int m = p[g.Int(0, 9)]; int off = g.Int(0, m);
      History<int32_t>(c, &r, cap, std::min(nops, 4000), [&](int i) { return off + m * g.Int(-3000, 3000); }, pc, "ints colliding modulo a prime"); break; }
    case 3: History<int32_t>(c, &r, cap, nops, [&](int i) { return base + i; }, pc, "sequential ints"); break;
    case 4: History<vfk::PairKey>(c, &r, cap, nops, [&](int i) { vfk::PairKey k = {g.Int(0, span), g.Int(0, 300)}; return k; }, pc, "state pairs"); break;
    case 5: { // pairs engineered to share a hash value: 31*a + b constant
      int s = g.Int(0, 100000);
      History<vfk::PairKey>(c, &r, cap, std::min(nops, 6000), [&](int i) { int a = g.Int(0, 1500); vfk::PairKey k = {a, s - 31 * a}; return k; }, pc, "pairs with one hash value"); break; }
    case 6: History<vfk::Bad>(c, &r, cap, std::min(nops, 3000), [&](int i) { vfk::Bad k = {g.Int(0, 2000)}; return k; }, pc, "7 hash values"); break;
    default: History<int32_t>(c, &r, cap, nops, [&](int i) { return g.P(0.5) ? (int32_t)(0x80000000u + g.Int(0, span)) : 0x7fffffff - g.Int(0, span); }, pc, "extreme ints"); break;
  }
}

// few, large tables: decoder-sized and beyond
static void Big(Ctx *c) {
  Rng r = c->R(5);
  int n = r.Int(150000, c->thorough ? 3000000 : 900000);
  int cap = r.P(0.5) ? 120000 : r.LogInt(1, 100000);
  pocketkaldi::HashTable<vfk::PairKey, int32_t> t(cap);
  for (int round = 0; round < 2; ++round) {
    uint64_t k0 = r.Next();
    int stride = r.Int(1, 64);
    auto key = [&](int i) { vfk::PairKey k; if (k0 & 1) { k.a = i * stride; k.b = (k0 >> 8) % 50; } else { k.a = (int)(Mix(k0 + i) >> 40); k.b = i; } return k; };
    for (int i = 0; i < n; ++i) t.Insert(key(i), i);
    for (int i = 0; i < n; ++i) {
      int32_t v = t.Find(key(i), -1);
      if (v != i) { c->Violation("wrong-value", "big table n=%d cap=%d round=%d: key %d -> %d", n, cap, round, i, v); return; }
    }
    for (int i = n; i < n + 1000; ++i)
      if (t.Find(key(i), -1) != -1) { c->Violation("phantom", "big table n=%d cap=%d: absent key %d found", n, cap, i); return; }
    t.Clear();
    for (int i = 0; i < n; i += 997)
      if (t.Find(key(i), -1) != -1) { c->Violation("phantom", "big table: key %d survives Clear", i); return; }
    c->Count("big_keys", n);
  }
  c->Max("live_keys", n);
  c->nontrivial = true; c->Sig(n); c->Sig(cap);
  c->Sample("table of %d pair keys from initial capacity %d, refilled after Clear: every key found, no absent key found", n, cap);
}

int main(int argc, char **argv) {
  return Main(argc, argv, {{"ops", Ops}, {"big", Big}});
}
