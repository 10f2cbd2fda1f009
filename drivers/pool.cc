// Pool and GCPool monitors: shadow model of every constructor / destructor /
// OnCollect event, contents and addresses of live objects.
#include <unordered_map>
#include <unordered_set>
#include "h.h"
#include "pool.h"
using namespace vf;

static Ctx *g;
struct Track {
  std::unordered_map<const void *, uint64_t> live;   // address -> id
  std::unordered_map<uint64_t, int> destroyed;
  long ctors, dtors;
  bool bad;
};
static Track T;

struct Obj {                      // non-trivially destructible, owns memory
  uint64_t id, check; std::string payload; char pad[24];
  Obj(uint64_t i, const std::string &p) : id(i), check(~i), payload(p) {
    memset(pad, (int)(i & 0xff), sizeof pad);
    ++T.ctors;
    if (T.live.count(this)) { g->Violation("alias", "object %llu constructed on top of live object %llu", (unsigned long long)i, (unsigned long long)T.live[this]); T.bad = true; }
    T.live[this] = i;
  }
  Obj(const Obj &) = delete;
  ~Obj() {
    ++T.dtors;
    std::unordered_map<const void *, uint64_t>::iterator it = T.live.find(this);
    if (it == T.live.end()) { g->Violation("destroyed-not-live", "destructor ran on a cell holding no live object (id field %llu)", (unsigned long long)id); T.bad = true; abort(); }
    if (it->second != id || check != ~id) { g->Violation("corrupt", "object %llu was overwritten (id field %llu)", (unsigned long long)it->second, (unsigned long long)id); T.bad = true; }
    if (++T.destroyed[id] != 1) { g->Violation("double-destroy", "object %llu destroyed twice", (unsigned long long)id); T.bad = true; }
    T.live.erase(it);
  }
  bool Ok(uint64_t i) const { if (id != i || check != ~i || payload.size() != i % 61) return false; for (size_t k = 0; k < sizeof pad; ++k) if ((unsigned char)pad[k] != (i & 0xff)) return false; return true; }
};
struct Pod { uint64_t id, check; int a[3]; Pod(uint64_t i, int x) : id(i), check(~i) { a[0] = a[1] = a[2] = x; }
  bool Ok(uint64_t i) const { return id == i && check == ~i && a[0] == (int)i && a[1] == (int)i && a[2] == (int)i; } };
static uint64_t gid;
template <class O> struct Mk;
template <> struct Mk<Obj> { template <class P> static Obj *New(P *p, uint64_t i) { return p->Alloc(i, std::string(i % 61, 'x')); } };
template <> struct Mk<Pod> { template <class P> static Pod *New(P *p, uint64_t i) { return p->Alloc(i, (int)i); } };

template <class O, int BS>
static void PoolHistory(Ctx *c, Rng *r, const char *what) {
  const bool nt = std::is_same<O, Obj>::value;
  T = Track(); T.ctors = T.dtors = 0; T.bad = false;
  int nops = r->LogInt(50, c->thorough ? 120000 : 30000);
  double grow = r->Uni(0.35, 0.75), pclear = r->P(0.5) ? 3.0 / nops : r->P(0.5) ? 0 : 0.005;
  long clears = 0, deallocs = 0, reuse = 0; size_t maxlive = 0;
  bool down = false;
  {
    pocketkaldi::Pool<O, BS> pool;
    std::vector<std::pair<O *, uint64_t> > live;
    std::set<const char *> addr;
    size_t freed = 0;
    for (int i = 0; i < nops && !T.bad; ++i) {
      double u = r->Uni();
      if (u < pclear) {
        for (size_t k = 0; k < live.size(); ++k) if (!live[k].first->Ok(live[k].second)) { c->Violation("corrupt", "%s: live object %llu damaged before Clear", what, (unsigned long long)live[k].second); return; }
        pool.Clear(); live.clear(); addr.clear(); freed = 0; ++clears;
        if (nt && !T.live.empty()) { c->Violation("leaked", "%s: %zu objects not destroyed by Clear", what, T.live.size()); return; }
        if (pool.allocated_nodes() != 0) { c->Violation("count", "%s: %d allocated after Clear", what, pool.allocated_nodes()); return; }
      } else if (live.empty() || r->Uni() < (down ? 1 - grow : grow)) {
        int before = pool.free_nodes();
        uint64_t id = ++gid;
        O *o = Mk<O>::New(&pool, id);
        if (freed) { --freed; ++reuse; }
        // no overlap with any live object
        const char *p = reinterpret_cast<const char *>(o);
        std::set<const char *>::iterator it = addr.lower_bound(p - sizeof(O) + 1);
        if (it != addr.end() && *it < p + sizeof(O)) { c->Violation("alias", "%s: new object overlaps a live one (op %d)", what, i); return; }
        if (reinterpret_cast<uintptr_t>(p) % alignof(O)) { c->Violation("misaligned", "%s", what); return; }
        addr.insert(p);
        live.push_back(std::make_pair(o, id));
        if (before > 0 && pool.free_nodes() != before - 1) { c->Violation("count", "%s: free nodes %d -> %d on Alloc (op %d)", what, before, pool.free_nodes(), i); return; }
      } else {
        size_t k = r->P(0.3) ? live.size() - 1 : r->Next() % live.size();
        if (!live[k].first->Ok(live[k].second)) { c->Violation("corrupt", "%s: live object %llu damaged (op %d)", what, (unsigned long long)live[k].second, i); return; }
        addr.erase(reinterpret_cast<const char *>(live[k].first));
        pool.Dealloc(live[k].first); ++freed; ++deallocs;
        if (nt && T.live.size() != live.size() - 1) { c->Violation("not-destroyed", "%s: Dealloc of %llu left %zu live, expected %zu", what, (unsigned long long)live[k].second, T.live.size(), live.size() - 1); return; }
        live[k] = live.back(); live.pop_back();
      }
      if ((size_t)pool.allocated_nodes() != live.size()) { c->Violation("count", "%s: allocated_nodes()=%d but %zu live (op %d, %ld clears)", what, pool.allocated_nodes(), live.size(), i, clears); return; }
      maxlive = std::max(maxlive, live.size());
      if (i % (nops / 6 + 1) == 0) {
        down = r->P(0.4);
        for (size_t k = 0; k < live.size(); ++k) if (!live[k].first->Ok(live[k].second)) { c->Violation("corrupt", "%s: live object %llu damaged (op %d)", what, (unsigned long long)live[k].second, i); return; }
        if (nt && T.live.size() != live.size()) { c->Violation("lost", "%s: %zu objects alive, expected %zu", what, T.live.size(), live.size()); return; }
      }
    }
    for (size_t k = 0; k < live.size(); ++k) if (!live[k].first->Ok(live[k].second)) { c->Violation("corrupt", "%s: live object %llu damaged at end", what, (unsigned long long)live[k].second); return; }
    if (r->P(0.3)) {      // bounded memory: refill the same number, nothing grows
      int fr = pool.free_nodes() + pool.allocated_nodes();
      size_t n = live.size();
      for (size_t k = 0; k < n; ++k) { addr.erase((const char *)live[k].first); pool.Dealloc(live[k].first); }
      for (size_t k = 0; k < n; ++k) live[k].first = Mk<O>::New(&pool, live[k].second = ++gid);
      if (pool.free_nodes() + pool.allocated_nodes() != fr) { c->Violation("no-reuse", "%s: capacity changed %d -> %d although everything was released first", what, fr, pool.free_nodes() + pool.allocated_nodes()); return; }
    }
  }
  if (nt && (!T.live.empty() || T.ctors != T.dtors)) { c->Violation("leaked", "%s: %zu objects not destroyed with the pool (ctors %ld dtors %ld)", what, T.live.size(), T.ctors, T.dtors); return; }
  c->Count("ops", nops); c->Count("clears", clears); c->Count("deallocs", deallocs); c->Count("reused_cells", reuse);
  c->Max("live", maxlive);
  c->nontrivial = maxlive > 4 && deallocs > 0;
  c->SigS(what); c->Sig(maxlive); c->Sig(deallocs); c->Sig(clears);
  c->Sample("%s: %d ops, up to %zu live, %ld releases, %ld reuses, %ld clears; every object intact, destroyed once", what, nops, maxlive, deallocs, reuse, clears);
}
// Waves of allocations and releases of very many objects
template <class O, int BS>
static void PoolWaves(Ctx *c, Rng *r, const char *what) {
  const bool nt = std::is_same<O, Obj>::value;
  T = Track(); T.ctors = T.dtors = 0; T.bad = false;
  int n = r->LogInt(20000, c->flavor == "o2" ? 400000 : 150000), waves = r->Int(2, 4);
  {
    pocketkaldi::Pool<O, BS> pool; std::vector<std::pair<O *, uint64_t> > live; int cap = 0;
    for (int w = 0; w < waves && !T.bad; ++w) {
      while ((int)live.size() < n) { uint64_t id = ++gid; live.push_back(std::make_pair(Mk<O>::New(&pool, id), id)); }
      if (pool.allocated_nodes() != n) { c->Violation("count", "%s: allocated_nodes()=%d but %d live (wave %d)", what, pool.allocated_nodes(), n, w); return; }
      int total = pool.free_nodes() + pool.allocated_nodes();
      if (cap && total != cap) { c->Violation("no-reuse", "%s: wave %d of %d objects: capacity changed %d -> %d although enough had been released", what, w, n, cap, total); return; }
      cap = total;
      std::vector<const char *> a; for (auto &x : live) a.push_back((const char *)x.first); std::sort(a.begin(), a.end());
      for (size_t k = 1; k < a.size(); ++k) if (a[k] < a[k - 1] + sizeof(O)) { c->Violation("alias", "%s: two of %d live objects overlap (wave %d)", what, n, w); return; }
      for (auto &x : live) if (!x.first->Ok(x.second)) { c->Violation("corrupt", "%s: live object %llu damaged (wave %d)", what, (unsigned long long)x.second, w); return; }
      int order = r->Int(0, 2), keep = r->P(0.5) ? 0 : r->Int(0, n / 4);
      if (order == 0) std::reverse(live.begin(), live.end());
      if (order == 1) for (size_t k = live.size() - 1; k > 0; --k) std::swap(live[k], live[r->Next() % (k + 1)]);
      while ((int)live.size() > keep) { pool.Dealloc(live.back().first); live.pop_back(); }
      if (pool.allocated_nodes() != keep) { c->Violation("count", "%s: allocated_nodes()=%d but %d live after releasing %d", what, pool.allocated_nodes(), keep, n - keep); return; }
      if (nt && (int)T.live.size() != keep) { c->Violation("not-destroyed", "%s: %zu objects alive after all but %d were released", what, T.live.size(), keep); return; }
      if (r->P(0.3)) { pool.Clear(); live.clear(); if (pool.allocated_nodes() || (nt && !T.live.empty())) { c->Violation("leaked", "%s: %d allocated, %zu not destroyed after Clear", what, pool.allocated_nodes(), T.live.size()); return; } cap = 0; }
    }
  }
  if (nt && (!T.live.empty() || T.ctors != T.dtors)) { c->Violation("leaked", "%s: %zu objects not destroyed with the pool (ctors %ld dtors %ld)", what, T.live.size(), T.ctors, T.dtors); return; }
  c->Count("waves", waves); c->Count("wave_objects", (long)n * waves); c->Max("live", n); c->nontrivial = true; c->SigS(what); c->Sig(n); c->Sig(waves);
  c->Sample("%s: %d waves of %d objects, every one intact and destroyed once, memory reused", what, waves, n);
}
static void PoolCase(Ctx *c) {
  g = c; Rng r = c->R();
  if (c->cur % 60 == 31) {
    switch (r.Int(0, 2)) { case 0: PoolWaves<Obj, 4096>(c, &r, "objects/4096"); break; case 1: PoolWaves<Pod, 4096>(c, &r, "plain/4096"); break; default: PoolWaves<Obj, 100>(c, &r, "objects/100"); }
    return;
  }
  switch (c->cur % 8) {
    case 0: PoolHistory<Obj, 4096>(c, &r, "objects/4096"); break;
    case 1: PoolHistory<Obj, 16>(c, &r, "objects/16"); break;
    case 2: PoolHistory<Obj, 1>(c, &r, "objects/1"); break;
    case 3: PoolHistory<Pod, 4096>(c, &r, "plain/4096"); break;
    case 4: PoolHistory<Pod, 64>(c, &r, "plain/64"); break;
    case 5: PoolHistory<Obj, 128>(c, &r, "objects/128"); break;
    case 6: PoolHistory<Pod, 3>(c, &r, "plain/3"); break;
    default: PoolHistory<Obj, 512>(c, &r, "objects/512"); break;
  }
}

// ---------------------------------------------------------------- GCPool
struct Node : public pocketkaldi::Collectable {
  Node *prev; uint64_t id, check; std::string payload;
  static std::unordered_map<const void *, uint64_t> live;
  static std::unordered_map<uint64_t, int> collected;
  static long ctors, dtors;
  Node(Node *p, uint64_t i) : prev(p), id(i), check(~i), payload(i % 40, 'y') {
    ++ctors;
    if (live.count(this)) { g->Violation("alias", "node %llu constructed over live node %llu", (unsigned long long)i, (unsigned long long)live[this]); abort(); }
    live[this] = i;
  }
  ~Node() {
    ++dtors;
    if (!live.count(this) || live[this] != id || check != ~id) { g->Violation("destroyed-not-live", "destructor on a cell holding no live node (id field %llu)", (unsigned long long)id); abort(); }
    live.erase(this);
  }
  Node *previous() const { return prev; }
  void OnCollect() override {
    if (!live.count(this) || live[this] != id) { g->Violation("collected-not-live", "OnCollect on a cell holding no live node"); abort(); }
    if (++collected[id] != 1) g->Violation("double-collect", "node %llu collected twice", (unsigned long long)id);
  }
};
std::unordered_map<const void *, uint64_t> Node::live;
std::unordered_map<uint64_t, int> Node::collected;
long Node::ctors, Node::dtors;

template <int BS> static void GcHistory(Ctx *c, Rng *r, const char *what) {
  Node::live.clear(); Node::collected.clear(); Node::ctors = Node::dtors = 0;
  int rounds = r->LogInt(2, 60);
  long gcs = 0, freed_total = 0, kept_total = 0, explicit_free = 0; size_t maxlive = 0, deep = 0;
  bool use_dealloc = r->P(0.4), use_clear = r->P(0.15);
  {
    pocketkaldi::GCPool<Node, BS> pool;
    struct Sh { Node *p; uint64_t prev; };
    std::map<uint64_t, Sh> model;         // id -> node
    std::vector<uint64_t> order;
    for (int round = 0; round < rounds; ++round) {
      int n = r->LogInt(1, c->thorough ? 6000 : 1500);
      if (r->P(0.1)) n = 0;
      double chain = r->Uni();
      for (int i = 0; i < n; ++i) {
        uint64_t prev = 0; Node *pp = nullptr;
        if (!order.empty() && r->P(0.95)) {
          prev = r->P(chain) ? order.back() : r->Pick(order);
          pp = model[prev].p;
        }
        uint64_t id = ++gid;
        Node *nd = pool.Alloc(pp, id);
        Sh s = {nd, prev}; model[id] = s; order.push_back(id);
      }
      if (use_dealloc && !order.empty()) {
        // release some leaves explicitly
        std::unordered_set<uint64_t> has_child;
        for (auto &kv : model) has_child.insert(kv.second.prev);
        std::vector<uint64_t> leaves;
        for (auto &kv : model) if (!has_child.count(kv.first)) leaves.push_back(kv.first);
        r->Shuffle(&leaves);
        size_t k = r->Int(0, std::min<int>(leaves.size(), 20));
        for (size_t i = 0; i < k; ++i) { pool.Dealloc(model[leaves[i]].p); model.erase(leaves[i]); ++explicit_free; }
        order.clear(); for (auto &kv : model) order.push_back(kv.first);
      }
      maxlive = std::max(maxlive, model.size());
      if ((size_t)pool.allocated_nodes() != model.size() || Node::live.size() != model.size()) { c->Violation("count", "%s round %d: allocated_nodes()=%d live=%zu model=%zu", what, round, pool.allocated_nodes(), Node::live.size(), model.size()); return; }
      // roots: newest, oldest, random, duplicates, or none
      std::vector<Node *> roots; std::vector<uint64_t> rid;
      int nr = r->P(0.1) ? 0 : r->LogInt(1, 40);
      for (int i = 0; i < nr && !order.empty(); ++i) {
        uint64_t id = r->P(0.3) ? order.back() : r->P(0.2) ? order.front() : r->Pick(order);
        rid.push_back(id); roots.push_back(model[id].p);
        if (r->P(0.1)) { rid.push_back(id); roots.push_back(model[id].p); }
      }
      std::unordered_set<uint64_t> reach;
      for (uint64_t id : rid) { size_t d = 0; while (id && reach.insert(id).second) { id = model[id].prev; ++d; } deep = std::max(deep, d); }
      pool.GC(roots); ++gcs;
      // oracle
      for (auto it = model.begin(); it != model.end();) {
        uint64_t id = it->first; bool alive = Node::live.count(it->second.p) && Node::live[it->second.p] == id;
        if (reach.count(id)) {
          Node *nd = it->second.p;
          if (!alive || Node::collected.count(id)) { c->Violation("freed-reachable", "%s GC %ld: node %llu is reachable from the roots but was collected", what, gcs, (unsigned long long)id); return; }
          if (nd->id != id || nd->check != ~id || nd->payload != std::string(id % 40, 'y') || (it->second.prev ? nd->prev != model[it->second.prev].p : nd->prev != nullptr)) { c->Violation("corrupt", "%s GC %ld: reachable node %llu damaged", what, gcs, (unsigned long long)id); return; }
          ++it; ++kept_total;
        } else {
          if (alive) { c->Violation("kept-unreachable", "%s GC %ld: node %llu is unreachable but still alive (of %zu)", what, gcs, (unsigned long long)id, model.size()); return; }
          if (Node::collected[id] != 1) { c->Violation("no-oncollect", "%s GC %ld: node %llu destroyed without notification", what, gcs, (unsigned long long)id); return; }
          it = model.erase(it); ++freed_total;
        }
      }
      if ((size_t)pool.allocated_nodes() != model.size()) { c->Violation("count", "%s GC %ld: allocated_nodes()=%d, %zu reachable", what, gcs, pool.allocated_nodes(), model.size()); return; }
      order.clear(); for (auto &kv : model) order.push_back(kv.first);
      if (use_clear && r->P(0.1)) {
        pool.Clear(); model.clear(); order.clear();
        if (!Node::live.empty() || pool.allocated_nodes()) { c->Violation("leaked", "%s: %zu nodes survive Clear", what, Node::live.size()); return; }
      }
    }
  }
  if (!Node::live.empty() || Node::ctors != Node::dtors) { c->Violation("leaked", "%s: %zu nodes not destroyed with the pool", what, Node::live.size()); return; }
  c->Count("collections", gcs); c->Count("freed", freed_total); c->Count("kept", kept_total); c->Count("explicit_releases", explicit_free);
  c->Max("live", maxlive); c->Max("chain", deep);
  c->nontrivial = freed_total > 0 && kept_total > 0;
  c->SigS(what); c->Sig(freed_total); c->Sig(kept_total); c->Sig(gcs);
  c->Sample("%s: %ld collections, %ld nodes freed, %ld kept, chains up to %zu, %ld explicit releases", what, gcs, freed_total, kept_total, deep, explicit_free);
}
// chains longer than any stack could follow
struct Lean : public pocketkaldi::Collectable {
  Lean *prev; uint32_t id; static long alive, collected;
  Lean(Lean *p, uint32_t i) : prev(p), id(i) { ++alive; }
  ~Lean() { --alive; id = 0xffffffffu; }
  Lean *previous() const { return prev; }
  void OnCollect() override { ++collected; }
};
long Lean::alive, Lean::collected;
template <int BS> static void GcDeep(Ctx *c, Rng *r, const char *what) {
  Lean::alive = Lean::collected = 0; long total = 0, kept = 0;
  {
    pocketkaldi::GCPool<Lean, BS> pool; int n = c->flavor == "o2" ? r->Int(600000, 3000000) : r->Int(200000, 500000); double side = r->P(0.5) ? 0 : r->Uni(0, 0.5);
    std::vector<Lean *> spine; std::vector<uint32_t> ids; uint32_t next = 1; Lean *last = nullptr;
    for (int i = 0; i < n; ++i) { last = pool.Alloc(last, next); spine.push_back(last); ids.push_back(next++); ++total; if (side && r->P(side)) { pool.Alloc(r->P(0.5) ? last : spine[r->Int(0, i)], next++); ++total; } }
    for (int round = 0; round < 3; ++round) {
      size_t keep = round == 0 ? spine.size() : round == 1 ? (size_t)r->Int((int)spine.size() / 3, (int)spine.size()) : (size_t)r->Int(0, 3); std::vector<Lean *> roots; if (keep) roots.push_back(spine[keep - 1]); if (keep && r->P(0.5)) roots.push_back(spine[r->Int(0, (int)keep - 1)]); r->Shuffle(&roots);
      long before = Lean::alive, done = Lean::collected; pool.GC(roots); spine.resize(keep); kept += keep;
      if (Lean::alive != (long)keep || pool.allocated_nodes() != (int)keep) { c->Violation("deep-count", "%s: %ld nodes alive, %d counted after a collection that reaches %zu of %ld", what, Lean::alive, pool.allocated_nodes(), keep, before); return; }
      if (Lean::collected - done != before - (long)keep) { c->Violation("deep-notify", "%s: %ld nodes notified, %ld destroyed", what, Lean::collected - done, before - (long)keep); return; }
      for (size_t i = 0; i < keep; ++i) if (spine[i]->id != ids[i] || spine[i]->prev != (i ? spine[i - 1] : nullptr)) { c->Violation("deep-corrupt", "%s: node %zu of a chain of %zu damaged", what, i, keep); return; }
    }
    c->Max("chain", n);
  }
  if (Lean::alive) { c->Violation("leaked", "%s: %ld nodes not destroyed with the pool", what, Lean::alive); return; }
  c->Count("deep_chains"); c->nontrivial = true; c->SigS(what); c->Sig(total); c->Sig(kept);
  c->Sample("%s: a chain of %ld nodes collected three times", what, total);
}
// very many collections of small generations, and a few of very wide ones with many roots
template <int BS> static void GcMany(Ctx *c, Rng *r, const char *what) {
  Lean::alive = Lean::collected = 0; bool wide = r->P(0.5); int rounds = wide ? r->Int(3, 6) : c->cur % 3 == 0 ? r->Int(66000, 70000) : r->Int(300, 2000), per = wide ? r->Int(30000, c->flavor == "o2" ? 300000 : 60000) : r->Int(1, 12); long freed = 0; size_t most = 0;
  {
    pocketkaldi::GCPool<Lean, BS> pool; struct S { Lean *p; uint32_t id; long prev; bool on; }; std::vector<S> v; uint32_t next = 1; double pk = wide ? r->Uni(0.2, 0.9) : r->Uni(0.3, 0.97), pn = r->Uni(0, 0.3);
    for (int q = 0; q < rounds; ++q) {
      int n = r->P(0.1) ? 0 : r->Int(1, per);
      for (int i = 0; i < n; ++i) { long pr = v.empty() || r->P(pn) ? -1 : wide ? r->Int(0, (int)v.size() - 1) : (long)v.size() - 1 - r->Int(0, std::min<int>(20, (int)v.size()) - 1); S x; x.prev = pr; x.id = next; x.p = pool.Alloc(pr < 0 ? nullptr : v[pr].p, next++); x.on = false; v.push_back(x); }
      most = std::max(most, v.size()); std::vector<Lean *> roots; for (size_t i = 0; i < v.size(); ++i) { bool leaf = wide ? r->P(pk * 0.5) : i + 8 > v.size() && r->P(pk); if (leaf) { roots.push_back(v[i].p); if (r->P(0.05)) roots.push_back(v[i].p); for (long k = (long)i; k >= 0 && !v[k].on; k = v[k].prev) v[k].on = true; } }
      if (r->P(0.5)) r->Shuffle(&roots); long before = Lean::alive, done = Lean::collected; if (before != (long)v.size()) { c->Violation("many-alive", "%s: %ld nodes alive of %zu before collection %d", what, before, v.size(), q); return; }
      pool.GC(roots); std::vector<S> k; std::vector<long> at(v.size(), -1);
      for (size_t i = 0; i < v.size(); ++i) if (v[i].on) { at[i] = (long)k.size(); S x = v[i]; x.prev = x.prev < 0 ? -1 : at[x.prev]; x.on = false; k.push_back(x); }
      if (Lean::alive != (long)k.size() || pool.allocated_nodes() != (int)k.size() || Lean::collected - done != before - (long)k.size()) { c->Violation("many-count", "%s: collection %d with %zu roots: %zu of %ld nodes are reachable, %ld alive afterwards, %d counted, %ld notified", what, q, roots.size(), k.size(), before, Lean::alive, pool.allocated_nodes(), Lean::collected - done); return; }
      freed += before - (long)k.size(); v.swap(k);
      for (auto &x : v) if (x.p->id != x.id || x.p->prev != (x.prev < 0 ? nullptr : v[x.prev].p)) { c->Violation("many-corrupt", "%s: collection %d: a reachable node is damaged", what, q); return; }
      if (!wide && v.size() > 200) { v.clear(); std::vector<Lean *> none; pool.GC(none); if (Lean::alive) { c->Violation("many-count", "%s: %ld nodes survive a collection without roots", what, Lean::alive); return; } }
    }
  }
  if (Lean::alive) { c->Violation("leaked", "%s: %ld nodes not destroyed with the pool", what, Lean::alive); return; }
  c->Count("collections", rounds); c->Count("freed", freed); c->Max("collections_of_a_pool", rounds); c->Max("wide_live", most); c->nontrivial = freed > 0; c->SigS(what); c->Sig(freed); c->Sig(rounds);
  c->Sample("%s: %d collections, up to %zu nodes, %ld freed", what, rounds, most, freed);
}
static void GcCase(Ctx *c) {
  g = c; Rng r = c->R(3);
  if (c->cur % 40 == 17) { if (r.P(0.5)) GcMany<4096>(c, &r, "many, block 4096"); else GcMany<64>(c, &r, "many, block 64"); return; }
  if (c->cur % 80 == 40) { if (r.P(0.5)) GcDeep<4096>(c, &r, "deep, block 4096"); else GcDeep<64>(c, &r, "deep, block 64"); return; }
  switch (c->cur % 5) {
    case 0: GcHistory<4096>(c, &r, "block 4096"); break;
    case 1: GcHistory<8>(c, &r, "block 8"); break;
    case 2: GcHistory<1>(c, &r, "block 1"); break;
    case 3: GcHistory<256>(c, &r, "block 256"); break;
    default: GcHistory<1024>(c, &r, "block 1024"); break;
  }
}
int main(int argc, char **argv) { return Main(argc, argv, {{"pool", PoolCase}, {"gc", GcCase}}); }
