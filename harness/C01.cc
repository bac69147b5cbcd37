// C01: DuoVector ownership under operation histories and failed allocations.
#include "qlmps/one_dim_tn/framework/duovector.h"
#include "sim.h"
#include <memory>
using namespace sim;
namespace {
constexpr int kMax = 4096;
struct Elem;
struct Registry {
  const Elem *live[kMax];
  int n = 0;
  long born = 0, died = 0;
  void Add(const Elem *e) {
    if (n < kMax) live[n++] = e;
    ++born;
  }
  bool Has(const Elem *e) const {
    for (int i = 0; i < n; ++i) if (live[i] == e) return true;
    return false;
  }
  void Del(const Elem *e) {
    ++died;
    for (int i = 0; i < n; ++i)
      if (live[i] == e) {
        live[i] = live[--n];
        return;
      }
    Fail("duovec.double-destroy", "an element was destroyed that is not alive");
  }
} reg;
struct Elem {            // owns heap memory, so its constructors can fail
  long v = -1;
  long *heap = nullptr;
  Elem() : heap(new long(-1)) { reg.Add(this); }
  Elem(const Elem &r) : v(r.Get()), heap(new long(r.v)) { reg.Add(this); }
  Elem &operator=(const Elem &r) {
    long x = r.Get();
    Get();
    v = x;
    *heap = x;
    return *this;
  }
  ~Elem() {
    reg.Del(this);
    delete heap;
    heap = nullptr;
    v = -77;
  }
  long Get() const {
    if (!reg.Has(this)) Fail("duovec.dead-access", "access to an element that is not alive");
    if (*heap != v) Fail("duovec.corrupt", "element content changed");
    return v;
  }
  void Set(long x) {
    Get();
    v = x;
    *heap = x;
  }
};
using DV = qlmps::DuoVector<Elem>;
using Slot = std::pair<bool, long>;     // allocated, value
using Model = std::vector<Slot>;

struct Box {
  std::unique_ptr<DV> d;
  Model m;
};
void CheckAll(std::vector<Box> &bx) {
  std::vector<const Elem *> seen;
  size_t tot = 0;
  for (size_t b = 0; b < bx.size(); ++b) {
    if (!bx[b].d) continue;
    const DV &d = *bx[b].d;
    if (d.size() != bx[b].m.size()) Fail("duovec.size", "container has size " + std::to_string(d.size()) + ", expected " + std::to_string(bx[b].m.size()));
    bool any = false;
    auto cd = d.cdata();
    if (cd.size() != d.size()) Fail("duovec.cdata", "cdata has the wrong length");
    for (size_t i = 0; i < d.size(); ++i) {
      const Elem *p = d(i);
      if (cd[i] != p) Fail("duovec.cdata", "cdata disagrees with the slot");
      if ((p != nullptr) != bx[b].m[i].first) Fail("duovec.presence", "slot " + std::to_string(i) + (p ? " holds an element, expected none" : " is empty, expected an element"));
      if (!p) continue;
      any = true;
      ++tot;
      if (!reg.Has(p)) Fail("duovec.dangling", "slot " + std::to_string(i) + " points to an element that is not alive");
      for (auto q : seen) if (q == p) Fail("duovec.shared", "two slots own the same element");
      seen.push_back(p);
      if (p->Get() != bx[b].m[i].second) Fail("duovec.value", "slot " + std::to_string(i) + " holds " + std::to_string(p->Get()) + ", expected " + std::to_string(bx[b].m[i].second));
      if (d[i].Get() != bx[b].m[i].second) Fail("duovec.value", "reference access disagrees");
    }
    if (d.empty() == any) Fail("duovec.empty", "empty() is wrong");
    if (d.size() > 0 && bx[b].m.front().first && &d.front() != d(0)) Fail("duovec.front", "front() is not element 0");
    if (d.size() > 0 && bx[b].m.back().first && &d.back() != d(d.size() - 1)) Fail("duovec.back", "back() is not the last element");
  }
  if (size_t(reg.n) != tot) Fail("duovec.leak", std::to_string(reg.n) + " elements alive, " + std::to_string(tot) + " owned by containers");
}
// after a reported failure the touched container may hold anything valid; `keep` slots must be unchanged
void Adopt(Box &b, long touched_slot) {
  const DV &d = *b.d;
  Model n(d.size(), Slot(false, 0));
  for (size_t i = 0; i < d.size(); ++i) {
    const Elem *p = d(i);
    if (!p) continue;
    if (!reg.Has(p)) Fail("duovec.dangling", "after a failed allocation slot " + std::to_string(i) + " points to a destroyed element");
    n[i] = Slot(true, p->Get());
  }
  if (touched_slot >= 0) {
    if (n.size() != b.m.size()) Fail("duovec.size", "a failed call changed the size");
    for (size_t i = 0; i < n.size(); ++i) if (long(i) != touched_slot && n[i] != b.m[i]) Fail("duovec.value", "a failed call changed another slot");
  }
  b.m = n;
}
void Body(const Plan &p) {
  Rng r(Mix(p.seed, 5));
  long nb = p.P("boxes"), ops = p.P("ops");
  std::vector<Box> bx(nb);
  for (auto &b : bx) {
    size_t n = r.Below(p.P("size") + 1);
    b.d = std::make_unique<DV>(n);
    b.m = Model(n, Slot(false, 0));
  }
  CheckAll(bx);
  long val = 100;
  for (long o = 0; o < ops; ++o) {
    long a = r.Below(nb), c = r.Below(nb), op = r.Below(16);
    Box &A = bx[a], &C = bx[c];
    size_t n = A.d ? A.m.size() : 0;
    long i = n ? r.Below(n) : -1;
    long v = ++val;
    bool threw = false;
    bool whole = false, recreate = false;
    if (!A.d) op = 14;
    if (!C.d && (op == 8 || op == 9 || op == 10 || op == 11)) op = 0;
    if (op < 8 && i < 0) continue;
    if (op == 11 && a == c) op = 8;
    long before = FiredInProcess("alloc");
    AllocFaults(true);
    try {
      switch (op) {
        case 0: case 1: A.d->alloc(i); break;
        case 2: A.d->dealloc(i); break;
        case 3: case 4: (*A.d)[i].Set(v); break;                 // setter allocates
        case 5: if (!A.m[i].first) (*A.d)(i) = new Elem; break;   // pointer setter
        case 6: if (A.m[i].first) { delete (*A.d)(i); (*A.d)(i) = nullptr; } break;
        case 7: if (A.m[i].first) { Elem e(*static_cast<const DV &>(*A.d)(i)); (*A.d)[i] = e; } break;
        case 8: case 9: whole = true; *A.d = *C.d; break;         // copy assignment, also to itself
        case 10: whole = recreate = true; { auto t = std::make_unique<DV>(*C.d); A.d = std::move(t); } break;
        case 11: whole = true; *A.d = std::move(*C.d); break;
        case 12: A.d->clear(); break;
        case 13: whole = recreate = true; { DV t(std::move(*A.d)); A.d = std::make_unique<DV>(std::move(t)); } break;
        case 14: whole = recreate = true; { auto t = std::make_unique<DV>(size_t(v % (p.P("size") + 1))); A.d = std::move(t); } break;
        case 15: whole = recreate = true; A.d.reset(); break;
      }
    } catch (const std::bad_alloc &) { threw = true; }
    AllocFaults(false);
    bool fired = FiredInProcess("alloc") > before;
    if (threw && !fired) Fail("duovec.spurious", "bad_alloc without an injected failure");
    if (threw) {
      Probe("duovec.alloc_failure_reported");
      if (!A.d) {
        A.m.clear();
      } else if (op == 13) {      // the temporary may have taken the content with it
        Adopt(A, -1);
      } else if (recreate) {
        // construction failed before anything was replaced
        Adopt(A, n ? long(n) : -1);
      } else Adopt(A, whole ? -1 : i);
    } else {
      switch (op) {
        case 0: case 1: A.m[i] = Slot(true, -1); break;
        case 2: A.m[i] = Slot(false, 0); break;
        case 3: case 4: A.m[i] = Slot(true, v); break;
        case 5: if (!A.m[i].first) A.m[i] = Slot(true, -1); break;
        case 6: A.m[i] = Slot(false, 0); break;
        case 8: case 9: case 10: { Model t = C.m; A.m = t; break; }
        case 11: {
          A.m = C.m;
          // a moved-from container owns nothing
          const DV &d = *C.d;
          for (size_t k = 0; k < d.size(); ++k) if (d(k) != nullptr) Fail("duovec.moved-from", "a moved-from container still points to an element");
          C.m = Model(d.size(), Slot(false, 0));
          break;
        }
        case 12: for (auto &s : A.m) s = Slot(false, 0); break;
        case 14: A.m = Model(A.d->size(), Slot(false, 0)); if (A.m.size() != size_t(v % (p.P("size") + 1))) Fail("duovec.size", "constructed with the wrong size"); break;
        case 15: A.m.clear(); break;
        default: break;
      }
    }
    CheckAll(bx);
  }
  bx.clear();
  if (reg.n != 0) Fail("duovec.leak", std::to_string(reg.n) + " elements alive after every container is gone");
  if (reg.born != reg.died) Fail("duovec.count", "constructions and destructions differ");
}
struct H : Harness {
  std::string Id() override { return "C01"; }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["boxes"] = r.Range(1, 3);
    p.par["size"] = r.Range(1, 5);
    p.par["ops"] = r.Range(3, thorough ? 80 : 30);
    long nf = r.Chance(0.15) ? 0 : r.Range(1, 4);
    for (long i = 0; i < nf; ++i) {
      Fault f;
      f.kind = "alloc";
      f.cls = "alloc";
      f.frac = r.Below(10000);
      p.faults.push_back(f);
    }
  }
  std::map<std::string, long> Minimum() override { return {{"ops", 1}, {"boxes", 1}, {"size", 1}}; }
  long QuickRuns() override { return 6000; }
  double QuickSecs() override { return 25; }
  void Run(Ctx &c) override {
    auto body = [&c]() { Body(*c.plan); };
    Outcome ref = c.Process("fault-free", 0, false, body);
    if (ref.kind != OK) Violate(ref.kind == FAIL ? ref.cls : std::string("duovec.") + KindName(ref.kind), "without faults: " + ref.cls + " " + ref.msg);
    if (c.plan->faults.empty()) {
      c.nontrivial = 1;
      return;
    }
    c.Resolve(0, ref);
    Outcome o = c.Process("with failing allocations", 0, true, body);
    c.nontrivial = o.num.empty() ? 1 : 1;
    if (o.kind != OK) Violate(o.kind == FAIL ? o.cls : std::string("duovec.") + KindName(o.kind), "with failing allocations: " + o.cls + " " + o.msg);
  }
  std::vector<std::string> RealComponents() override { return {"qlmps::DuoVector"}; }
  std::vector<std::string> StubComponents() override { return {"element type (instrumented)", "operator new (seeded failures)"}; }
};
}
namespace sim { Harness *MakeHarness() { return new H; } }
