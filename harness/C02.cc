// C02: histories of tensor, operator-group and MPO file operations with disk errors, kills and missing or truncated files.
#define VH_DMRG
#include "algo.h"

#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h"
namespace {
using namespace vh;
const int kFiles = 5, kGroups = 3, kMpo = 2;
struct H : Harness {
  std::string Id() override { return "C02"; }
  std::map<std::string, long> Minimum() override {
    std::map<std::string, long> m{{"n", 2}, {"u1", 0}, {"cplx", 0}, {"nops", 1}, {"nops2", 0}};
    for (int k = 0; k < 24; ++k) m["c" + std::to_string(k)] = 0;
    return m;
  }
  std::string Rule() override { return "non-trivial: at least one file was written and read back, or a failure was reported"; }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["n"] = 2 + r.Below(3);
    p.par["u1"] = r.Below(3) > 0;
    p.par["cplx"] = r.Below(2);
    p.par["nops"] = 1 + r.Below(thorough ? 20 : 12);
    p.par["nops2"] = r.Below(4) ? 2 + r.Below(8) : 0;
    for (int k = 0; k < p.par["nops"] + p.par["nops2"]; ++k) {
      p.par["c" + std::to_string(k)] = 1 + r.Below(12);
      p.par["a" + std::to_string(k)] = r.Below(1 << 24);
    }
    int nf = r.Chance(0.35) ? 0 : 1 + r.Below(3);
    static const char *cls[] = {"openw", "openr", "write", "read", "closew", "write", "read", "mkdir", "read", "unlink", "write", "read", "read"};
    static const char *kind[] = {"open_fail", "open_fail", "enospc", "eio", "close_fail", "short", "short", "mkdir_fail", "eof", "unlink_fail", "eintr", "eintr", "eio"};
    for (int k = 0; k < nf; ++k) {
      Fault f;
      int w = r.Below(13);
      f.kind = kind[w];
      f.cls = cls[w];
      f.inc = r.Below(4) == 0;
      f.at = r.Below(w == 7 ? 2 : 30);
      f.a = r.Below(1000);
      p.faults.push_back(f);
    }
    if (r.Chance(0.4)) {
      Fault f;
      f.kind = "kill";
      static const char *kc[] = {"write", "any", "openw", "closew", "unlink"};
      f.cls = kc[r.Below(5)];
      f.inc = 0;
      f.at = r.Below(f.cls == "any" ? 120 : 20);
      f.a = r.Below(1000);
      p.faults.push_back(f);
    }
  }
  // what a file may hold: contents by value id (0: nothing there); more than one after an interrupted write
  struct FileState { bool torn = false; std::set<long> may{0}; };
  using Journal = std::map<std::string, FileState>;
  static std::string Enc(const Journal &j) {
    std::string s;
    for (auto &e : j) {
      s += e.first + " " + (e.second.torn ? "1" : "0") + " " + std::to_string(e.second.may.size());
      for (long v : e.second.may) s += " " + std::to_string(v);
      s += "\n";
    }
    return s;
  }
  static Journal Dec(const std::string &s) {
    Journal j;
    std::istringstream is(s);
    std::string f;
    int t;
    size_t n;
    while (is >> f >> t >> n) {
      auto &e = j[f];
      e.torn = t;
      e.may.clear();
      for (size_t i = 0; i < n; ++i) {
        long v;
        is >> v;
        e.may.insert(v);
      }
    }
    return j;
  }
  template<typename E> static Ten<E> Value(const Plan &p, long id) {
    NoFaults nf;
    Rng r(Mix(id, 71));
    bool u1 = p.P("u1");
    auto idx = [&](int dir) {
      using namespace qlten;
      std::vector<QNSector<QNT>> v;
      if (!u1) v.push_back(QNSector<QNT>(Qn(0), 1 + r.Below(6)));
      else for (int q = -1; q <= 1; ++q) if (q == 0 || r.Chance(0.6)) v.push_back(QNSector<QNT>(Qn(q), 1 + r.Below(4)));
      return Index<QNT>(v, dir ? TenIndexDirType::OUT : TenIndexDirType::IN);
    };
    std::vector<IdxT> ix{idx(0), idx(1), idx(1)};
    if (r.Chance(0.3)) ix.push_back(idx(0));
    Ten<E> t(ix);
    auto sh = t.GetShape();
    std::vector<std::vector<int>> ch;                // charge of every index position
    for (auto &x : ix) {
      std::vector<int> v;
      for (auto &qs : x.GetQNScts()) v.insert(v.end(), qs.GetDegeneracy(), (x.GetDir() == qlten::TenIndexDirType::OUT ? 1 : -1) * QnVal(qs.GetQn()));
      ch.push_back(v);
    }
    std::vector<size_t> c(sh.size(), 0);
    for (;;) {
      int q = 0;
      for (size_t k = 0; k < c.size(); ++k) q += ch[k][c[k]];
      if (q == 0) {
        double a = r.Normal() * (r.Chance(0.1) ? 1e-300 : 1), b = r.Normal();
        t.SetElem(c, Scalar<E>::Make(a, b));
      }
      int k = int(c.size()) - 1;
      while (k >= 0 && ++c[k] == sh[k]) c[k--] = 0;
      if (k < 0) break;
    }
    return t;
  }
  template<typename E> static std::string Bytes(const Ten<E> &t) {
    NoFaults nf;
    std::ostringstream os;
    os << t;
    return os.str();
  }
  template<typename E> static std::string Bytes(const Plan &p, long id) {
    static std::map<long, std::string> memo;
    auto it = memo.find(id);
    if (it == memo.end()) it = memo.emplace(id, Bytes<E>(Value<E>(p, id))).first;
    return it->second;
  }
  template<typename E> void Body(Ctx &c, const Plan &p, int inc, int from, int to) {
    using Tv = qlmps::TenVec<Ten<E>>;
    int n = int(p.P("n"));
    std::string jf = c.Dir("journal"), d = c.Dir("d");
    Journal J;
    {
      NoFaults nf;
      if (Exists(jf)) J = Dec(Slurp(jf));
    }
    auto save = [&] {
      NoFaults nf;
      Spit(jf, Enc(J));
    };
    auto begin = [&](const std::string &f, long id) {      // about to overwrite f
      J[f].may.insert(id);
      J[f].torn = true;
      save();
    };
    auto done = [&](const std::string &f, long id) {
      J[f].torn = false;
      J[f].may = {id};
      save();
    };
    long readback = 0, loud = 0;
    auto onDisk = [&](const std::string &f, long id, const std::string &op) {
      NoFaults nf;
      if (!Exists(f) || Slurp(f) != Bytes<E>(p, id)) Fail("file.dump-lost", op + " reported success but " + f.substr(c.root.size()) + " does not hold the tensor");
    };
    // a value arrived from file f
    auto loaded = [&](const std::string &f, const Ten<E> &t, const std::string &op) {
      if (t.IsDefault()) Fail("file.load-wrong", op + " reported success but gave no tensor");
      std::string b = Bytes(t);
      for (long v : J[f].may) if (v && b == Bytes<E>(p, v)) {
          ++readback;
          return;
        }
      Fail("file.load-wrong", op + " reported success but returned a tensor that was never written to " + f.substr(c.root.size()) + (J[f].torn ? " (torn)" : ""));
    };
    auto failed = [&](long before, const std::string &op, const std::vector<std::string> &fs, const std::string &what) {
      ++loud;
      if (FiredInProcess() > before) return;
      for (auto &f : fs) if (J[f].torn || J[f].may.count(0)) return;
      Fail("file.spurious-failure", op + " failed although the disk worked and every file is whole: " + what);
    };
    Tv tv(n);
    std::vector<long> held(n, 0);
    for (int k = from; k < to; ++k) {
      long a = p.P("a" + std::to_string(k));
      Rng r(Mix(a, 99));
      long id = 1000 * (k + 1);
      int op = int(p.P("c" + std::to_string(k)));
      int i = r.Below(n), w = r.Below(kFiles);
      std::string f = d + "/t" + std::to_string(w) + ".qlten";
      long b0 = FiredInProcess();
      std::string what;
      bool ok = true;
      auto tryit = [&](auto &&g) {
        try {
          g();
        } catch (const SimError &) {
          throw;
        } catch (const std::exception &e) {
          ok = false;
          what = e.what();
        }
      };
      const Tv &ct = tv;
      switch (op) {
        case 1: case 2: {                       // dump one element, with or without release
          if (ct(i) == nullptr) {
            tv[i] = Value<E>(p, id);
            held[i] = id;
          }
          bool rel = r.Chance(0.5), plain = r.Chance(0.3);
          begin(f, held[i]);
          tryit([&] {
            if (plain) ct.DumpTen(i, f);
            else tv.DumpTen(i, f, rel);
          });
          bool want = ok && rel && !plain;
          if (ok) {
            onDisk(f, held[i], "DumpTen");
            done(f, held[i]);
          } else {
            failed(b0, "DumpTen", {}, what);
          }
          if ((ct(i) == nullptr) != want) Fail("file.release", std::string("DumpTen ") + (ok ? "succeeded" : "failed") + " (release " + std::to_string(rel && !plain) + ") and the tensor is " + (ct(i) ? "still" : "not") + " in memory");
          if (ct(i) && Bytes(ct[i]) != Bytes<E>(p, held[i])) Fail("file.memory", "DumpTen changed the tensor in memory");
          if (!ct(i)) held[i] = 0;
          break;
        }
        case 3: case 4: {                       // load one element, over an empty or occupied slot
          std::vector<const Ten<E> *> other;
          for (int q = 0; q < n; ++q) other.push_back(ct(q));
          tryit([&] { tv.LoadTen(i, f); });
          if (ok) {
            if (!ct(i)) Fail("file.load-wrong", "LoadTen succeeded but the slot is empty");
            loaded(f, ct[i], "LoadTen");
            for (long v : J[f].may) if (v && Bytes(ct[i]) == Bytes<E>(p, v)) held[i] = v;
          } else {
            failed(b0, "LoadTen", {f}, what);
            if (ct(i)) tv.dealloc(i);
            held[i] = 0;
          }
          for (int q = 0; q < n; ++q) if (q != i && ct(q) != other[q]) Fail("file.memory", "LoadTen changed another slot");
          break;
        }
        case 5: {                               // free function write
          auto t = Value<E>(p, id);
          begin(f, id);
          tryit([&] { qlmps::WriteQLTensorTOFile(t, f); });
          if (ok) {
            onDisk(f, id, "WriteQLTensorTOFile");
            done(f, id);
          } else failed(b0, "WriteQLTensorTOFile", {}, what);
          if (Bytes(t) != Bytes<E>(p, id)) Fail("file.memory", "WriteQLTensorTOFile changed the tensor in memory");
          break;
        }
        case 6: {                               // free function read
          Ten<E> t;
          if (r.Chance(0.3)) t = Value<E>(p, id);
          bool res = false;
          tryit([&] { res = qlmps::ReadQLTensorFromFile(t, f); });
          ok = ok && res;
          if (ok) loaded(f, t, "ReadQLTensorFromFile");
          else failed(b0, "ReadQLTensorFromFile", {f}, what);
          break;
        }
        case 7: case 8: case 9: {               // operator groups
          int len = r.Below(kGroups), sz = 1 + (len * 2 + 1) % 4;
          std::string side = r.Chance(0.5) ? "l" : "r";
          auto fn = [&](int q) { return qlmps::GenOpFileName(side, len, q, d); };
          std::vector<std::string> fs;
          for (int q = 0; q < sz; ++q) fs.push_back(fn(q));
          qlmps::BlockOperatorGroup<Ten<E>> g(sz);
          if (op == 7) {
            for (int q = 0; q < sz; ++q) {
              g[q] = Value<E>(p, id + q);
              begin(fs[q], id + q);
            }
            tryit([&] { qlmps::WriteOperatorGroup(side, len, g, d); });
            for (int q = 0; q < sz; ++q) {
              if (ok) {
                onDisk(fs[q], id + q, "WriteOperatorGroup");
                done(fs[q], id + q);
              }
              if (Bytes(g[q]) != Bytes<E>(p, id + q)) Fail("file.memory", "WriteOperatorGroup changed an operator in memory");
            }
            if (!ok) failed(b0, "WriteOperatorGroup", {}, what);
          } else {
            bool rm = op == 9, res = false;
            std::vector<bool> was;
            {
              NoFaults nf;
              for (auto &x : fs) was.push_back(Exists(x));
            }
            if (rm) for (auto &x : fs) J[x].may.insert(0);
            if (rm) save();
            std::string nm = rm ? "ReadAndRemoveOperatorGroup" : "ReadOperatorGroup";
            tryit([&] { res = rm ? qlmps::ReadAndRemoveOperatorGroup(side, len, g, d) : qlmps::ReadOperatorGroup(side, len, g, d); });
            ok = ok && res;
            std::vector<bool> now;
            {
              NoFaults nf;
              for (auto &x : fs) now.push_back(Exists(x));
            }
            if (ok) for (int q = 0; q < sz; ++q) loaded(fs[q], g[q], nm);
            if (!ok) {
              // reported: which files are whole is known from before this call
              bool whole = true;
              for (int q = 0; q < sz; ++q) if (J[fs[q]].torn || !was[q]) whole = false;
              ++loud;
              if (whole && FiredInProcess() == b0) Fail("file.spurious-failure", nm + " failed although the disk worked and every file is whole");
            }
            for (int q = 0; q < sz; ++q) {
              if (!rm && now[q] != was[q]) Fail("file.removed", nm + " changed which files exist");
              if (rm && was[q] && !now[q]) {
                // removed: its content must have arrived
                bool good = false;
                if (!g[q].IsDefault()) for (long v : J[fs[q]].may) if (v && Bytes(g[q]) == Bytes<E>(p, v)) good = true;
                if (!good) Fail("file.removed-unread", nm + " removed a file whose content it did not deliver");
              }
              if (rm && ok && now[q] && FiredInProcess("unlink") == 0) Fail("file.not-removed", nm + " succeeded and left a file behind");
              if (!now[q]) {
                J[fs[q]].may = {0};
                J[fs[q]].torn = false;
              } else if (rm && was[q]) J[fs[q]].may.erase(0);
            }
            save();
          }
          break;
        }
        case 10: case 11: {                     // whole operator with its centre
          std::string md = c.Dir("mpo" + std::to_string(r.Below(kMpo)));
          int len = 3;
          auto fn = [&](int q) { return qlmps::GenMPOTenName(md, q); };
          std::vector<std::string> fs;
          for (int q = 0; q < len; ++q) fs.push_back(fn(q));
          std::string cf = md + "/center";
          qlmps::FiniteMPO<E, QNT> o(len);
          if (op == 10) {
            for (int q = 0; q < len; ++q) {
              o[q] = Value<E>(p, id + q);
              begin(fs[q], id + q);
            }
            begin(cf, 1);
            tryit([&] { std::as_const(o).Dump(md); });
            if (ok) {
              for (int q = 0; q < len; ++q) {
                onDisk(fs[q], id + q, "FiniteMPO::Dump");
                done(fs[q], id + q);
              }
              done(cf, 1);
            } else failed(b0, "FiniteMPO::Dump", {}, what);
            for (int q = 0; q < len; ++q) if (!std::as_const(o)(q) || Bytes(std::as_const(o)[q]) != Bytes<E>(p, id + q)) Fail("file.memory", "FiniteMPO::Dump changed a tensor in memory");
          } else {
            bool res = false;
            tryit([&] { res = o.Load(md); });
            ok = ok && res;
            fs.push_back(cf);
            if (ok) {
              for (int q = 0; q < len; ++q) loaded(fs[q], std::as_const(o)[q], "FiniteMPO::Load");
              if (o.GetCenter() != -1) Fail("file.load-wrong", "FiniteMPO::Load succeeded with centre " + std::to_string(o.GetCenter()) + ", stored was -1");
            } else failed(b0, "FiniteMPO::Load", fs, what);
          }
          break;
        }
        case 12: {                              // the file disappears or is cut by someone else
          NoFaults nf;
          if (!Exists(f)) break;
          std::string s = Slurp(f);
          if (r.Chance(0.4)) {
            ::remove(f.c_str());
            J[f] = FileState();
          } else if (!s.empty()) {
            Spit(f, s.substr(0, r.Below(s.size())));
            J[f].torn = true;                   // reading succeeds only if what was cut off did not matter
          }
          save();
          break;
        }
        default:break;
      }
    }
    Put("readback", double(readback));
    Put("loud", double(loud));
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    MkDir(c.Dir("d"));
    int n1 = int(p.P("nops", 1)), n2 = int(p.P("nops2"));
    double seen = 0;
    for (int inc = 0; inc < (n2 ? 2 : 1); ++inc) {
      auto o = c.Process(inc ? "second" : "first", inc, true, [&] {
        int a = inc ? n1 : 0, b = inc ? n1 + n2 : n1;
        p.P("cplx") ? Body<Zc>(c, p, inc, a, b) : Body<double>(c, p, inc, a, b);
      });
      if (o.kind == FAIL) Violate(o.cls, o.msg);
      if (o.kind == KILLED) {
        Probe("killed");
        seen = 1;
        continue;
      }
      bool mk = false;
      for (auto &f : p.faults) if (f.kind == "mkdir_fail") mk = true;
      if (o.kind == EXIT && o.code && mk) {       // CreatPath ends the process when mkdir fails
        seen = 1;
        continue;
      }
      if (!o.Ok()) Violate("file.run-failed", std::string(KindName(o.kind)) + " " + o.msg);
      seen += o.num["readback"] + o.num["loud"];
    }
    if (seen > 0) c.nontrivial = 1;
  }
  std::vector<std::string> RealComponents() override { return {"qlmps TenVec, tensor file helpers, block-operator files, FiniteMPO files", "libstdc++ streams", "tmpfs"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "disk errors, process kill"}; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
