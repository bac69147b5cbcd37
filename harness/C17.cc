// C17: histories of parsers over generated parameter files (well-formed, truncated, damaged, missing) with failing reads,
// against a value model that does not use the JSON library.
#include "qlmps/case_params_parser.h"
#include "sim.h"
#include <memory>
#include <cstring>
namespace {
using namespace sim;
using Parser = qlmps::CaseParamsParserBasic;
enum T { NUL, BOOL, INT, FLT, STR, ARR, OBJ };
struct J {
  T t = NUL;
  std::string text;          // as written in the file
  bool b = false;
  bool neg = false;
  uint64_t mag = 0;          // INT: magnitude
  bool huge = false;         // INT beyond 64 bits
  double d = 0;              // numbers
  std::string s;
  std::vector<J> a;
};
struct Doc {
  std::vector<std::string> names;
  std::map<std::string, J> v;
  std::string text;
  int bad = 0;               // 0 readable; 1 construction must fail; 2 the parameter object is not an object
};
struct Gen {
  Rng r;
  explicit Gen(uint64_t s) : r(s) {}
  std::string Ws() {
    static const char *w[] = {"", "", "", " ", "\n", "\t", "  ", " \r\n "};
    return w[r.Below(8)];
  }
  void Esc(std::string &text, std::string &val) {
    long n = r.Chance(0.1) ? 0 : r.Chance(0.03) ? 9000 : r.Below(9);
    text = "\"";
    for (long i = 0; i < n; ++i) {
      int k = r.Below(14);
      if (k < 8) {
        char c = "abcXYZ019 _-./{}[]:,"[r.Below(20)];
        text += c;
        val += c;
      } else if (k == 8) { text += "\\\""; val += '"'; }
      else if (k == 9) { text += "\\\\"; val += '\\'; }
      else if (k == 10) { text += "\\n"; val += '\n'; }
      else if (k == 11) { text += "\\u00e9"; val += "\xc3\xa9"; }
      else if (k == 12) { text += "\xc3\xa9"; val += "\xc3\xa9"; }
      else { text += "\\ud83d\\ude00"; val += "\xf0\x9f\x98\x80"; }
    }
    text += '"';
  }
  J Num(bool integer) {
    J j;
    if (integer) {
      j.t = INT;
      static const uint64_t edge[] = {0, 1, 2147483647ull, 2147483648ull, 2147483649ull, 4294967295ull, 4294967296ull, 4294967303ull, 9007199254740993ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull};
      j.mag = r.Chance(0.3) ? edge[r.Below(12)] : uint64_t(r.Below(r.Chance(0.3) ? 4 : r.Chance(0.5) ? 100 : 1000000000));
      j.neg = r.Chance(0.35);
      j.text = (j.neg ? "-" : "") + std::to_string(j.mag);
      if (r.Chance(0.03)) {
        j.text += "000000000000000000000";
        j.huge = j.mag != 0;
        if (j.mag == 0) j.text = "0";
      }
      if (j.mag == 0 && !j.huge) j.text = j.neg ? "-0" : "0";
      j.d = strtod(j.text.c_str(), nullptr);
    } else {
      j.t = FLT;
      j.text = std::string(r.Chance(0.4) ? "-" : "") + std::to_string(r.Below(5000));
      int k = r.Below(5);
      if (k != 0) j.text += "." + std::to_string(r.Below(100000));
      if (k == 0 || k == 1) j.text += std::string(r.Chance(0.5) ? "e" : "E") + (r.Chance(0.4) ? "-" : r.Chance(0.3) ? "+" : "") + std::to_string(r.Below(12));
      if (k == 2) j.text += ".0", j.text = j.text.substr(0, j.text.find('.')) + ".0";
      j.d = strtod(j.text.c_str(), nullptr);
    }
    return j;
  }
  J Value(int depth) {
    int k = r.Below(20);
    J j;
    if (k < 5) return Num(true);
    if (k < 8) return Num(false);
    if (k < 11) {
      j.t = STR;
      Esc(j.text, j.s);
      return j;
    }
    if (k < 13) {
      j.t = BOOL;
      j.b = r.Chance(0.5);
      j.text = j.b ? "true" : "false";
      return j;
    }
    if (k == 13) {
      j.text = "null";
      return j;
    }
    if (k == 14 && depth < 2) {
      j.t = OBJ;
      j.text = "{" + Ws();
      bool some = r.Chance(0.7);
      if (some) j.text += "\"k0\"" + Ws() + ":" + Ws() + Value(depth + 1).text + Ws();
      if (some && r.Chance(0.4)) j.text += ",\"CaseParams\":{\"k1\":5}";
      j.text += "}";
      return j;
    }
    j.t = ARR;
    long n = r.Chance(0.15) ? 0 : r.Chance(0.02) ? 3000 : 1 + r.Below(5);
    int el = r.Below(10);        // 0-4 ints, 5-7 mixed numbers, 8 anything, 9 naturals
    long odd = r.Chance(0.5) ? long(r.Below(n + 1)) : -1;
    j.text = "[" + Ws();
    for (long i = 0; i < n; ++i) {
      J e = el < 5 || el == 9 ? Num(true) : el < 8 ? Num(r.Chance(0.3)) : depth < 2 ? Value(depth + 1) : Num(true);
      if (el == 9 && i == odd) {      // one element of an otherwise well-formed list of naturals is out of place
        e = r.Chance(0.5) ? Num(true) : depth < 2 ? Value(depth + 1) : Num(false);
        if (e.t == INT && !e.neg && e.mag && r.Chance(0.7)) {
          e.neg = true;
          e.text = "-" + e.text;
          e.d = -e.d;
        }
      } else if (el == 9 && e.neg) {
        e.neg = false;
        e.text = e.text.substr(1);
        e.d = -e.d;
      }
      j.text += (i ? "," + Ws() : std::string()) + e.text + Ws();
      j.a.push_back(e);
    }
    j.text += "]";
    return j;
  }
  std::string Object(const std::vector<std::pair<std::string, std::string>> &kv) {
    std::string t = "{" + Ws();
    for (size_t i = 0; i < kv.size(); ++i) t += (i ? "," + Ws() : std::string()) + "\"" + kv[i].first + "\"" + Ws() + ":" + Ws() + kv[i].second + Ws();
    return t + "}";
  }
  Doc Make(int kind) {
    static const char *keys[] = {"k0", "k1", "k10", "Sweeps", "sweeps", "Dmax", "Dmin", "CutOff", "CaseParams", "noise", "k", "path", "x y", "k2"};
    Doc d;
    std::vector<std::pair<std::string, std::string>> kv;
    long n = r.Below(11);
    for (long i = 0; i < n; ++i) {
      std::string k = keys[r.Below(14)];
      if (d.v.count(k)) continue;
      J v = Value(0);
      d.v[k] = v;
      kv.push_back({k, v.text});
    }
    std::string inner = Object(kv);
    if (kind == 3) {
      static const char *alt[] = {"3", "[]", "[1,2]", "\"k0\"", "null", "true", "1.5", "[{\"k0\":1}]"};
      inner = alt[r.Below(8)];
      d.v.clear();
      d.bad = 2;
    }
    std::vector<std::pair<std::string, std::string>> root;
    if (r.Chance(0.4)) root.push_back({"Other", Object({{"k0", "77"}, {"Dmax", "\"other\""}})});
    if (r.Chance(0.3)) root.push_back({"k1", "88"});
    if (kind != 2) root.push_back({"CaseParams", inner});
    else if (r.Chance(0.5)) root.push_back({"caseparams", inner});
    if (r.Chance(0.3)) root.push_back({"After", Object({{"CaseParams", "{\"k0\":99}"}})});
    if (r.Chance(0.2)) root.push_back({"Dmin", "66"});
    std::string pad = r.Chance(0.15) ? std::string(r.Below(20000), ' ') : Ws();
    d.text = pad + Object(root);
    if (kind == 2) d.bad = 1;
    if (kind == 1) {                     // truncated before the closing brace
      d.text = d.text.substr(0, r.Below(d.text.size()));
      d.bad = 1;
    } else if (kind == 5) {              // structural damage outside strings
      size_t p = d.text.find('{');
      int how = r.Below(4);
      if (how == 0) d.text[p] = '[';
      else if (how == 1) d.text.erase(p, 1);
      else if (how == 2) d.text.insert(p + 1, ",");
      else d.text[d.text.rfind('}')] = ']';
      d.bad = 1;
      if (how == 1 && root.empty()) d.bad = 1;
    } else if (r.Chance(0.5)) d.text += Ws() + "\n";
    return d;
  }
};
// expectations: 0 must fail, 1 must succeed, 2 either (but the value must be right when it succeeds)
int Fits(const J &v, bool sgn, int bits) {
  if (v.t == FLT || (v.t == INT && v.huge)) {
    double lo = sgn ? -std::ldexp(1.0, bits - 1) : 0, hi = std::ldexp(1.0, sgn ? bits - 1 : bits);
    return v.d == std::trunc(v.d) && v.d >= lo && v.d < hi ? 2 : 0;
  }
  if (v.t != INT) return 0;
  if (v.neg && v.mag) return sgn && v.mag <= (1ull << (bits - 1)) ? 1 : 0;
  return v.mag <= (sgn ? (1ull << (bits - 1)) - 1 : bits == 64 ? ~0ull : (1ull << bits) - 1) ? 1 : 0;
}
bool Same(const J &v, double x) { return v.d == x; }
bool SameInt(const J &v, long long x) { return v.t == INT && !v.huge ? (v.neg ? x == (long long) (0 - v.mag) : x >= 0 && (unsigned long long) x == v.mag) : double(x) == v.d; }
bool SameNat(const J &v, size_t x) { return v.t == INT && !v.huge ? (!v.neg || !v.mag) && x == v.mag : double(x) == v.d; }
int Want(const J &v, int g) {
  auto all = [&](auto f) {
    if (v.t != ARR) return 0;
    int w = 1;
    for (auto &e : v.a) {
      int x = f(e);
      if (!x) return 0;
      if (x == 2) w = 2;
    }
    return w;
  };
  switch (g) {
    case 0: return Fits(v, true, 32);
    case 1: return v.t == INT || v.t == FLT;
    case 2: case 3: return v.t == STR;
    case 4: return v.t == BOOL;
    case 5: return all([](const J &e) { return Fits(e, true, 32); });
    case 6: return all([](const J &e) { return Fits(e, false, 64); });
    default: return all([](const J &e) { return int(e.t == INT || e.t == FLT); });
  }
}
const char *kGet[] = {"Int", "Double", "Char", "Str", "Bool", "IntVec", "SizeTVec", "DoubleVec"};
struct Op { int file, mode, get; std::string key; };
struct H : Harness {
  std::string Id() override { return "C17"; }
  std::string Rule() override { return "non-trivial: at least one getter was called or the construction was rejected as required"; }
  std::map<std::string, long> Minimum() override {
    std::map<std::string, long> m{{"nf", 1}, {"nops", 0}};
    for (int i = 0; i < 3; ++i) m["kind" + std::to_string(i)] = 0;
    return m;
  }
  double QuickSecs() override { return 30; }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["nf"] = 1 + r.Below(3);
    for (int i = 0; i < 3; ++i) {
      p.par["kind" + std::to_string(i)] = r.Chance(0.7) ? 0 : r.Below(8);
      p.par["doc" + std::to_string(i)] = r.Below(1 << 28);
    }
    p.par["nops"] = r.Below(thorough ? 60 : 25);
    for (int i = 0; i < p.par["nops"]; ++i) p.par["o" + std::to_string(i)] = r.Below(1 << 28);
    if (r.Chance(0.5)) {
      static const char *kind[] = {"short", "eintr", "eio", "eof", "open_fail", "short"};
      int nf = 1 + r.Below(3);
      for (int i = 0; i < nf; ++i) {
        Fault f;
        f.kind = kind[r.Below(6)];
        f.cls = f.kind == "open_fail" ? "openr" : "read";
        f.at = r.Below(4);
        f.a = r.Below(1000);
        p.faults.push_back(f);
      }
    }
  }
  template<typename X> static std::string Show(const X &) { return "a wrong value"; }
  template<typename X, typename Same> static void Value(const Op &o, const X &got, Same ok) {
    if (!ok(got)) Fail("params.value", std::string(o.mode == 0 ? "Parse" : o.mode == 1 ? "Parse..Or" : "TryParse") + " " + kGet[o.get] + " of key '" + o.key + "' returned a value that is not in the file");
  }
  // one getter; mode 0 strict, 1 with default, 2 try
  template<typename X, typename Strict, typename Or, typename Try, typename Same>
  static void One(const Op &o, const J *v, const X &def, Strict st, Or orf, Try tr, Same same) {
    int w = v ? Want(*v, o.get) : 0;
    std::string nm = std::string(kGet[o.get]) + " of key '" + o.key + "'";
    if (o.mode == 2) {
      X out = def;
      bool ok = tr(out);
      if (ok && !w) Fail("params.accepted", "TryParse" + nm + (v ? " accepted " + v->text.substr(0, 60) : " succeeded for an absent key"));
      if (!ok && w == 1) Fail("params.rejected", "TryParse" + nm + " rejected " + v->text.substr(0, 60));
      if (ok) Value(o, out, same);
      else if (!(out == def)) Fail("params.clobbered", "a failed TryParse" + nm + " changed the output variable");
      return;
    }
    if (o.mode == 1 && !v) {
      X out = orf(def);
      if (!(out == def)) Fail("params.default", "Parse" + nm + "Or: the key is absent but the default was not returned");
      return;
    }
    X out = o.mode == 1 ? orf(def) : st();
    if (!w) Fail("params.accepted", "Parse" + nm + (o.mode == 1 ? " (with default)" : "") + (v ? " accepted " + v->text.substr(0, 60) : " returned for an absent key"));
    Value(o, out, same);
  }
  static void Call(Parser &ps, const Op &o, const J *v) {
    bool alt = o.file & 1;
    if (ps.Has(o.key) != (v != nullptr)) Fail("params.has", "Has('" + o.key + "') is wrong");
    auto vec = [&](auto cmp) {
      return [v, cmp](const auto &x) {
        if (x.size() != v->a.size()) return false;
        for (size_t i = 0; i < x.size(); ++i) if (!cmp(v->a[i], x[i])) return false;
        return true;
      };
    };
    auto &k = o.key;
    switch (o.get) {
      case 0: One<int>(o, v, alt ? 42 : -7, [&] { return ps.ParseInt(k); }, [&](int d) { return ps.ParseIntOr(k, d); }, [&](int &x) { return ps.TryParseInt(k, x); }, [&](int x) { return SameInt(*v, x); }); break;
      case 1: One<double>(o, v, alt ? 0.25 : -3e5, [&] { return ps.ParseDouble(k); }, [&](double d) { return ps.ParseDoubleOr(k, d); }, [&](double &x) { return ps.TryParseDouble(k, x); }, [&](double x) { return Same(*v, x); }); break;
      case 2: One<char>(o, v, alt ? 'q' : '#', [&] { return ps.ParseChar(k); }, [&](char d) { return ps.ParseCharOr(k, d); }, [&](char &x) { return ps.TryParseChar(k, x); }, [&](char x) { return x == (v->s.empty() ? '\0' : v->s[0]); }); break;
      case 3: One<std::string>(o, v, alt ? "def" : "", [&] { return ps.ParseStr(k); }, [&](const std::string &d) { return ps.ParseStrOr(k, d); }, [&](std::string &x) { return ps.TryParseStr(k, x); }, [&](const std::string &x) { return x == v->s; }); break;
      case 4: One<bool>(o, v, alt, [&] { return ps.ParseBool(k); }, [&](bool d) { return ps.ParseBoolOr(k, d); }, [&](bool &x) { return ps.TryParseBool(k, x); }, [&](bool x) { return x == v->b; }); break;
      case 5: One<std::vector<int>>(o, v, alt ? std::vector<int>{9, 8} : std::vector<int>{}, [&] { return ps.ParseIntVec(k); }, [&](const std::vector<int> &d) { return ps.ParseIntVecOr(k, d); }, [&](std::vector<int> &x) { return ps.TryParseIntVec(k, x); }, vec([](const J &e, int x) { return SameInt(e, x); })); break;
      case 6: One<std::vector<size_t>>(o, v, alt ? std::vector<size_t>{9, 8} : std::vector<size_t>{}, [&] { return ps.ParseSizeTVec(k); }, [&](const std::vector<size_t> &d) { return ps.ParseSizeTVecOr(k, d); }, [&](std::vector<size_t> &x) { return ps.TryParseSizeTVec(k, x); }, vec([](const J &e, size_t x) { return SameNat(e, x); })); break;
      default: One<std::vector<double>>(o, v, alt ? std::vector<double>{.5} : std::vector<double>{}, [&] { return ps.ParseDoubleVec(k); }, [&](const std::vector<double> &d) { return ps.ParseDoubleVecOr(k, d); }, [&](std::vector<double> &x) { return ps.TryParseDoubleVec(k, x); }, vec([](const J &e, double x) { return Same(e, x); })); break;
    }
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    long nf = p.P("nf", 1);
    std::vector<Doc> docs;
    std::vector<std::string> path;
    for (int i = 0; i < nf; ++i) {
      int kind = int(p.P("kind" + std::to_string(i)));
      Gen g(Mix(p.P("doc" + std::to_string(i)), 31));
      Doc d = g.Make(kind);
      std::string f = c.Dir("in" + std::to_string(i) + ".json");
      if (kind == 4) d.bad = 1;                     // missing
      else if (kind == 6) {
        MkDir(f);
        d.bad = 1;
      } else if (kind == 7) {
        Spit(f, g.Ws());
        d.bad = 1;
      } else Spit(f, d.text);
      docs.push_back(d);
      path.push_back(f);
    }
    std::string prog = c.Dir("progress");
    // operations: 0-7 getters; parsers of later files are built when first used
    std::vector<Op> ops;
    for (int k = 0; k < p.P("nops"); ++k) {
      Rng r(Mix(p.P("o" + std::to_string(k)), 17));
      Op o;
      o.file = r.Below(nf);
      int m = r.Below(20);
      o.mode = m < 3 ? 0 : m < 10 ? 1 : m < 16 ? 2 : m - 13;       // 3 rewrite, 4 copy, 5 build again, 6 remove
      auto &v = docs[o.file].v;
      if (!v.empty() && r.Chance(0.8)) {
        auto it = v.begin();
        std::advance(it, r.Below(v.size()));
        o.key = it->first;
        o.get = r.Below(8);
        if (r.Chance(0.7))                          // mostly a getter that fits
          for (int q = 0; q < 20 && !Want(it->second, o.get); ++q) o.get = r.Below(8);
      } else {
        static const char *abs[] = {"nothere", "k0", "k", "Dmax", "", "Sweep", "CaseParams"};
        o.key = abs[r.Below(7)];
        o.get = r.Below(8);
      }
      ops.push_back(o);
    }
    auto body = [&] {
      std::vector<std::unique_ptr<Parser>> ps(nf);
      std::vector<bool> gone(nf, false);
      auto mark = [&](int must) {
        NoFaults n;
        Spit(prog, std::to_string(must));
      };
      auto build = [&](int i) {
        mark(docs[i].bad == 1 || gone[i] ? 1 : 0);
        ps[i] = std::make_unique<Parser>(path[i].c_str());
        if (docs[i].bad == 1 || gone[i]) Fail("params.accepted", "a parser was built from a missing, truncated or malformed file: " + docs[i].text.substr(0, 80));
      };
      build(0);
      mark(0);
      long calls = 0;
      for (auto &o : ops) {
        if (!ps[o.file]) build(o.file);
        auto &d = docs[o.file];
        mark(0);
        if (o.mode == 3 || o.mode == 6) {
          NoFaults n;                               // the file changes after it was read
          if (o.mode == 3) Spit(path[o.file], "{\"CaseParams\":{\"k0\":12345,\"Dmax\":54321,\"k1\":[5,4]}}");
          else RmTree(path[o.file]);
          gone[o.file] = true;
          continue;
        }
        if (o.mode == 4) {
          auto q = std::make_unique<Parser>(*ps[o.file]);
          ps[o.file] = std::move(q);
          continue;
        }
        if (o.mode == 5) {
          if (!gone[o.file]) build(o.file);
          continue;
        }
        auto it = d.v.find(o.key);
        const J *v = it == d.v.end() ? nullptr : &it->second;
        int w = v ? Want(*v, o.get) : 0;
        if (o.mode == 0 || (o.mode == 1 && v)) mark(w == 0 ? 1 : w == 2 ? 2 : 0);
        Call(*ps[o.file], o, v);
        ++calls;
      }
      mark(0);
      Put("calls", double(calls));
      Put("loud_faults", double(FiredInProcess("eio") + FiredInProcess("eof") + FiredInProcess("open_fail")));
    };
    auto o = c.Process("parse", 0, true, body);
    if (o.kind == FAIL) Violate(o.cls, o.msg);
    if (!o.Ok()) {
      if (!o.LoudFailure()) Violate("params.crash", std::string(KindName(o.kind)) + " " + o.msg);
      bool hard = false;
      for (auto &f : p.faults) if (f.kind == "eio" || f.kind == "eof" || f.kind == "open_fail") hard = true;
      int must = Exists(prog) ? atoi(Slurp(prog).c_str()) : 0;
      if (!must && !hard) Violate("params.rejected", std::string("a well-formed file or a fitting value was rejected: ") + KindName(o.kind) + " " + o.msg);
      c.nontrivial = 1;
      return;
    }
    if (o.num["calls"] >= 1) c.nontrivial = 1;
  }
  std::vector<std::string> RealComponents() override { return {"qlmps CaseParamsParserBasic", "bundled nlohmann json", "libstdc++ streams"}; }
  std::vector<std::string> StubComponents() override { return {"disk (interposed open/read)"}; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
