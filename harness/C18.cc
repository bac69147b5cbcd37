// C18: call histories of MemoryMonitor over seeded system answers, failing queries and clock jumps.
#include "qlmps/memory_monitor.h"
#include "sim.h"
#include <cstring>
#include <ctime>
#include <cmath>
#include <map>
namespace {
using namespace sim;
struct H : Harness {
  std::string Id() override { return "C18"; }
  std::string Rule() override { return "non-trivial: at least one reading was taken or one failure reported"; }
  std::map<std::string, long> Minimum() override { return {{"nops", 1}}; }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["nops"] = 1 + r.Below(thorough ? 40 : 14);
    for (int i = 0; i < p.par["nops"]; ++i) p.par["o" + std::to_string(i)] = r.Below(1 << 28);
    int nf = r.Chance(0.4) ? 0 : 1 + r.Below(3);
    for (int i = 0; i < nf; ++i) {
      Fault f;
      bool clk = r.Chance(0.4);
      f.kind = clk ? "clock.jump" : "sysinfo_fail";
      f.cls = clk ? "clock" : "sysinfo";
      f.at = r.Below(10);
      f.a = r.Chance(0.5) ? r.Below(100000) : -r.Below(100000);
      p.faults.push_back(f);
    }
  }
  struct Mem { unsigned long total, freer, buf; unsigned unit; };
  static Mem Make(Rng &r) {
    Mem m;
    static const unsigned units[] = {1, 1, 1, 4096, 1024, 65536, 1048576};
    m.unit = units[r.Below(7)];
    unsigned long cap = (1ul << 46) / m.unit;        // up to 64 TB
    m.total = 1 + r.Next() % (r.Chance(0.5) ? cap : cap >> 10);
    m.freer = r.Next() % (m.total + 1);
    m.buf = r.Next() % (m.total - m.freer + 1);
    if (r.Chance(0.1)) m.freer = m.total, m.buf = 0;
    if (r.Chance(0.1)) m.freer = m.buf = 0;
    return m;
  }
  static std::string Msg(Rng &r) {
    static const char *w[] = {"", "start", "after sweep 3", "100% done %s %d", "line\nbreak", "x", "  spaces ", "Used: 1.00 GB", "\xc3\xa9"};
    std::string s = w[r.Below(9)];
    if (r.Chance(0.1)) s += std::string(r.Below(3000), 'z');
    return s;
  }
  // the exact value is a rational with a power of two below: compare the two decimals allowing either neighbour of a tie
  static bool Two(const std::string &s, double v) {
    char b[64];
    snprintf(b, sizeof b, "%.2f", v);
    if (s == b) return true;
    char *e;
    double x = strtod(s.c_str(), &e);
    return *e == 0 && s.size() > 3 && s[s.size() - 3] == '.' && std::fabs(x - v) <= 0.005 * (1 + 1e-9) + 1e-12 * std::fabs(v);
  }
  static std::string Stamp(double t) {
    time_t x = time_t(std::floor(t));
    char b[64];
    strftime(b, sizeof b, "%Y-%m-%d %X", std::localtime(&x));
    return b;
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    auto body = [&] {
      std::vector<qlmps::MemoryMonitor> mon;
      mon.emplace_back();
      mon.emplace_back(int(p.seed % 3));
      long n = 0;
      double gb = 1024.0 * 1024 * 1024;
      for (int k = 0; k < p.P("nops"); ++k) {
        Rng r(Mix(p.P("o" + std::to_string(k)), 3));
        Mem m = Make(r);
        SetSysinfo(m.total, m.freer, m.buf, m.unit);
        double T = double(m.total) * m.unit / gb, Fr = (double(m.freer) + double(m.buf)) * m.unit / gb, U = T - Fr;
        if (r.Chance(0.2)) SetWallClock(1e8 + double(r.Below(2000000000)) + r.Unit());
        auto &mm = mon[r.Below(mon.size())];
        int op = r.Below(7);
        long f0 = FiredInProcess("sysinfo_fail"), s0 = SysinfoCalls();
        double w0 = WallClock();
        CaptureOn(true);
        bool threw = false;
        double f = -1, u = -2, t = -3;
        std::string msg = Msg(r);
        try {
          if (op < 3) mm.GetMemoryInfo(f, u, t);
          else if (op < 6) mm.Checkpoint(msg);
          else qlmps::MemoryMonitor::ListAvailableDevices();
        } catch (const std::runtime_error &) { threw = true; }
        std::string out = Captured();
        CaptureOn(false);
        double w1 = WallClock();
        bool failed = FiredInProcess("sysinfo_fail") > f0;
        ++n;
        if (failed) {
          Probe("failed_query");
          if (!threw) Fail("mem.unreported", "the system query failed but no error was thrown");
          if (!out.empty()) Fail("mem.printed-on-failure", "figures were printed although the query failed: " + out);
          continue;
        }
        if (threw) Fail("mem.spurious", "an error was thrown although the query succeeded");
        if (SysinfoCalls() == s0) Fail("mem.stale", "the figures were not taken from a query made by this call");
        auto near = [](double a, double b, double s) { return std::fabs(a - b) <= 1e-12 * (1 + s); };
        if (op < 3) {
          if (!out.empty()) Fail("mem.printed", "GetMemoryInfo printed something");
          if (!near(t, T, T) || !near(f, Fr, T) || !near(u, U, T)) Fail("mem.figures", "reported total/free/used differ from the system's answer");
          if (!near(u + f, t, T)) Fail("mem.sum", "used + free is not total");
          if (mm.GetDeviceId() != 0) Fail("mem.device", "GetDeviceId is not 0");
          continue;
        }
        Probe(op < 6 ? "checkpoint" : "summary");
        // every figure appears, labelled, with two decimals
        std::map<std::string, double> want;
        if (op < 6) want = {{"Used: ", U}, {"Free: ", Fr}, {"Total: ", T}};
        else want = {{"Total: ", T}, {"Available: ", Fr}, {"Currently Used: ", U}};
        std::string tail = out;
        if (op < 6) {
          size_t a = out.find("[");
          size_t b = out.find("]");
          if (a != 0 || b == std::string::npos) Fail("mem.format", "a checkpoint does not start with the bracketed time: " + out.substr(0, 80));
          std::string st = out.substr(1, b - 1);
          bool ok = false;
          double lo = std::min(w0, w1), hi = std::max(w0, w1);
          if (w1 >= w0 && w1 - w0 < 5) {
            for (double x = std::floor(lo); x <= hi + 1e-9; x += 1) if (st == Stamp(x)) ok = true;
          } else ok = st == Stamp(w0) || st == Stamp(w1) || st == Stamp(w0 + 1) || st == Stamp(w1 - 1);   // the clock jumped inside the call
          if (!ok) Fail("mem.time", "a checkpoint is stamped " + st + ", the time of the call is " + Stamp(w1));
          size_t at = out.find("- " + msg + "\n", b);
          if (at == std::string::npos) Fail("mem.message", "a checkpoint does not carry the given message");
          tail = out.substr(at + 2 + msg.size() + 1);
        }
        for (auto &w : want) {
          size_t a = tail.find(w.first);
          if (a == std::string::npos) Fail("mem.format", "the figure '" + w.first + "' is missing: " + tail);
          a += w.first.size();
          size_t e = tail.find(" GB", a);
          std::string num = tail.substr(a, e == std::string::npos ? std::string::npos : e - a);
          if (e == std::string::npos || !Two(num, w.second)) Fail("mem.figures", "printed '" + w.first + num + "', the system's answer is " + std::to_string(w.second));
        }
      }
      Put("n", double(n));
    };
    auto o = c.Process("monitor", 0, true, body);
    if (o.kind == FAIL) Violate(o.cls, o.msg);
    if (!o.Ok()) Violate("mem.crash", std::string(KindName(o.kind)) + " " + o.msg);
    if (o.num["n"] >= 1) c.nontrivial = 1;
  }
  std::vector<std::string> RealComponents() override { return {"qlmps MemoryMonitor (Linux, CPU)", "libstdc++ chrono and streams"}; }
  std::vector<std::string> StubComponents() override { return {"sysinfo(2)", "wall clock"}; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
