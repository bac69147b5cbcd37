// Seeded search, violation gate, minimisation, replay files and evidence.
#include "sim.h"
#include "shared.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace sim;

struct Result {
  int status = 0;           // 0 held, 1 violation, 2 harness error
  std::string cls, msg;
  uint64_t hash = 0, shash = 0;
  long nontrivial = 0;
  Plan plan;                // with resolved fault positions
  std::string log;
};
static char *g_res = nullptr;
static const size_t kRes = 4 << 20;
static std::string g_base;

static double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static uint64_t FiredSum() {
  uint64_t n = 0;
  for (int i = 0; i < kNames; ++i) n += g_sh->fired[i].n;
  return n;
}
// runs one plan in a fresh child process
static Result Execute(Harness *h, const Plan &plan, int slot, bool stats) {
  if (!g_res) g_res = (char *) mmap(nullptr, kRes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  memset(g_res, 0, 16);
  std::string root = g_base + "/w" + std::to_string(slot);
  RmTree(root);
  MkDir(root);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) {
    Result r;
    r.status = 2;
    r.msg = "fork failed";
    return r;
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_stats_on = stats;
    Result r;
    Ctx c;
    r.plan = plan;
    c.plan = &r.plan;
    c.root = root;
    try {
      h->Run(c);
    } catch (const Violation &v) {
      r.status = 1;
      r.cls = v.cls;
      r.msg = v.msg;
    } catch (const std::exception &e) {
      r.status = 2;
      r.msg = std::string("harness error: ") + e.what();
    }
    std::string log;
    for (auto &l : c.log) log += "  " + l + "\n";
    std::ostringstream o;
    size_t k;
    while ((k = r.msg.find(root)) != std::string::npos) r.msg.replace(k, root.size(), "$ROOT");
    for (auto &ch : r.msg) if (ch == '\n') ch = ' ';
    o << r.status << "\n" << (r.cls.empty() ? "-" : r.cls) << "\n" << r.msg << "\n" << Mix(c.hash, r.status) << " " << c.sched_hash << " " << c.nontrivial << "\n"
      << r.plan.Str() << "===\n" << log;
    std::string s = o.str();
    if (s.size() > kRes - 16) s.resize(kRes - 16);
    uint64_t n = s.size();
    memcpy(g_res + 8, s.data(), n);
    memcpy(g_res, &n, 8);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  RmTree(root);
  Result r;
  uint64_t n;
  memcpy(&n, g_res, 8);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || n == 0) {
    r.status = 2;
    r.msg = "run supervisor died with status " + std::to_string(st);
    r.plan = plan;
    return r;
  }
  std::string s(g_res + 8, n);
  std::istringstream in(s);
  std::string line;
  std::getline(in, line);
  r.status = atoi(line.c_str());
  std::getline(in, r.cls);
  if (r.cls == "-") r.cls = "";
  std::getline(in, r.msg);
  in >> r.hash >> r.shash >> r.nontrivial;
  std::getline(in, line);
  std::string ps, rest;
  while (std::getline(in, line) && line != "===") ps += line + "\n";
  while (std::getline(in, line)) rest += line + "\n";
  r.plan = Plan::Parse(ps);
  r.log = rest;
  return r;
}
static Plan MakePlan(Harness *h, uint64_t seed, long i, bool thorough) {
  Plan p;
  p.seed = Mix(Mix(seed, 77), uint64_t(i));
  Rng g(p.seed);
  h->Generate(g, p, thorough);
  return p;
}
static std::vector<std::pair<std::string, std::string>> Known(const std::string &id) {
  std::vector<std::pair<std::string, std::string>> v;
  const char *f = getenv("SIM_KNOWN");
  if (!f) return v;
  std::ifstream in(f);
  std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 6, "known:") != 0) continue;
    std::istringstream s(l.substr(6));
    std::string p, sig, rest;
    s >> p >> sig;
    std::getline(s, rest);
    if (p == "property=" + id && sig.compare(0, 4, "sig=") == 0) v.push_back({sig.substr(4), rest});
  }
  return v;
}
static std::string Esc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char) c < 32) o += ' ';
    else o += c;
  }
  return o;
}
static void WriteReplay(const std::string &path, const std::string &id, const Result &r) {
  std::ofstream o(path);
  o << "property " << id << "\nviolation " << r.cls << "\nhash " << r.hash << "\nmessage " << r.msg << "\n--- plan\n" << r.plan.Str() << "--- trace\n" << r.log;
}

static Result Minimise(Harness *h, Result best, double budget) {
  double t0 = Now();
  auto same = [&](const Plan &p, Result &out) {
    if (Now() - t0 > budget) return false;
    Result r = Execute(h, p, 99, false);
    if (r.status == 1 && r.cls == best.cls) {
      out = r;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && Now() - t0 < budget) {
    progress = false;
    for (size_t i = 0; i < best.plan.faults.size(); ++i) {
      Plan p = best.plan;
      p.faults.erase(p.faults.begin() + i);
      Result r;
      if (same(p, r)) {
        best = r;
        progress = true;
        --i;
      }
    }
    auto min = h->Minimum();
    for (auto &m : min) {
      long v = best.plan.P(m.first);
      if (v <= m.second) continue;
      for (long t : {m.second, (v + m.second) / 2, v - 1}) {
        if (t >= v || t < m.second) continue;
        Plan p = best.plan;
        p.par[m.first] = t;
        Result r;
        if (same(p, r)) {
          best = r;
          progress = true;
          break;
        }
      }
    }
    if (best.plan.sched_limit != 0) {
      Plan p = best.plan;
      p.sched_limit = 0;
      Result r;
      if (same(p, r)) {
        best = r;
        progress = true;
      } else if (best.plan.sched_limit < 0) {
        long hi = 1;
        bool ok = false;
        while (hi < (1L << 30) && Now() - t0 < budget) {
          p.sched_limit = hi;
          if (same(p, r)) {
            ok = true;
            break;
          }
          hi *= 4;
        }
        if (ok) {
          long lo = hi / 4;
          best = r;
          while (hi - lo > 1 && Now() - t0 < budget) {
            p.sched_limit = (lo + hi) / 2;
            if (same(p, r)) {
              hi = p.sched_limit;
              best = r;
            } else lo = p.sched_limit;
          }
          progress = true;
        }
      }
    }
  }
  return best;
}
static int Usage() {
  fprintf(stderr, "usage: --tier quick|thorough [--seed N] [--runs K] [--secs S] [--workers W] | --replay FILE | --determinism N | --dump I\n");
  return 2;
}

int main(int argc, char **argv) {
  int per = personality(0xffffffff);
  if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    if (personality(per | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  setenv("TZ", "UTC", 1);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string tier = "quick", replay, evidence, replay_dir = ".";
  uint64_t seed = 1;
  if (getenv("VERIF_SEED")) seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
  long runs = 0, det = 0, dump = -1;
  double secs = 0, min_secs = -1;
  int workers = int(sysconf(_SC_NPROCESSORS_ONLN));
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--tier") tier = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--runs") runs = atol(next().c_str());
    else if (a == "--secs") secs = atof(next().c_str());
    else if (a == "--min-secs") min_secs = atof(next().c_str());
    else if (a == "--workers") workers = atoi(next().c_str());
    else if (a == "--replay") replay = next();
    else if (a == "--evidence") evidence = next();
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--determinism") det = atol(next().c_str());
    else if (a == "--dump") dump = atol(next().c_str());
    else return Usage();
  }
  if (workers < 1) workers = 1;
  if (workers > 16) workers = 16;
  Harness *h = MakeHarness();
  std::string id = h->Id();
  bool thorough = tier == "thorough";
  const char *bases[] = {"/dev/shm", "/tmp"};
  for (auto b : bases) {
    std::string t = std::string(b) + "/vsim-XXXXXX";
    if (mkdtemp(&t[0])) {
      g_base = t;
      break;
    }
  }
  if (g_base.empty()) {
    fprintf(stderr, "no scratch directory\n");
    return 3;
  }
  struct Cleaner { ~Cleaner() { RmTree(g_base); } } cleaner;
  g_sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

  if (!replay.empty()) {
    std::string s = Slurp(replay);
    size_t k = s.find("--- plan\n");
    if (k == std::string::npos) {
      fprintf(stderr, "not a replay file\n");
      return 3;
    }
    size_t e = s.find("--- trace");
    Plan p = Plan::Parse(s.substr(k + 9, e == std::string::npos ? e : e - k - 9));
    Result r = Execute(h, p, 99, true);
    printf("status %d\nclass %s\nmessage %s\nhash %llu\n%s", r.status, r.cls.c_str(), r.msg.c_str(), (unsigned long long) r.hash, r.log.c_str());
    if (r.status == 1) printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
    return r.status == 2 ? 3 : r.status;
  }
  if (dump >= 0) {
    Result r = Execute(h, MakePlan(h, seed, dump, thorough), 99, true);
    printf("status %d\nclass %s\nmessage %s\nhash %llu\n%s%s", r.status, r.cls.c_str(), r.msg.c_str(), (unsigned long long) r.hash, r.plan.Str().c_str(), r.log.c_str());
    for (int i = 0; i < kNames; ++i) if (g_sh->fired[i].used) printf("fired %s %ld\n", g_sh->fired[i].name, g_sh->fired[i].n);
    return r.status;
  }
  if (det > 0) {
    long bad = 0;
    for (long i = 0; i < det; ++i) {
      Plan p = MakePlan(h, seed + i, i, thorough);
      Result a = Execute(h, p, int(i % 7), false), b = Execute(h, p, 90, false);
      if (a.hash != b.hash || a.status != b.status) {
        ++bad;
        printf("nondeterministic: index %ld\n%s%s---\n%s", i, p.Str().c_str(), a.log.c_str(), b.log.c_str());
      }
    }
    printf("determinism: %ld plans executed twice, %ld differ\n", det, bad);
    return bad ? 3 : 0;
  }

  if (runs == 0) runs = thorough ? kMaxRuns : h->QuickRuns();
  if (secs == 0) secs = thorough ? 600 : h->QuickSecs();
  if (runs > kMaxRuns) runs = kMaxRuns;
  double t0 = Now();
  auto known = Known(id);
  int rc = 0;
  std::string violation;
  // a violation that does not reproduce is never reported; the search goes on behind it
  for (int attempt = 0; attempt < 8; ++attempt) {
  g_sh->stop = 0;
  g_sh->viol_n = 0;
  std::vector<pid_t> kids;
  for (int w = 0; w < workers; ++w) {
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      while (true) {
        long i = __atomic_fetch_add(&g_sh->next, 1, __ATOMIC_RELAXED);
        if (i >= runs || __atomic_load_n(&g_sh->stop, __ATOMIC_RELAXED) || Now() - t0 > secs) break;
        uint64_t f0 = FiredSum();
        (void) f0;
        Plan p = MakePlan(h, seed, i, thorough);
        Result r = Execute(h, p, w, true);
        __atomic_fetch_add(&g_sh->done, 1, __ATOMIC_RELAXED);
        if (r.nontrivial) g_sh->run_hash[i] = r.hash | 1;
        if (r.status == 0 && i % 20 == 0) {
          Result q = Execute(h, p, w, false);
          __atomic_fetch_add(&g_sh->rechecks, 1, __ATOMIC_RELAXED);
          if (q.hash != r.hash || q.status != r.status) __atomic_fetch_add(&g_sh->nondet, 1, __ATOMIC_RELAXED);
        }
        if (r.status == 2) {
          if (__atomic_fetch_add(&g_sh->harness_err, 1, __ATOMIC_RELAXED) == 0) snprintf(g_sh->err, sizeof g_sh->err, "run %ld: %s", i, r.msg.c_str());
        }
        if (r.status == 1) {
          bool kn = false;
          for (auto &k : known) if (k.first == r.cls) kn = true;
          if (kn) __atomic_fetch_add(&g_sh->known_hits, 1, __ATOMIC_RELAXED);
          else {
            int k = __atomic_fetch_add(&g_sh->viol_n, 1, __ATOMIC_RELAXED);
            if (k < 64) {
              g_sh->viol_index[k] = i;
              strncpy(g_sh->viol_cls[k], r.cls.c_str(), 199);
            }
            g_sh->stop = 1;
          }
        }
      }
      _exit(0);
    }
    kids.push_back(pid);
  }
  for (auto p : kids) waitpid(p, nullptr, 0);
  if (g_sh->harness_err && !g_sh->viol_n) {
    fprintf(stderr, "ERROR %s\n", g_sh->err);
    rc = 3;
  }
  if (g_sh->viol_n) {
    rc = 3;
    int nv = std::min(g_sh->viol_n, 64);
    std::vector<long> idx(g_sh->viol_index, g_sh->viol_index + nv);
    std::sort(idx.begin(), idx.end());
    for (long i : idx) {
      Plan p = MakePlan(h, seed, i, thorough);
      Result a = Execute(h, p, 99, false), b = Execute(h, p, 98, false);
      if (a.status != 1 || b.status != 1 || a.hash != b.hash || a.cls != b.cls) {
        fprintf(stderr, "run %ld: violation did not reproduce identically (%d %s / %d %s)\n", i, a.status, a.cls.c_str(), b.status, b.cls.c_str());
        if (!(a.status == 1 && b.status == 1 && a.cls == b.cls)) continue;
      }
      Result m = Minimise(h, a, min_secs >= 0 ? min_secs : thorough ? 120 : 30);
      mkdir(replay_dir.c_str(), 0755);
      std::ostringstream fn;
      fn << replay_dir << "/" << id << "-" << std::hex << (Mix(m.plan.seed, m.hash) & 0xffffffffull) << ".replay";
      bool ok = false;
      for (const Result *cand : {(const Result *) &m, (const Result *) &a}) {
        WriteReplay(fn.str(), id, *cand);
        std::string cmd = "/proc/self/exe";
        int pfd[2];
        if (pipe(pfd)) break;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
          dup2(pfd[1], 1);
          close(pfd[0]);
          const char *av[] = {argv[0], "--replay", strdup(fn.str().c_str()), nullptr};
          execv("/proc/self/exe", (char **) av);
          _exit(9);
        }
        close(pfd[1]);
        std::string out;
        char buf[4096];
        ssize_t n;
        while ((n = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, n);
        close(pfd[0]);
        int st;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && out.find("class " + cand->cls + "\n") != std::string::npos) {
          ok = true;
          violation = cand->cls + ": " + cand->msg;
          printf("run %ld seed %llu: %s\n%s", i, (unsigned long long) cand->plan.seed, violation.c_str(), cand->plan.Str().c_str());
          printf("%s", cand->log.c_str());
          break;
        }
      }
      if (ok) {
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), fn.str().c_str());
        rc = 1;
        break;
      }
      fprintf(stderr, "run %ld: fresh-process replay did not reproduce\n", i);
    }
  }
  if (rc == 1 || !g_sh->viol_n || g_sh->harness_err || Now() - t0 > secs || long(g_sh->next) >= runs) break;
  }
  double wall = Now() - t0;
  long done = g_sh->done;
  for (auto &k : known) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), (k.first + k.second).c_str());

  // evidence
  if (!evidence.empty()) {
    std::vector<uint64_t> hs;
    for (long i = 0; i < std::min(runs, kMaxRuns); ++i) if (g_sh->run_hash[i]) hs.push_back(g_sh->run_hash[i]);
    std::sort(hs.begin(), hs.end());
    hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    std::ofstream o(evidence);
    o << "{\n \"property\": \"" << id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"wall_s\": " << wall
      << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << ",\n \"coverage\": {\n  \"evaluations\": " << done << ",\n  \"distinct_nontrivial\": " << hs.size()
      << ",\n  \"rule\": \"" << Esc(h->Rule()) << "\",\n  \"samples\": [";
    for (int i = 0; i < 5; ++i) {
      Plan p = MakePlan(h, seed, i * std::max(1L, done / 5), thorough);
      std::string t;
      for (auto &x : p.par) t += x.first + "=" + std::to_string(x.second) + " ";
      for (auto &f : p.faults) t += "| " + f.kind + "@" + f.cls + " inc " + std::to_string(f.inc) + " at " + std::to_string(f.frac) + "/10000 a=" + std::to_string(f.a) + " b=" + std::to_string(f.b) + " ";
      o << (i ? ", " : "") << "\"" << Esc(t) << "\"";
    }
    o << "],\n  \"simulated_processes\": " << g_sh->procs << ",\n  \"events\": " << g_sh->events << ",\n  \"simulated_seconds\": " << g_sh->sim_us * 1e-6
      << ",\n  \"runs_per_hour\": " << (wall > 0 ? done / wall * 3600 : 0) << ",\n  \"context_switches\": " << g_sh->switches << ",\n  \"message_deliveries\": " << g_sh->deliveries
      << ",\n  \"determinism_rechecks\": " << g_sh->rechecks << ",\n  \"determinism_mismatches\": " << g_sh->nondet << ",\n  \"known_finding_hits\": " << g_sh->known_hits << ",\n  \"faults_fired\": {";
    bool first = true;
    for (int i = 0; i < kNames; ++i)
      if (g_sh->fired[i].used) {
        o << (first ? "" : ", ") << "\"" << g_sh->fired[i].name << "\": " << g_sh->fired[i].n;
        first = false;
      }
    o << "},\n  \"probes\": {";
    first = true;
    for (int i = 0; i < kNames; ++i)
      if (g_sh->probes[i].used) {
        o << (first ? "" : ", ") << "\"" << g_sh->probes[i].name << "\": " << g_sh->probes[i].n;
        first = false;
      }
    o << "},\n  \"real_code\": [";
    first = true;
    for (auto &x : h->RealComponents()) {
      o << (first ? "" : ", ") << "\"" << Esc(x) << "\"";
      first = false;
    }
    o << "],\n  \"stubbed\": [";
    first = true;
    for (auto &x : h->StubComponents()) {
      o << (first ? "" : ", ") << "\"" << Esc(x) << "\"";
      first = false;
    }
    o << "]\n },\n \"assumptions\": [\"the tensor library is replaced by a dense symmetric stand-in with the same contract\", \"seeded search: a clean batch is evidence, not proof\"]\n}\n";
  }
  printf("%s %s: %ld runs, %ld simulated processes, %.1f s, seed %llu, rechecks %ld mismatches %ld, %s\n", id.c_str(), tier.c_str(), done, g_sh->procs, wall,
         (unsigned long long) seed, g_sh->rechecks, g_sh->nondet, rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "ERROR");
  if (g_sh->nondet) fprintf(stderr, "warning: %ld of %ld rechecks were not identical\n", g_sh->nondet, g_sh->rechecks);
  return rc;
}
