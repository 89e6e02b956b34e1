// Zygote, workers, search, minimisation and replay.
#include "sim.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <regex>

namespace sim { void set_result_fd(int, bool); void mem_init(); void io_init(); }
using namespace sim;

static double wall()
{ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static RunResult run_one(RunSpec const &sp, bool want, double cpu = 5, double wall_limit = 60)
{
  RunResult r;
  int fd[2];
  if (pipe(fd)) { r.status = 3; r.cls = "internal"; r.msg = "pipe"; return r; }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0)
  {
    close(fd[0]);
    setpgid(0, 0);
    if (!sp.trace) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); } else dup2(2, 1);
    set_result_fd(fd[1], want);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)cpu; setitimer(ITIMER_PROF, &it, 0);
    start_run(sp);
    _exit(8);
  }
  close(fd[1]);
  std::string buf; char tmp[65536];
  double t0 = wall(); bool timeout = false;
  for (;;)
  {
    struct pollfd p = { fd[0], POLLIN, 0 };
    int pr = poll(&p, 1, 1000);
    if (pr > 0)
    {
      ssize_t n = read(fd[0], tmp, sizeof tmp);
      if (n <= 0) break;
      buf.append(tmp, n);
    }
    else if (wall() - t0 > wall_limit) { timeout = true; kill(pid, SIGKILL); break; }
  }
  close(fd[0]);
  int st; waitpid(pid, &st, 0);
  std::istringstream in(buf);
  std::string line; bool complete = false;
  while (std::getline(in, line))
  {
    size_t e = line.find('='); if (e == std::string::npos) continue;
    std::string k = line.substr(0, e), v = line.substr(e + 1);
    for (char &c : v) if (c == '\x01') c = ' ';
    if (k == "status") r.status = atoi(v.c_str());
    else if (k == "cls") r.cls = v;
    else if (k == "msg") r.msg = v;
    else if (k == "h")
    { unsigned long long a, b, c, d; long s; sscanf(v.c_str(), "%llx %llx %llx %ld %llu", &a, &b, &c, &s, &d); r.hash = a; r.sched_hash = b; r.prog_hash = c; r.steps = s; r.simtime = d; }
    else if (k == "stats") { std::istringstream x(v); for (int i = 0; i < NSTAT; ++i) x >> r.stats[i]; }
    else if (k == "probes") { std::istringstream x(v); for (int i = 0; i < NPROBE; ++i) x >> r.probes[i]; }
    else if (k == "notes") r.notes = v;
    else if (k == "faults") { std::istringstream x(v); FaultAt f; while (x >> f.kind >> f.site >> f.param) r.faults.push_back(f); }
    else if (k == "choices") { std::istringstream x(v); int c; while (x >> c) r.choices.push_back(c); }
    else if (k == "preempts") { std::istringstream x(v); long c; while (x >> c) r.preempts.push_back(c); }
    else if (k == "env") r.env = strtoull(v.c_str(), 0, 10);
    else if (k == "end") complete = true;
  }
  if (!complete)
  {
    if (timeout) { r.status = 1; r.cls = "hang"; r.msg = "the run blocked outside the simulator"; }
    else
    {
      // died without a report: a crash that even the signal handler could not survive
      r.status = 1; r.cls = "signal";
      char b[100]; snprintf(b, sizeof b, "simulated process died (wait status 0x%x)", st); r.msg = b;
    }
  }
  return r;
}

static std::string prog_text(SimProg const &p)
{
  std::ostringstream o;
  o << "prog " << p.nranks << ' ' << p.nops << '\n';
  for (int i = 0; i < p.nops; ++i)
  {
    o << "op " << p.ops[i].code;
    for (int k = 0; k < SIM_MAXARGS; ++k) o << ' ' << p.ops[i].a[k];
    o << '\n';
  }
  return o.str();
}
static void write_replay(std::string const &path, std::string const &prop, RunSpec const &s, RunResult const &r)
{
  std::ofstream o(path.c_str());
  o << "openvsip-sim-replay 1\nproperty " << prop << "\nworkload " << info->name << "\nseed " << s.seed << "\nclass " << r.cls << "\nmessage " << r.msg << "\n";
  char b[64]; snprintf(b, sizeof b, "%llx", (unsigned long long)r.hash);
  o << "hash " << b << "\nsteps " << r.steps << "\n";
  o << "env " << s.env << '\n' << prog_text(s.prog);
  o << "choices"; for (int c : s.choices) o << ' ' << c; o << '\n';
  o << "preempts"; for (long c : s.preempts) o << ' ' << c; o << '\n';
  o << "faults"; for (auto &f : s.faults) o << ' ' << f.kind << ' ' << f.site << ' ' << f.param; o << '\n';
  o << "notes " << r.notes << "\n";
}
static bool read_replay(std::string const &path, RunSpec &s, std::string &cls, std::string &hash)
{
  std::ifstream f(path.c_str());
  if (!f) return false;
  std::string line;
  memset(&s.prog, 0, sizeof s.prog);
  s.explicit_prog = s.explicit_sched = true;
  int nop = 0;
  while (std::getline(f, line))
  {
    std::istringstream x(line); std::string k; x >> k;
    if (k == "class") x >> cls;
    else if (k == "hash") x >> hash;
    else if (k == "seed") x >> s.seed;
    else if (k == "env") x >> s.env;
    else if (k == "prog") x >> s.prog.nranks >> s.prog.nops;
    else if (k == "op") { SimOp &o = s.prog.ops[nop++]; x >> o.code; for (int i = 0; i < SIM_MAXARGS; ++i) x >> o.a[i]; }
    else if (k == "choices") { int c; while (x >> c) s.choices.push_back(c); }
    else if (k == "preempts") { long c; while (x >> c) s.preempts.push_back(c); }
    else if (k == "faults") { FaultAt a; while (x >> a.kind >> a.site >> a.param) s.faults.push_back(a); }
  }
  return nop == s.prog.nops;
}

static int is_known_fwd(RunResult const &);
// ------------------------------------------------------------ minimisation
struct Minimiser
{
  RunSpec best; RunResult bres; std::string cls; double deadline; long runs = 0; int extra_seeds;
  bool over() { return wall() > deadline; }
  bool accept(RunSpec const &s, RunResult const &r)
  {
    if (r.status != 1 || r.cls != cls || is_known_fwd(r) >= 0) return false;
    best = s; bres = r; return true;
  }
  // explicit schedule as given
  bool try_explicit(RunSpec s)
  {
    if (over()) return false;
    runs++;
    RunResult r = run_one(s, false);
    return accept(s, r);
  }
  // try a program under the recorded schedule, the default one, and a few random ones
  bool try_prog(SimProg const &p)
  {
    RunSpec s = best; s.prog = p;
    if (try_explicit(s)) return true;
    RunSpec d = s; d.choices.clear(); d.preempts.clear();
    if (try_explicit(d)) return true;
    for (int i = 0; i < extra_seeds && !over(); ++i)
    {
      RunSpec q; q.explicit_prog = true; q.prog = p; q.explicit_sched = false; q.seed = best.seed * 1000003 + i * 7 + 1;
      runs++;
      RunResult r = run_one(q, true);
      if (r.status == 1 && r.cls == cls)
      {
        RunSpec e = q; e.explicit_sched = true; e.choices = r.choices; e.preempts = r.preempts; e.faults = r.faults; e.env = r.env; e.seed = best.seed;
        if (try_explicit(e)) return true;
      }
    }
    return false;
  }
  void go()
  {
    // 0: plain schedule first: is the schedule relevant at all?
    { RunSpec d = best; d.choices.clear(); try_explicit(d); }
    for (int round = 0; round < 3 && !over(); ++round)
    {
      bool changed = false;
      // ranks
      while (best.prog.nranks > info->min_ranks && !over())
      { SimProg p = best.prog; p.nranks--; if (!try_prog(p)) break; changed = true; }
      // ops: drop chunks, then single ones
      for (int chunk = std::max(1, best.prog.nops / 2); chunk >= 1; chunk /= 2)
        for (int i = best.prog.nops - chunk; i >= 0 && !over();)
        {
          if (best.prog.nops - chunk < 1 || i + chunk > best.prog.nops) { i -= 1; continue; }
          SimProg p = best.prog;
          for (int k = i; k + chunk < p.nops; ++k) p.ops[k] = p.ops[k + chunk];
          p.nops -= chunk;
          memset(&p.ops[p.nops], 0, sizeof(SimOp) * chunk);
          if (try_prog(p)) changed = true;
          i -= chunk;
        }
      // arguments
      for (int i = 0; i < best.prog.nops; ++i)
        for (int k = 0; k < SIM_MAXARGS && !over(); ++k)
        {
          int v = best.prog.ops[i].a[k];
          if (!v) continue;
          int cand[6] = { 0, 1, v % 2, v % 12, v % 60, v / 2 };
          for (int c : cand)
          {
            if (c >= best.prog.ops[i].a[k]) continue;
            SimProg p = best.prog; p.ops[i].a[k] = c;
            RunSpec s = best; s.prog = p;
            if (try_explicit(s)) { changed = true; break; }
          }
        }
      // faults
      for (int i = (int)best.faults.size() - 1; i >= 0 && !over(); --i)
      { RunSpec s = best; s.faults.erase(s.faults.begin() + i); if (try_explicit(s)) changed = true; }
      // preemptions
      for (int i = (int)best.preempts.size() - 1; i >= 0 && !over(); --i)
      { RunSpec s = best; s.preempts.erase(s.preempts.begin() + i); if (try_explicit(s)) changed = true; }
      // choices: cut the tail, then zero chunks
      while (!best.choices.empty() && best.choices.back() == 0) best.choices.pop_back();
      size_t keep = best.choices.size();
      for (size_t cut = keep; cut >= 1 && !over(); cut /= 2)
        while (best.choices.size() >= cut && !over())
        {
          RunSpec s = best; s.choices.resize(s.choices.size() - cut);
          if (!try_explicit(s)) break;
          changed = true;
        }
      for (size_t ch = std::max<size_t>(1, best.choices.size() / 2); ch >= 1 && !over(); ch /= 2)
        for (size_t i = 0; i < best.choices.size() && !over(); i += ch)
        {
          RunSpec s = best; bool any = false;
          for (size_t k = i; k < i + ch && k < s.choices.size(); ++k) if (s.choices[k]) { s.choices[k] = 0; any = true; }
          if (any && try_explicit(s)) changed = true;
        }
      while (!best.choices.empty() && best.choices.back() == 0) best.choices.pop_back();
      if (!changed) break;
    }
  }
};

// Which violation classes this check judges, and what is already on record.
static std::set<std::string> only_cls, not_cls;
static std::vector<std::pair<std::string, std::regex>> known;
static std::set<std::string> split(std::string const &s)
{ std::set<std::string> r; std::istringstream x(s); std::string t; while (std::getline(x, t, ',')) r.insert(t); return r; }
static bool judged(RunResult const &r)
{ return (only_cls.empty() || only_cls.count(r.cls)) && !not_cls.count(r.cls); }
static int is_known(RunResult const &r)
{
  for (size_t i = 0; i < known.size(); ++i)
    if (known[i].first == r.cls && std::regex_search(r.msg, known[i].second)) return i;
  return -1;
}
static int is_known_fwd(RunResult const &r) { return is_known(r); }
static void die(char const *m) { fprintf(stderr, "sim: %s\n", m); exit(3); }

static std::string jstr(std::string const &s)
{
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else if ((unsigned char)c > 126) o += '?'; else o += c; }
  return o + "\"";
}

int main(int argc, char **argv)
{
  // reproducible addresses where the sandbox permits it
  if (!getenv("SIM_REEXEC"))
  {
    setenv("SIM_REEXEC", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("LD_BIND_NOW", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) {}
    execv("/proc/self/exe", argv);
  }
  std::string lib, mode = "search", out, prop = "C00", replay;
  unsigned long long seed0 = 1; long count = 1000; int jobs = 8; double tlimit = 60, mint = 25; int det = 50; bool trace = false; long one = -1;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() { if (i + 1 >= argc) die("missing value"); return std::string(argv[++i]); };
    if (a == "--lib") lib = val();
    else if (a == "--mode") mode = val();
    else if (a == "--out") out = val();
    else if (a == "--prop") prop = val();
    else if (a == "--replay") { replay = val(); mode = "replay"; }
    else if (a == "--seed") seed0 = strtoull(val().c_str(), 0, 10);
    else if (a == "--count") count = atol(val().c_str());
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--time") tlimit = atof(val().c_str());
    else if (a == "--min-time") mint = atof(val().c_str());
    else if (a == "--det") det = atoi(val().c_str());
    else if (a == "--one") { one = atol(val().c_str()); mode = "one"; }
    else if (a == "--trace") trace = true;
    else if (a == "--classes") only_cls = split(val());
    else if (a == "--not") not_cls = split(val());
    else if (a == "--bias") bias = val();
    else if (a == "--known")
    {
      std::ifstream f(val().c_str()); std::string l;
      while (std::getline(f, l)) { size_t t = l.find('\t'); if (t != std::string::npos) known.push_back(std::make_pair(l.substr(0, t), std::regex(l.substr(t + 1)))); }
    }
    else die(("bad option " + a).c_str());
  }
  mem_init(); io_init();
  for (int i = 0; i < SIM_MAXRANKS; ++i)
  {
    char b[4096]; snprintf(b, sizeof b, "%s.%d", lib.c_str(), i);
    rank_libs[i] = dlopen(b, RTLD_NOW | RTLD_LOCAL);
    if (!rank_libs[i]) { fprintf(stderr, "sim: %s\n", dlerror()); exit(3); }
    for (int k = 0; k < i; ++k) if (rank_libs[k] == rank_libs[i]) die("rank images are not distinct");
  }
  info = (SimInfo const *)dlsym(rank_libs[0], "wl_info");
  if (!info) die("no wl_info");

  if (mode == "one")
  {
    RunSpec s; s.seed = one; s.trace = trace;
    if (getenv("SIM_AGAIN")) { RunSpec w = s; w.trace = false; run_one(w, true); }
    RunResult r = run_one(s, true);
    printf("status %d class %s\nmsg %s\nhash %llx sched %llx steps %ld simtime %llu\n", r.status, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash, (unsigned long long)r.sched_hash, r.steps, (unsigned long long)r.simtime);
    for (int i = 0; i < NSTAT; ++i) if (r.stats[i]) printf("  %s %ld\n", stat_names[i], r.stats[i]);
    printf("notes: %s\n", r.notes.c_str());
    return r.status == 1;
  }
  if (mode == "replay")
  {
    RunSpec s; std::string cls, hash;
    if (!read_replay(replay, s, cls, hash)) die("cannot read replay file");
    s.trace = trace;
    RunResult r = run_one(s, false);
    char b[64]; snprintf(b, sizeof b, "%llx", (unsigned long long)r.hash);
    printf("replay: status %d class %s hash %s (recorded: class %s hash %s)\n%s\n", r.status, r.cls.c_str(), b, cls.c_str(), hash.c_str(), r.msg.c_str());
    if (r.status == 3) return 3;
    if (r.status == 1 && r.cls == cls) return hash == b ? 1 : 4;     // 4: same violation, different history
    return r.status == 1 ? 5 : 0;
  }
  if (mode == "hashes")
  {
    // determinism proof helper: print the hash of every run
    std::vector<pid_t> kids;
    for (int j = 0; j < jobs; ++j)
    {
      pid_t p = fork();
      if (p == 0)
      {
        std::ofstream o((out + "." + std::to_string(j)).c_str());
        for (long i = j; i < count; i += jobs)
        { RunSpec s; s.seed = seed0 * 1000003ull + i; RunResult r = run_one(s, false); o << i << ' ' << std::hex << r.hash << std::dec << ' ' << r.status << ' ' << r.cls << '\n'; }
        o.close(); _exit(0);
      }
      kids.push_back(p);
    }
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); }
    return 0;
  }
  // ------------------------------------------------------------- search
  double t0 = wall();
  std::vector<pid_t> kids; std::vector<std::string> files;
  for (int j = 0; j < jobs; ++j)
  {
    std::string fn = out + ".w" + std::to_string(j);
    files.push_back(fn);
    pid_t p = fork();
    if (p == 0)
    {
      std::ofstream o(fn.c_str());
      std::set<uint64_t> sched, progs, both;
      long stats[NSTAT] = {}, probes[NPROBE] = {}, n = 0, viol = 0, stopped = 0, nontriv = 0, steps = 0, faulty = 0, mism = 0, dets = 0, stat_runs[NSTAT] = {}, otherv = 0, knownv = 0;
      double simtime = 0; std::map<std::string, int> per_cls;
      std::map<std::string, int> stopcls;
      for (long i = j; i < count; i += jobs)
      {
        double el = wall() - t0;
        if (el > tlimit) break;
        RunSpec s; s.seed = seed0 * 1000003ull + i;
        RunResult r = run_one(s, false);
        if (det && (i / jobs) % det == 0)
        {
          RunResult q = run_one(s, false);
          dets++;
          if (q.hash != r.hash || q.status != r.status) { mism++; o << "nondet " << s.seed << ' ' << r.cls << ' ' << q.cls << '\n'; }
        }
        n++; steps += r.steps; simtime += r.simtime * 1e-9;
        for (int k = 0; k < NSTAT; ++k) { stats[k] += r.stats[k]; if (r.stats[k]) stat_runs[k]++; }
        for (int k = 0; k < NPROBE; ++k) probes[k] += r.probes[k];
        if (!r.faults.empty()) faulty++;
        sched.insert(r.sched_hash); progs.insert(r.prog_hash); 
        // non-trivial: ranks/threads really interacted (a message, a collective, a context switch) or a fault fired
        if (r.stats[ST_MSGS] || r.stats[ST_COLL] || r.stats[ST_SWITCH] > r.stats[ST_MSGS] || r.stats[ST_PREEMPT] || !r.faults.empty())
        { nontriv++; both.insert(mix64(r.prog_hash, r.sched_hash)); }
        if (r.status == 2) { stopped++; stopcls[r.cls]++; }
        if (r.status == 3) o << "internal " << s.seed << ' ' << r.msg << '\n';
        if (r.status == 1 && is_known(r) >= 0) knownv++;
        else if (r.status == 1 && !judged(r)) { if (otherv++ < 3) o << "otherc " << r.cls << '\n'; }
        else if (r.status == 1)
        {
          viol++;
          if (per_cls[r.cls]++ < 3) { o << "viol " << s.seed << ' ' << r.cls << '\n'; o.flush(); }
          if (viol > 40) break;                 // enough evidence
        }
        if (i < 3 * jobs && i < 8)
        {
          SimProg p; generate(s, p);
          o << "sample seed " << s.seed << ": " << p.nranks << " processors, operations";
          for (int k = 0; k < p.nops; ++k) { o << ' ' << p.ops[k].code << '('; for (int q = 0; q < 4; ++q) o << (q ? "," : "") << p.ops[k].a[q]; o << ",..)"; }
          o << "; steps " << r.steps << "; " << r.notes.substr(0, 500) << '\n';
        }
      }
      o << "n " << n << "\nstopped " << stopped << "\nnontriv " << nontriv << "\nsteps " << steps << "\nfaulty " << faulty << "\nmism " << mism << "\ndets " << dets << "\nsimtime " << simtime << "\nviols " << viol << "\notherv " << otherv << "\nknownv " << knownv << '\n';
      o << "stats"; for (int k = 0; k < NSTAT; ++k) o << ' ' << stats[k]; o << '\n';
      o << "statruns"; for (int k = 0; k < NSTAT; ++k) o << ' ' << stat_runs[k]; o << '\n';
      o << "probes"; for (int k = 0; k < NPROBE; ++k) o << ' ' << probes[k]; o << '\n';
      for (auto &c : stopcls) o << "stopcls " << c.second << ' ' << c.first << '\n';
      o << "sched"; for (uint64_t h : sched) o << ' ' << h; o << '\n';
      o << "both"; for (uint64_t h : both) o << ' ' << h; o << '\n';
      o << "progs"; for (uint64_t h : progs) o << ' ' << h; o << '\n';
      o << "done\n";
      o.close();
      _exit(0);
    }
    kids.push_back(p);
  }
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); }
  double t_search = wall() - t0;
  // merge
  std::set<uint64_t> sched, both, progs; long n = 0, stopped = 0, nontriv = 0, steps = 0, faulty = 0, mism = 0, dets = 0, viols = 0, otherv = 0, knownv = 0; double simtime = 0; std::set<std::string> otherc;
  long stats[NSTAT] = {}, statruns[NSTAT] = {}, probes[NPROBE] = {};
  std::vector<std::pair<unsigned long long, std::string>> viol; std::vector<std::string> samples, internal, nondet; std::map<std::string, long> stopcls;
  int finished = 0;
  for (auto &fn : files)
  {
    std::ifstream f(fn.c_str()); std::string line;
    while (std::getline(f, line))
    {
      std::istringstream x(line); std::string k; x >> k;
      if (k == "n") { long v; x >> v; n += v; }
      else if (k == "stopped") { long v; x >> v; stopped += v; }
      else if (k == "nontriv") { long v; x >> v; nontriv += v; }
      else if (k == "steps") { long v; x >> v; steps += v; }
      else if (k == "faulty") { long v; x >> v; faulty += v; }
      else if (k == "mism") { long v; x >> v; mism += v; }
      else if (k == "dets") { long v; x >> v; dets += v; }
      else if (k == "otherv") { long v; x >> v; otherv += v; }
      else if (k == "knownv") { long v; x >> v; knownv += v; }
      else if (k == "otherc") { std::string c; x >> c; otherc.insert(c); }
      else if (k == "viols") { long v; x >> v; viols += v; }
      else if (k == "simtime") { double v; x >> v; simtime += v; }
      else if (k == "stats") for (int i = 0; i < NSTAT; ++i) { long v; x >> v; stats[i] += v; }
      else if (k == "statruns") for (int i = 0; i < NSTAT; ++i) { long v; x >> v; statruns[i] += v; }
      else if (k == "probes") for (int i = 0; i < NPROBE; ++i) { long v; x >> v; probes[i] += v; }
      else if (k == "stopcls") { long v; std::string c; x >> v >> c; stopcls[c] += v; }
      else if (k == "sched") { uint64_t h; while (x >> h) sched.insert(h); }
      else if (k == "both") { uint64_t h; while (x >> h) both.insert(h); }
      else if (k == "progs") { uint64_t h; while (x >> h) progs.insert(h); }
      else if (k == "viol") { unsigned long long s; std::string c; x >> s >> c; viol.push_back(std::make_pair(s, c)); }
      else if (k == "sample") samples.push_back(line.substr(7));
      else if (k == "internal") internal.push_back(line);
      else if (k == "nondet") nondet.push_back(line);
      else if (k == "done") finished++;
    }
    unlink(fn.c_str());
  }
  std::sort(viol.begin(), viol.end());
  // minimise one violation per class, in seed order
  std::set<std::string> seen; std::ostringstream vj; int nv = 0; int unrep = 0;
  std::set<std::string> allcls; for (auto &v : viol) allcls.insert(v.second);
  for (auto &v : viol)
  {
    if (seen.count(v.second) || nv >= 3) continue;
    RunSpec s; s.seed = v.first;
    RunResult a = run_one(s, true), b = run_one(s, true);
    if (a.status != 1 || b.status != 1 || a.hash != b.hash || a.cls != b.cls) { unrep++; continue; }
    RunSpec e; e.seed = v.first; e.explicit_prog = e.explicit_sched = true; generate(s, e.prog);
    e.choices = a.choices; e.preempts = a.preempts; e.faults = a.faults; e.env = a.env;
    RunResult c = run_one(e, false);
    if (c.status != 1 || c.cls != a.cls) { unrep++; continue; }
    Minimiser m; m.best = e; m.bres = c; m.cls = a.cls; m.deadline = wall() + mint / std::min<int>(3, allcls.size()); m.extra_seeds = 6;
    m.go();
    RunResult f1 = run_one(m.best, false), f2 = run_one(m.best, false);
    if (f1.status != 1 || f1.cls != a.cls || f1.hash != f2.hash) { m.best = e; f1 = run_one(e, false); }
    seen.insert(v.second);
    std::string path = out + "." + prop + "." + a.cls + ".replay";
    write_replay(path, prop, m.best, f1);
    vj << (nv++ ? "," : "") << "{\"seed\":" << v.first << ",\"class\":" << jstr(a.cls) << ",\"message\":" << jstr(f1.msg) << ",\"replay\":" << jstr(path)
       << ",\"ops\":" << m.best.prog.nops << ",\"ranks\":" << m.best.prog.nranks << ",\"choices\":" << m.best.choices.size() << ",\"faults\":" << m.best.faults.size()
       << ",\"preempts\":" << m.best.preempts.size() << ",\"min_runs\":" << m.runs << ",\"notes\":" << jstr(f1.notes) << "}";
  }
  std::ofstream o(out.c_str());
  o << "{\"workload\":" << jstr(info->name) << ",\"runs\":" << n << ",\"nontrivial_runs\":" << nontriv << ",\"distinct_runs\":" << both.size() << ",\"distinct_schedules\":" << sched.size()
    << ",\"distinct_programs\":" << progs.size() << ",\"ended_by_injected_fault\":" << stopped << ",\"runs_with_injected_fault\":" << faulty << ",\"steps\":" << steps
    << ",\"sim_seconds\":" << simtime << ",\"wall\":" << t_search << ",\"jobs\":" << jobs << ",\"determinism_pairs\":" << dets << ",\"determinism_mismatches\":" << mism
    << ",\"workers_finished\":" << finished << ",\"violating_runs\":" << viols << ",\"unreproducible\":" << unrep << ",\"other_class_runs\":" << otherv << ",\"known_finding_runs\":" << knownv;
  o << ",\"other_classes\":["; { int i = 0; for (auto &c : otherc) o << (i++ ? "," : "") << jstr(c); } o << "]";
  o << ",\"stats\":{"; for (int i = 0; i < NSTAT; ++i) o << (i ? "," : "") << jstr(stat_names[i]) << ":" << stats[i]; o << "}";
  o << ",\"runs_with\":{"; for (int i = 0; i < NSTAT; ++i) o << (i ? "," : "") << jstr(stat_names[i]) << ":" << statruns[i]; o << "}";
  o << ",\"probes\":["; for (int i = 0; i < NPROBE; ++i) o << (i ? "," : "") << probes[i]; o << "]";
  o << ",\"fault_endings\":{"; { int i = 0; for (auto &c : stopcls) o << (i++ ? "," : "") << jstr(c.first) << ":" << c.second; } o << "}";
  o << ",\"samples\":["; for (size_t i = 0; i < samples.size() && i < 4; ++i) o << (i ? "," : "") << jstr(samples[i]); o << "]";
  o << ",\"internal\":["; for (size_t i = 0; i < internal.size() && i < 10; ++i) o << (i ? "," : "") << jstr(internal[i]); o << "]";
  o << ",\"nondet\":["; for (size_t i = 0; i < nondet.size() && i < 10; ++i) o << (i ? "," : "") << jstr(nondet[i]); o << "]";
  o << ",\"violations\":[" << vj.str() << "]}\n";
  o.close();
  return 0;
}
