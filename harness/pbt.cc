#include "pbt.hh"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

namespace pbt {

static const std::size_t MAXC = 1 << 16;
static const int CASE_CPU_LIMIT = 60;  // seconds of CPU for one case
static const int CASE_WALL_LIMIT = 150;  // seconds for one case

struct Shared {
  volatile long current;  // index of the case being run
  volatile int status;    // 0 running, 1 ok, 2 discarded, 3 failed
  volatile std::size_t n;
  volatile int overflow;
  char tag[512];
  char msg[8192];
  char notes[8192];
  uint64_t choices[MAXC];
};

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

uint64_t Src::next() {
  uint64_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
  s_[2] ^= s_[0];
  s_[3] ^= s_[1];
  s_[1] ^= s_[2];
  s_[0] ^= s_[3];
  s_[2] ^= t;
  s_[3] = rotl(s_[3], 45);
  return r;
}

Src::Src(uint64_t seed, Shared* sh)
    : replay_(false), pos_(0), hash_(1469598103934665603ULL), sh_(sh), nontrivial_(false) {
  for (int i = 0; i < 4; ++i) s_[i] = splitmix(seed);
  if (sh_) { sh_->n = 0; sh_->overflow = 0; }
}
Src::Src(const std::vector<uint64_t>& c, Shared* sh)
    : replay_(true), in_(c), pos_(0), hash_(1469598103934665603ULL), sh_(sh), nontrivial_(false) {
  if (sh_) { sh_->n = 0; sh_->overflow = 0; }
}

uint64_t Src::raw(uint64_t bound) {
  if (bound == 0) throw std::logic_error("pbt: empty choice");
  uint64_t v;
  if (replay_) {
    v = pos_ < in_.size() ? in_[pos_] : 0;
    if (v >= bound) v = bound - 1;
  } else {
    v = next() % bound;
  }
  ++pos_;
  if (trace) trace->emplace_back(v, bound);
  if (sh_) {
    if (sh_->n < MAXC) {
      sh_->choices[sh_->n] = v;
      sh_->n = sh_->n + 1;
    } else
      sh_->overflow = 1;
  }
  hash_ = (hash_ ^ v) * 1099511628211ULL;
  hash_ ^= hash_ >> 29;
  return v;
}
void Src::label(const std::string& l) { labels_.push_back(l); }

// ---------------------------------------------------------------------------
static Shared* newShared() {
  void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shared*)p;
}
static void copyStr(char* dst, std::size_t n, const std::string& s) {
  std::size_t k = std::min(n - 1, s.size());
  memcpy(dst, s.data(), k);
  dst[k] = 0;
}
static void armTimer() {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = CASE_CPU_LIMIT;
  setitimer(ITIMER_VIRTUAL, &it, 0);
  // deadlocks do not use CPU time
  it.it_value.tv_sec = CASE_WALL_LIMIT;
  setitimer(ITIMER_REAL, &it, 0);
}

// run one case; returns status
static int runCase(const Facet& f, Src& src, Shared* sh) {
  sh->status = 0;
  sh->tag[0] = sh->msg[0] = 0;
  armTimer();
  int st = 1;
  try {
    f.run(src);
  } catch (const Discard&) {
    st = 2;
  } catch (const Failure& e) {
    st = 3;
    copyStr(sh->tag, sizeof sh->tag, f.name + "/" + e.tag);
    copyStr(sh->msg, sizeof sh->msg, e.msg);
  } catch (const std::exception& e) {
    st = 3;
    copyStr(sh->tag, sizeof sh->tag, f.name + "/exception");
    copyStr(sh->msg, sizeof sh->msg, std::string("unexpected exception: ") + e.what());
  }
  copyStr(sh->notes, sizeof sh->notes, src.notes());
  sh->status = st;
  return st;
}

struct Result {
  int status;  // 1 ok 2 discard 3 fail
  std::string tag, msg, notes;
  std::vector<uint64_t> choices;
  bool overflow;
};

static std::string slurp(const std::string& fn) {
  std::ifstream f(fn);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

// keep the description of the case when the process aborts (failed assertion)
static Src* crashSrc = 0;
static Shared* crashSh = 0;
static void onAbort(int sig) {
  signal(sig, SIG_DFL);
  copyStr(crashSh->notes, sizeof crashSh->notes, crashSrc->notes());
  raise(sig);
}

// run a case in a forked child
static Result probe(const Facet& f, std::function<Src(Shared*)> mk, Shared* sh) {
  char tmpl[] = "/tmp/pbtXXXXXX";
  int fd = mkstemp(tmpl);
  sh->status = 0;
  sh->n = 0;
  sh->tag[0] = sh->msg[0] = sh->notes[0] = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    dup2(fd, 1);
    dup2(fd, 2);
    Src s = mk(sh);
    crashSrc = &s;
    crashSh = sh;
    signal(SIGABRT, onAbort);
    runCase(f, s, sh);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  close(fd);
  Result r;
  r.status = sh->status;
  r.tag = sh->tag;
  r.msg = sh->msg;
  r.notes = sh->notes;
  if (WIFSIGNALED(st) || r.status == 0) {
    std::string out = slurp(tmpl);
    r.status = 3;
    std::ostringstream tag, msg;
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    if (sig == SIGALRM) {
      tag << f.name << "/hang";
      msg << "the case did not terminate within " << CASE_WALL_LIMIT << " s";
    } else if (sig == SIGVTALRM) {
      tag << f.name << "/hang";
      msg << "the case did not terminate within " << CASE_CPU_LIMIT << " s of CPU time";
    } else {
      tag << f.name << "/crash";
      std::string as;
      std::size_t p = out.find("Assertion `");
      if (p != std::string::npos) {
        std::size_t e = out.find('\n', p);
        std::size_t b = out.rfind('\n', p);
        b = (b == std::string::npos) ? 0 : b + 1;
        as = out.substr(b, e == std::string::npos ? e : e - b);
      } else
        as = out.substr(0, 2000);
      msg << "the process died (signal " << sig << ", exit " << (WIFEXITED(st) ? WEXITSTATUS(st) : -1)
          << "): " << as;
    }
    r.tag = tag.str();
    r.msg = msg.str();
  }
  r.choices.assign(sh->choices, sh->choices + sh->n);
  r.overflow = sh->overflow;
  unlink(tmpl);
  return r;
}

static Result probeChoices(const Facet& f, const std::vector<uint64_t>& c, Shared* sh) {
  return probe(f, [&](Shared* s) { return Src(c, s); }, sh);
}

static Result shrink(const Facet& f, Result best, Shared* sh, double seconds) {
  auto t0 = std::chrono::steady_clock::now();
  auto left = [&]() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < seconds;
  };
  int attempts = 0;
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (!left() || attempts > 3000) return false;
    ++attempts;
    Result r = probeChoices(f, c, sh);
    if (r.status == 3 && r.tag == best.tag && r.tag.find("/hang") == std::string::npos) {
      if (r.choices.size() < best.choices.size() ||
          (r.choices.size() == best.choices.size() && r.choices < best.choices)) {
        best = r;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && left()) {
    progress = false;
    // delete chunks
    for (std::size_t k : {64, 32, 16, 8, 4, 2, 1}) {
      for (std::size_t i = best.choices.size(); i-- > 0 && left();) {
        if (i + k > best.choices.size()) continue;
        std::vector<uint64_t> c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) {
          progress = true;
          if (i > best.choices.size()) i = best.choices.size();
        } else if (k > 1)
          i = i >= k - 1 ? i - (k - 1) : 0;
        if (i == 0) break;
      }
    }
    // zero chunks
    for (std::size_t k : {16, 4, 1}) {
      for (std::size_t i = 0; i < best.choices.size() && left(); i += k) {
        std::vector<uint64_t> c = best.choices;
        bool nz = false;
        for (std::size_t j = i; j < std::min(i + k, c.size()); ++j) {
          if (c[j]) nz = true;
          c[j] = 0;
        }
        if (nz && attempt(c)) progress = true;
      }
    }
    // reduce values
    for (std::size_t i = 0; i < best.choices.size() && left(); ++i) {
      for (int guard = 0; guard < 40; ++guard) {
        if (i >= best.choices.size() || best.choices[i] == 0) break;
        std::vector<uint64_t> c = best.choices;
        c[i] /= 2;
        if (attempt(c)) {
          progress = true;
          continue;
        }
        c = best.choices;
        --c[i];
        if (attempt(c)) {
          progress = true;
          continue;
        }
        break;
      }
    }
  }
  return best;
}

static std::string jesc(const std::string& s) {
  std::ostringstream o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      o << '\\' << c;
    else if (c == '\n')
      o << "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o << b;
    } else
      o << c;
  }
  return o.str();
}

struct Stats {
  long evaluations = 0, discarded = 0;
  std::unordered_set<uint64_t> nontrivial;
  std::map<std::string, long> labels;
  std::map<std::string, long> perFacet;
  std::map<std::string, std::vector<std::string> > samples;  // facet -> descriptions
};

static void workerLoop(const Property& p, const std::vector<int>& sched, uint64_t seed, long from,
                       long to, long step, Shared* sh, int fd, double deadline) {
  auto t0 = std::chrono::steady_clock::now();
  Stats st;
  for (long i = from; i < to; i += step) {
    sh->current = i;
    const Facet& f = p.facets[sched[i % sched.size()]];
    uint64_t s = seed * 0x9E3779B97F4A7C15ULL + (uint64_t)i * 0xD1B54A32D192ED03ULL + 12345;
    Src src(s, sh);
    int r = runCase(f, src, sh);
    if (r == 3) {
      sh->current = i;
      break;
    }
    ++st.perFacet[f.name];
    if (r == 2) {
      ++st.discarded;
      ++st.labels[f.name + ":discarded"];
    } else {
      ++st.evaluations;
      std::set<std::string> u(src.labels().begin(), src.labels().end());
      for (auto& l : u) ++st.labels[f.name + ":" + l];
      if (src.isNontrivial()) {
        if (st.nontrivial.insert(src.hash()).second) {
          auto& v = st.samples[f.name];
          if (v.size() < 1 && from < 3) v.push_back(src.notes());
        }
      }
    }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) {
      sh->current = -2;  // out of time: the counts say how far we went
      break;
    }
    if (i + step >= to) sh->current = -1;
  }
  std::ostringstream o;
  o << "E " << st.evaluations << "\nD " << st.discarded << "\n";
  for (auto& l : st.labels) o << "L " << l.second << " " << l.first << "\n";
  for (auto& l : st.perFacet) o << "F " << l.second << " " << l.first << "\n";
  for (uint64_t h : st.nontrivial) o << "H " << h << "\n";
  for (auto& s : st.samples)
    for (auto& t : s.second) o << "S " << s.first << " " << jesc(t.substr(0, 1500)) << "\n";
  std::string s = o.str();
  std::size_t w = 0;
  while (w < s.size()) {
    ssize_t k = write(fd, s.data() + w, s.size() - w);
    if (k <= 0) break;
    w += k;
  }
}

static void parseStats(const std::string& fn, Stats& st) {
  std::ifstream f(fn);
  std::string line;
  while (std::getline(f, line)) {
    if (line.size() < 2) continue;
    std::istringstream is(line.substr(2));
    if (line[0] == 'E') { long k; is >> k; st.evaluations += k; }
    else if (line[0] == 'D') { long k; is >> k; st.discarded += k; }
    else if (line[0] == 'L' || line[0] == 'F') {
      long k; is >> k;
      std::string r; std::getline(is, r); r = r.substr(1);
      (line[0] == 'L' ? st.labels : st.perFacet)[r] += k;
    } else if (line[0] == 'H') { uint64_t h; is >> h; st.nontrivial.insert(h); }
    else if (line[0] == 'S') {
      std::string fa; is >> fa;
      std::string r; std::getline(is, r);
      auto& v = st.samples[fa];
      if (v.size() < 2) v.push_back(r.substr(1));
    }
  }
}

static const char* envOr(const char* n, const char* d) {
  const char* v = getenv(n);
  return v && *v ? v : d;
}

int main(int argc, char** argv, const Property& p) {
  std::string tier = envOr("VERIF_TIER", "quick");
  uint64_t seed = strtoull(envOr("VERIF_SEED", "1"), 0, 10);
  std::string outDir = envOr("PBT_OUT", ".");
  std::string variant = envOr("PBT_VARIANT", "");
  long cases = tier == "thorough" ? p.thorough : p.quick;
  if (getenv("PBT_CASES")) cases = atol(getenv("PBT_CASES"));
  double deadline = atof(envOr("PBT_DEADLINE", tier == "thorough" ? "520" : "240"));
  int W = atoi(envOr("PBT_JOBS", "0"));
  if (W <= 0) W = (int)std::max(1L, std::min(8L, sysconf(_SC_NPROCESSORS_ONLN)));
  std::string only;
  Shared* sh0 = newShared();
  auto t0 = std::chrono::steady_clock::now();

  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--replay" && i + 1 < argc) {
      std::ifstream f(argv[i + 1]);
      std::string line, facet;
      std::vector<uint64_t> c;
      while (std::getline(f, line)) {
        if (line.rfind("facet ", 0) == 0) facet = line.substr(6);
        if (line.rfind("choices", 0) == 0) {
          std::istringstream is(line.substr(7));
          uint64_t v;
          while (is >> v) c.push_back(v);
        }
      }
      for (auto& fa : p.facets)
        if (fa.name == facet) {
          if (getenv("PBT_NOFORK")) {  // for debuggers
            Src s(c, sh0);
            int st = runCase(fa, s, sh0);
            std::cout << st << " " << sh0->tag << " " << sh0->msg << "\n" << s.notes() << std::endl;
            return st == 3;
          }
          Result r = probeChoices(fa, c, sh0);
          std::cout << (r.status == 3 ? "FAIL " + r.tag + "\n" + r.msg : "pass") << "\n--- case\n"
                    << r.notes << std::endl;
          return r.status == 3 ? 1 : 0;
        }
      std::cerr << "unknown facet " << facet << "\n";
      return 2;
    }
    if (a == "--only" && i + 1 < argc) only = argv[++i];
    if (a == "--list") {
      for (auto& f : p.facets) std::cout << f.name << " " << f.weight << "\n";
      return 0;
    }
  }

  // known findings: lines "known: property=<id> tag=<tag> <text>"
  std::map<std::string, std::string> known;
  {
    std::ifstream f(envOr("PBT_KNOWN", "/verif/known_findings.txt"));
    std::string line, pre = "known: property=" + p.id + " tag=";
    while (std::getline(f, line))
      if (line.rfind(pre, 0) == 0) {
        std::string r = line.substr(pre.size());
        std::size_t sp = r.find(' ');
        known[r.substr(0, sp)] = sp == std::string::npos ? "" : r.substr(sp + 1);
      }
  }
  std::map<std::string, long> knownHits;

  // deterministic weighted schedule of facets
  std::vector<int> sched;
  {
    unsigned tot = 0;
    for (auto& f : p.facets) tot += (only.empty() || f.name == only) ? f.weight : 0;
    std::vector<double> acc(p.facets.size(), 0);
    for (unsigned k = 0; k < tot; ++k) {
      int best = -1;
      for (std::size_t j = 0; j < p.facets.size(); ++j) {
        if (!(only.empty() || p.facets[j].name == only)) continue;
        acc[j] += p.facets[j].weight;
        if (best < 0 || acc[j] > acc[best]) best = (int)j;
      }
      acc[best] -= tot;
      sched.push_back(best);
    }
  }

  Stats st;
  std::vector<Shared*> sh(W);
  std::vector<long> next(W);
  std::vector<pid_t> pid(W, 0);
  std::vector<std::string> fn(W);
  std::vector<Result> failures;
  std::vector<std::pair<long, int> > failIdx;
  long unreproduced = 0, timedOut = 0;
  bool stop = false;
  auto launch = [&](int w) {
    char tmpl[] = "/tmp/pbtwXXXXXX";
    int fd = mkstemp(tmpl);
    fn[w] = tmpl;
    sh[w]->current = next[w];
    double used = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    fflush(stdout);
    pid_t q = fork();
    if (q == 0) {
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      dup2(dn, 2);
      workerLoop(p, sched, seed, next[w], cases, W, sh[w], fd, deadline - used);
      close(fd);
      _exit(0);
    }
    close(fd);
    pid[w] = q;
  };
  for (int w = 0; w < W; ++w) {
    sh[w] = newShared();
    next[w] = w;
    if (next[w] < cases) launch(w);
  }
  struct Fail { long idx; Result r; int facet; };
  std::vector<Fail> fails;
  int alive = 0;
  for (int w = 0; w < W; ++w) alive += pid[w] != 0;
  while (alive) {
    int ws = 0;
    pid_t q = waitpid(-1, &ws, 0);
    if (q < 0) break;
    int w = -1;
    for (int k = 0; k < W; ++k)
      if (pid[k] == q) w = k;
    if (w < 0) continue;
    pid[w] = 0;
    --alive;
    parseStats(fn[w], st);
    unlink(fn[w].c_str());
    long cur = sh[w]->current;
    bool crashed = WIFSIGNALED(ws) || (WIFEXITED(ws) && WEXITSTATUS(ws));
    if (!crashed && cur == -2) { ++timedOut; continue; }
    if (!crashed && cur == -1) continue;
    if (crashed && stop && WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) continue;
    // the case cur failed or killed the worker
    int fi = sched[cur % sched.size()];
    const Facet& f = p.facets[fi];
    uint64_t s = seed * 0x9E3779B97F4A7C15ULL + (uint64_t)cur * 0xD1B54A32D192ED03ULL + 12345;
    Result r = probe(f, [&](Shared* x) { return Src(s, x); }, sh0);
    for (int k = 0; f.flaky && k < 40 && r.status != 3; ++k)
      r = probe(f, [&](Shared* x) { return Src(s, x); }, sh0);
    if (r.status == 3 && !r.overflow) {
      int ok = 0;
      Result rr;
      for (int k = 0; k < 3; ++k) {
        rr = probeChoices(f, r.choices, sh0);
        if (rr.status == 3) ++ok;
      }
      for (int k = 0; f.flaky && !ok && k < 40; ++k) {
        rr = probeChoices(f, r.choices, sh0);
        if (rr.status == 3) ++ok;
      }
      if (f.flaky && ok) {
        if (rr.status != 3) rr = r;
        ok = rr.tag.find("/hang") == std::string::npos ? 3 : 0;
      }
      if (ok == 3) {
        if (known.count(rr.tag)) {
          ++knownHits[rr.tag];
          next[w] = cur + W;
          if (next[w] < cases) { launch(w); ++alive; }
          continue;
        }
        fails.push_back(Fail{cur, rr, fi});
        stop = true;
        for (int k = 0; k < W; ++k)
          if (pid[k]) kill(pid[k], SIGKILL);
        continue;
      }
    }
    ++unreproduced;
    if (!stop && unreproduced < 50) {
      next[w] = cur + W;
      if (next[w] < cases) { launch(w); ++alive; }
    }
  }

  int rc = 0;
  std::string violation;
  if (!fails.empty()) {
    std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) { return a.idx < b.idx; });
    Fail& b = fails[0];
    const Facet& f = p.facets[b.facet];
    Result r = shrink(f, b.r, sh0, f.flaky ? 5. : atof(envOr("PBT_SHRINK", "30")));
    std::string dir = outDir + "/replay";
    mkdir(dir.c_str(), 0777);
    std::ostringstream path;
    path << dir << "/" << p.id << "-" << f.name << "-" << seed << "-" << b.idx << ".txt";
    std::ofstream o(path.str());
    o << "property " << p.id << "\nfacet " << f.name << "\ntag " << r.tag << "\nchoices";
    for (uint64_t v : r.choices) o << " " << v;
    o << "\n--- failure\n" << r.msg << "\n--- case\n" << r.notes << "\n";
    o.close();
    std::cout << r.tag << ": " << r.msg << "\n" << r.notes << "\n";
    std::cout << "VIOLATION property=" << p.id << " replay=" << path.str() << std::endl;
    violation = path.str();
    rc = 1;
  }
  for (auto& k : known) {
    std::cout << "KNOWN-FINDING: property=" << p.id << " " << k.first << " " << k.second << " (hit "
              << knownHits[k.first] << " times)" << std::endl;
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  // evidence
  std::ofstream o(outDir + "/" + p.id + variant + ".json");
  o << "{\n \"property\": \"" << p.id << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed
    << ", \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << st.evaluations
    << ",\n  \"distinct_nontrivial\": " << st.nontrivial.size() << ",\n  \"rule\": \"" << jesc(p.rule)
    << "\",\n  \"cases_requested\": " << cases << ", \"discarded\": " << st.discarded
    << ", \"known_finding_hits\": ";
  long kh = 0;
  for (auto& k : knownHits) kh += k.second;
  o << kh << ", \"unreproduced_failures\": " << unreproduced << ", \"workers_out_of_time\": " << timedOut
    << ",\n  \"cases_per_facet\": {";
  bool first = true;
  for (auto& l : st.perFacet) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
  o << "},\n  \"labels\": {";
  first = true;
  for (auto& l : st.labels) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
  o << "},\n  \"samples\": [";
  first = true;
  for (auto& s : st.samples)
    for (auto& t : s.second) {
      o << (first ? "\n" : ",\n") << "   \"" << s.first << ": " << t << "\"";
      first = false;
    }
  o << "]\n },\n \"assumptions\": [";
  first = true;
  for (auto& a : p.assumptions) { o << (first ? "" : ", ") << "\"" << jesc(a) << "\""; first = false; }
  o << "],\n \"wall_s\": " << wall << ", \"violations\": " << (rc ? 1 : 0) << "\n}\n";
  o.close();
  std::cout << p.id << " tier=" << tier << " seed=" << seed << " cases=" << st.evaluations
            << " nontrivial=" << st.nontrivial.size() << " discarded=" << st.discarded
            << " unreproduced=" << unreproduced << " wall=" << wall << "s" << std::endl;
  return rc;
}
}  // namespace pbt
