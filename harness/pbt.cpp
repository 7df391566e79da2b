#ifdef VERIF_COVERAGE
extern "C" void __gcov_dump(void);
#endif
#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#include "CoinError.hpp"
#include "CoinHelperFunctions.hpp"

namespace pbt {
std::vector< Prop > &registry()
{
  static std::vector< Prop > r;
  return r;
}

static const size_t CAP = 1 << 17;
static int g_cpuLimit = 90; // CPU seconds for one case
static std::string g_scratch;

struct Shared {
  volatile long cur;  // case being executed, -1 none
  volatile long done; // finished
  volatile long evals;
  volatile long nontrivial;
  volatile long discarded;
  volatile long failCase;
  volatile long failed; // number of recorded failures
  volatile int state;   // for exec(): 1 = pass, 2 = fail, 3 = discard
  char tag[256];
  char msg[4000];
  char desc[200000];
  uint32_t rec[CAP + 1];
};

static Shared *newShared()
{
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  memset(p, 0, 64);
  Shared *s = (Shared *)p;
  s->cur = -1;
  return s;
}

static uint64_t hash64(const std::string &x)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : x) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}
static uint64_t hashv(const std::vector< uint32_t > &v)
{
  uint64_t h = 1469598103934665603ull;
  for (uint32_t c : v) {
    h ^= c + 0x9e37;
    h *= 1099511628211ull;
    h ^= h >> 29;
  }
  return h;
}

static void armTimer()
{
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = g_cpuLimit;
  setitimer(ITIMER_PROF, &t, nullptr);
}
static void onProf(int)
{
  _exit(77);
}
static void silence(const std::string &errfile)
{
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  dup2(e, 2);
}

static void copyStr(char *dst, size_t n, const std::string &s)
{
  size_t k = std::min(n - 1, s.size());
  memcpy(dst, s.data(), k);
  dst[k] = 0;
}

// run one case in this process; returns 1 pass 2 fail 3 discard
static int runOne(const Prop &p, Src &src, Ctx &c, std::string &tag, std::string &msg)
{
  CoinSeedRandom(1234567);
  srand(4711);
  c.scratch = g_scratch;
  try {
    p.run(c);
    return 1;
  } catch (Discard &) {
    return 3;
  } catch (Fail &f) {
    tag = f.tag;
    msg = f.msg;
    return 2;
  } catch (CoinError &e) {
    tag = "exception";
    msg = "unexpected CoinError: " + e.message() + " in " + e.className() + "::" + e.methodName();
    return 2;
  } catch (std::exception &e) {
    tag = "exception";
    msg = std::string("unexpected exception ") + e.what();
    return 2;
  } catch (...) {
    tag = "exception";
    msg = "unexpected exception of unknown type";
    return 2;
  }
}

static std::string crashMsg(int status, const std::string &errfile)
{
  std::ifstream f(errfile);
  std::string line, best;
  while (std::getline(f, line)) {
    if (line.find("runtime error:") != std::string::npos || line.find("ERROR: AddressSanitizer") != std::string::npos) {
      best = line;
      break;
    }
  }
  // first frames inside the code under test
  int k = 0;
  while (k < 3 && std::getline(f, line)) {
    if (line.find("/src/Cgl") != std::string::npos) {
      best += " |" + line;
      k++;
    }
  }
  std::string r;
  if (WIFSIGNALED(status))
    r = cat("killed by signal ", WTERMSIG(status));
  else if (WEXITSTATUS(status) == 77)
    r = cat("no result within ", g_cpuLimit, " CPU seconds");
  else
    r = cat("process exit ", WEXITSTATUS(status));
  return best.empty() ? r : r + ": " + best;
}
static std::string crashTag(int status)
{
  if (!WIFSIGNALED(status) && WEXITSTATUS(status) == 77)
    return "hang";
  return "crash";
}

struct Outcome {
  int state = 1;
  std::string tag, msg, desc;
  std::vector< uint32_t > used;
};

// run a choice sequence in a child process
static Outcome execute(const Prop &p, const std::vector< uint32_t > &ch, bool thorough, int cpu = 0)
{
  static Shared *sh = newShared();
  sh->state = 0;
  sh->rec[0] = 0;
  std::string err = g_scratch + "/exec.err";
  fflush(nullptr);
  int saved = g_cpuLimit;
  if (cpu)
    g_cpuLimit = cpu;
  pid_t pid = fork();
  if (pid == 0) {
    silence(err);
    signal(SIGPROF, onProf);
    armTimer();
    Src src;
    src.replay = &ch;
    src.rec = sh->rec;
    src.cap = CAP;
    Ctx c(src);
    c.thorough = thorough;
    sh->desc[0] = 0;
    c.d.buf.shared = sh->desc;
    c.d.buf.cap = sizeof sh->desc;
    std::string tag, msg;
    int st = runOne(p, src, c, tag, msg);
    copyStr(sh->tag, sizeof sh->tag, tag);
    copyStr(sh->msg, sizeof sh->msg, msg);
    sh->state = st;
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) { }
  Outcome o;
  if (sh->state == 0) {
    o.state = 2;
    o.tag = crashTag(status);
    o.msg = crashMsg(status, err);
  } else {
    o.state = sh->state;
    o.tag = sh->tag;
    o.msg = sh->msg;
  }
  o.desc = sh->desc;
  g_cpuLimit = saved;
  o.used.assign(sh->rec + 1, sh->rec + 1 + std::min< size_t >(sh->rec[0], CAP - 1));
  return o;
}

static double now()
{
  struct timeval t;
  gettimeofday(&t, nullptr);
  return t.tv_sec + 1e-6 * t.tv_usec;
}

// simplify a failing sequence; keeps the failure tag
static std::vector< uint32_t > shrink(const Prop &p, std::vector< uint32_t > best, const std::string &tag, bool thorough, long &execs)
{
  double t0 = now();
  const double budget = 60.0;
  const long maxExec = 6000;
  if (tag == "hang")
    return best;
  std::set< uint64_t > seen;
  auto bad = [&](const std::vector< uint32_t > &v, std::vector< uint32_t > *norm) {
    if (execs > maxExec || now() - t0 > budget)
      return false;
    if (!seen.insert(hashv(v)).second)
      return false;
    execs++;
    Outcome o = execute(p, v, thorough, 20);
    if (o.state == 2 && o.tag == tag) {
      *norm = o.used.size() <= v.size() ? o.used : v;
      return true;
    }
    return false;
  };
  auto simpler = [](const std::vector< uint32_t > &a, const std::vector< uint32_t > &b) {
    if (a.size() != b.size())
      return a.size() < b.size();
    return a < b;
  };
  bool improved = true;
  std::vector< uint32_t > norm;
  while (improved && execs < maxExec && now() - t0 < budget) {
    improved = false;
    // delete chunks
    for (size_t len : { 64, 32, 16, 8, 4, 3, 2, 1 }) {
      for (size_t i = 0; i + len <= best.size();) {
        std::vector< uint32_t > v(best);
        v.erase(v.begin() + i, v.begin() + i + len);
        if (bad(v, &norm) && simpler(norm, best)) {
          best = norm;
          improved = true;
        } else
          i += std::max< size_t >(1, len / 2);
      }
    }
    // zero chunks
    for (size_t len : { 16, 4, 1 }) {
      for (size_t i = 0; i + len <= best.size(); i += len) {
        std::vector< uint32_t > v(best);
        bool any = false;
        for (size_t j = i; j < i + len; j++) {
          if (v[j])
            any = true;
          v[j] = 0;
        }
        if (any && bad(v, &norm) && simpler(norm, best)) {
          best = norm;
          improved = true;
        }
      }
    }
    // lower single values, also together with deleting what follows
    for (size_t i = 0; i < best.size(); i++) {
      uint32_t cur = best[i];
      for (uint32_t cand : { cur / 2, cur > 1 ? cur - 2 : 0u, cur > 0 ? cur - 1 : 0u }) {
        if (i >= best.size() || cand >= best[i])
          continue;
        std::vector< uint32_t > v(best);
        v[i] = cand;
        if (bad(v, &norm) && simpler(norm, best)) {
          best = norm;
          improved = true;
        } else if (i + 2 < v.size()) {
          for (size_t len : { 1, 2, 3, 4, 6 }) {
            if (i + 1 + len > v.size())
              break;
            std::vector< uint32_t > w(v);
            w.erase(w.begin() + i + 1, w.begin() + i + 1 + len);
            if (bad(w, &norm) && simpler(norm, best)) {
              best = norm;
              improved = true;
              break;
            }
          }
        }
      }
    }
  }
  return best;
}

static std::string jesc(const std::string &s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n')
      r += "\\n";
    else if (c == '\t')
      r += "\\t";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r;
}

static void worker(const Prop &p, uint64_t base, int w, int W, long from, long n, Shared *sh, const std::string &dir, double deadline, bool thorough, int gen)
{
  silence(dir + cat("/w", w, ".err"));
  signal(SIGPROF, onProf);
  std::map< std::string, long > labels;
  std::unordered_set< uint64_t > hashes;
  std::vector< std::string > samples;
  for (long i = from; i < n; i += W) {
    if (now() > deadline)
      break;
    sh->rec[0] = 0;
    sh->cur = i;
    if ((i / W) % 16 == 0 || i == from)
      armTimer();
    Src src;
    Rng mix(base ^ (0x9E3779B97F4A7C15ull * (uint64_t)(i + 1)));
    src.rng = Rng(mix.next());
    src.rec = sh->rec;
    src.cap = CAP;
    Ctx c(src);
    c.thorough = thorough;
    std::string tag, msg;
    int st = runOne(p, src, c, tag, msg);
    sh->evals++;
    if (st == 3)
      sh->discarded++;
    else {
      for (auto &l : c.labels)
        labels[l.first] += l.second;
      if (c.nontrivial) {
        sh->nontrivial++;
        hashes.insert(hashv(src.own));
        if (samples.size() < 2 && (i / W) > 3)
          samples.push_back(c.d.str());
      }
    }
    if (st == 2) {
      std::ofstream f(dir + cat("/fail_", i, ".txt"));
      f << tag << "\n";
      for (uint32_t v : src.own)
        f << v << " ";
      f << "\n"
        << msg << "\n";
      f.close();
      sh->failed++;
      sh->failCase = i;
      break;
    }
  }
  sh->cur = -1;
  {
    std::ofstream f(dir + cat("/lab_", w, "_", gen, ".txt"));
    for (auto &l : labels)
      f << l.second << " " << l.first << "\n";
    std::ofstream h(dir + cat("/hash_", w, "_", gen, ".txt"));
    for (uint64_t x : hashes)
      h << x << "\n";
    if (w < 4)
      for (size_t k = 0; k < samples.size(); k++) {
        std::ofstream s(dir + cat("/sample_", w, "_", gen, "_", k, ".txt"));
        s << samples[k];
      }
  }
  sh->done = 1;
#ifdef VERIF_COVERAGE
  __gcov_dump();
#endif
  _exit(0);
}

// re-run cases from, from+W, ... to in one new process: does the last one fail?
static bool history(const Prop &p, uint64_t base, int W, long from, long to, bool thorough)
{
  static Shared *sh = newShared();
  sh->state = 0;
  sh->cur = -1;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    silence(g_scratch + "/hist.err");
    signal(SIGPROF, onProf);
    for (long i = from; i <= to; i += W) {
      armTimer();
      Src src;
      Rng mix(base ^ (0x9E3779B97F4A7C15ull * (uint64_t)(i + 1)));
      src.rng = Rng(mix.next());
      Ctx c(src);
      c.thorough = thorough;
      std::string tag, msg;
      sh->cur = i;
      int st = runOne(p, src, c, tag, msg);
      if (i == to)
        sh->state = st;
    }
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) { }
  return sh->cur == to && (sh->state == 2 || sh->state == 0);
}

static bool readReplay(const std::string &file, std::string &id, std::vector< uint32_t > &ch, std::string &hist)
{
  std::ifstream f(file);
  std::string line;
  bool ok = false;
  while (std::getline(f, line)) {
    if (line.rfind("property ", 0) == 0)
      id = line.substr(9);
    else if (line.rfind("history ", 0) == 0)
      hist = line.substr(8);
    else if (line.rfind("choices", 0) == 0) {
      std::istringstream is(line.substr(7));
      uint32_t v;
      ch.clear();
      while (is >> v)
        ch.push_back(v);
      ok = true;
    }
  }
  return ok;
}

} // namespace pbt

using namespace pbt;

int main(int argc, char **argv)
{
  std::string id, replayFile, out, replayDir = ".", tmp;
  uint64_t seed = 1;
  long cases = -1;
  bool thorough = false;
  double wall = 700;
  int W = 8;
  double mult = 1.0;
  bool dump = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop")
      id = val();
    else if (a == "--replay")
      replayFile = val();
    else if (a == "--seed")
      seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases")
      cases = atol(val().c_str());
    else if (a == "--tier")
      thorough = val() == "thorough";
    else if (a == "--out")
      out = val();
    else if (a == "--replay-dir")
      replayDir = val();
    else if (a == "--wall")
      wall = atof(val().c_str());
    else if (a == "--workers")
      W = atoi(val().c_str());
    else if (a == "--mult")
      mult = atof(val().c_str());
    else if (a == "--tmp")
      tmp = val();
    else if (a == "--dump")
      dump = true;
    else if (a == "--list") {
      for (auto &p : registry())
        std::cout << p.id << " " << p.name << "\n";
      return 0;
    }
  }
  char tmpl[300];
  snprintf(tmpl, sizeof tmpl, "%s/cglpbt.XXXXXX", tmp.empty() ? "/tmp" : tmp.c_str());
  if (!mkdtemp(tmpl)) {
    perror("mkdtemp");
    return 3;
  }
  std::string dir = tmpl;
  g_scratch = dir;
  auto cleanup = [&]() {
    // only plain files that this run created in its own directory
    std::string cmd = "find '" + dir + "' -xdev -mindepth 1 -delete 2>/dev/null; rmdir '" + dir + "' 2>/dev/null";
    int r = system(cmd.c_str());
    (void)r;
  };
  std::vector< uint32_t > ch;
  std::string hist;
  if (!replayFile.empty()) {
    std::string rid;
    if (!readReplay(replayFile, rid, ch, hist)) {
      std::cerr << "bad replay file\n";
      cleanup();
      return 3;
    }
    if (id.empty())
      id = rid;
  }
  const Prop *P = nullptr;
  for (auto &p : registry())
    if (id == p.id)
      P = &p;
  if (!P) {
    std::cerr << "unknown property " << id << "\n";
    cleanup();
    return 3;
  }
  if (!replayFile.empty()) {
    if (!hist.empty()) {
      std::istringstream is(hist);
      uint64_t b;
      int w2;
      long f2, t2;
      is >> b >> w2 >> f2 >> t2;
      bool bad = history(*P, b, w2, f2, t2, thorough);
      std::cout << "replay: " << (bad ? "FAIL" : "PASS") << " history\n";
      cleanup();
      return bad ? 1 : 0;
    }
    Outcome o = execute(*P, ch, thorough);
    if (dump || o.state == 2)
      std::cout << o.desc << "\n";
    std::cout << "replay: " << (o.state == 2 ? "FAIL" : o.state == 3 ? "DISCARD" : "PASS") << " " << o.tag << " " << o.msg << "\n";
    cleanup();
    return o.state == 2 ? 1 : 0;
  }
  long n = cases >= 0 ? cases : (long)((thorough ? P->thorough : P->quick) * mult);
  uint64_t base = hash64(id) ^ (seed * 0xD1342543DE82EF95ull + 77);
  double t0 = now(), deadline = t0 + wall;
  std::vector< Shared * > sh(W);
  std::vector< pid_t > pid(W, 0);
  std::vector< int > gen(W, 0);
  for (int w = 0; w < W; w++)
    sh[w] = newShared();
  auto start = [&](int w, long from) {
    fflush(nullptr);
    pid_t q = fork();
    if (q == 0)
      worker(*P, base, w, W, from, n, sh[w], dir, deadline, thorough, gen[w]);
    pid[w] = q;
    gen[w]++;
  };
  for (int w = 0; w < W; w++)
    start(w, w);
  int live = W;
  struct Crash {
    long i = -1;
    std::string tag, msg;
    std::vector< uint32_t > ch;
    long from = -1; // first case of the history that is needed, -1 = none
    int w = 0;
  };
  Crash found;
  bool stopping = false, unreproducible = false;
  int notRep = 0;
  std::vector< long > startAt(W);
  for (int w = 0; w < W; w++)
    startAt[w] = w;
  while (live > 0) {
    int status = 0;
    pid_t q = waitpid(-1, &status, 0);
    if (q < 0) {
      if (errno == EINTR)
        continue;
      break;
    }
    for (int w = 0; w < W; w++)
      if (pid[w] == q) {
        pid[w] = 0;
        live--;
        if (stopping)
          break;
        Crash c;
        if (sh[w]->cur >= 0) {
          // died inside a case
          c.i = sh[w]->cur;
          c.tag = crashTag(status);
          c.msg = crashMsg(status, dir + cat("/w", w, ".err"));
          c.ch.assign(sh[w]->rec + 1, sh[w]->rec + 1 + std::min< size_t >(sh[w]->rec[0], CAP - 1));
          sh[w]->evals++;
        } else if (sh[w]->failed > 0) {
          c.i = sh[w]->failCase;
          std::ifstream f(dir + cat("/fail_", c.i, ".txt"));
          std::getline(f, c.tag);
          std::string line;
          std::getline(f, line);
          std::istringstream is(line);
          uint32_t v;
          while (is >> v)
            c.ch.push_back(v);
          std::stringstream rest;
          rest << f.rdbuf();
          c.msg = rest.str();
        }
        if (c.i < 0)
          break;
        sh[w]->failed = 0;
        // does it fail again, alone, in a new process?
        int need = c.tag == "hang" ? 2 : 3, rep = 0;
        for (int k = 0; k < need; k++)
          if (execute(*P, c.ch, thorough).state == 2)
            rep++;
          else
            break;
        if (rep < need && c.tag != "hang") {
          // or after the cases that this worker ran before it?
          c.from = startAt[w];
          c.w = w;
          rep = 0;
          for (int k = 0; k < need; k++)
            if (history(*P, base, W, c.from, c.i, thorough))
              rep++;
            else
              break;
        }
        if (rep == need) {
          found = c;
          stopping = true;
          for (int k = 0; k < W; k++)
            if (pid[k])
              kill(pid[k], SIGKILL);
        } else {
          unreproducible = true;
          std::cout << "not reproducible: case " << c.i << " " << c.tag << " " << c.msg << "\n";
          if (++notRep < 20) {
            startAt[w] = c.i + W;
            start(w, c.i + W);
            live++;
          }
        }
        break;
      }
  }
  long evals = 0, nontriv = 0, disc = 0;
  for (int w = 0; w < W; w++) {
    evals += sh[w]->evals;
    nontriv += sh[w]->nontrivial;
    disc += sh[w]->discarded;
  }
  std::map< std::string, long > labels;
  std::unordered_set< uint64_t > hashes;
  std::vector< std::string > samples;
  for (int w = 0; w < W; w++)
    for (int g = 0; g < gen[w]; g++) {
      std::ifstream f(dir + cat("/lab_", w, "_", g, ".txt"));
      long k;
      std::string l;
      while (f >> k && std::getline(f, l))
        labels[l.substr(1)] += k;
      std::ifstream h(dir + cat("/hash_", w, "_", g, ".txt"));
      uint64_t x;
      while (h >> x)
        hashes.insert(x);
      for (int s = 0; s < 2; s++) {
        std::ifstream sf(dir + cat("/sample_", w, "_", g, "_", s, ".txt"));
        if (sf) {
          std::stringstream ss;
          ss << sf.rdbuf();
          if (samples.size() < 4)
            samples.push_back(ss.str().substr(0, 1500));
        }
      }
    }
  double searchWall = now() - t0;
  bool violation = false;
  std::string vfile, vtag, vmsg, vdesc;
  long shrinkExecs = 0;
  if (found.i >= 0) {
    Crash &c = found;
    {
      std::vector< uint32_t > best = c.ch;
      Outcome o;
      if (c.from < 0) {
        best = shrink(*P, c.ch, c.tag, thorough, shrinkExecs);
        int again = 0;
        for (int k = 0; k < 3; k++) {
          o = execute(*P, best, thorough);
          if (o.state == 2)
            again++;
          if (c.tag == "hang")
            break;
        }
        if (again < (c.tag == "hang" ? 1 : 3)) {
          best = c.ch;
          o = execute(*P, best, thorough);
        }
      } else {
        // shorten the history
        long f = c.i;
        for (long k = 1; f > c.from; k *= 2) {
          f = std::max(c.from, c.i - k * W);
          if (history(*P, base, W, f, c.i, thorough) && history(*P, base, W, f, c.i, thorough)) {
            c.from = f;
            break;
          }
        }
        o = execute(*P, best, thorough);
        o.tag = c.tag;
        o.msg = cat("after the cases ", c.from, "..", c.i, " step ", W, " run in one process: ", c.msg);
      }
      violation = true;
      vtag = o.tag;
      vmsg = o.msg;
      vdesc = o.desc;
      mkdir(replayDir.c_str(), 0755);
      vfile = replayDir + "/" + id + cat("_seed", seed, "_case", c.i) + ".replay";
      std::ofstream f(vfile);
      f << "property " << id << "\n";
      f << "tier " << (thorough ? "thorough" : "quick") << "\n";
      f << "choices";
      for (uint32_t v : best)
        f << " " << v;
      if (c.from >= 0)
        f << "\nhistory " << base << " " << W << " " << c.from << " " << c.i;
      f << "\n# tag " << vtag << "\n";
      std::istringstream ds(vmsg + "\n" + vdesc);
      std::string line;
      while (std::getline(ds, line))
        f << "# " << line << "\n";
    }
  }
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\n \"property\":\"" << id << "\",\n \"planned\":" << n << ",\n \"evaluations\":" << evals << ",\n \"discarded\":" << disc
      << ",\n \"nontrivial\":" << nontriv << ",\n \"distinct_nontrivial\":" << hashes.size() << ",\n \"search_s\":" << searchWall
      << ",\n \"wall_s\":" << (now() - t0) << ",\n \"shrink_execs\":" << shrinkExecs << ",\n \"rule\":\"" << jesc(P->rule) << "\",\n \"labels\":{";
    bool first = true;
    for (auto &l : labels) {
      f << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second;
      first = false;
    }
    f << "},\n \"samples\":[";
    for (size_t k = 0; k < samples.size(); k++)
      f << (k ? "," : "") << "\"" << jesc(samples[k]) << "\"";
    f << "],\n \"violation\":" << (violation ? "true" : "false") << ",\n \"replay\":\"" << jesc(vfile) << "\",\n \"tag\":\"" << jesc(vtag)
      << "\",\n \"msg\":\"" << jesc(vmsg) << "\",\n \"unreproducible\":" << (unreproducible ? "true" : "false") << "\n}\n";
  }
  if (violation) {
    std::cout << "failure: " << vtag << ": " << vmsg << "\n"
              << vdesc << "\nreplay file " << vfile << "\n";
  }
  std::cout << id << ": " << evals << " cases, " << nontriv << " non-trivial (" << hashes.size() << " distinct), " << disc << " discarded, " << searchWall << " s\n";
  cleanup();
  return violation ? 1 : 0;
}
