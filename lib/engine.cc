#include "engine.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char *__asan_default_options(void);
extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options(void) {
  return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:"
         "malloc_context_size=4:quarantine_size_mb=8:handle_abort=0:detect_stack_use_after_return=0:"
         "symbolize=1:handle_segv=1:allow_user_segv_handler=0:max_allocation_size_mb=6000";
}
extern "C" __attribute__((used, visibility("default"))) const char *__tsan_default_options(void) {
  return "exitcode=99:halt_on_error=1:die_after_fork=0:report_signal_unsafe=0:atexit_sleep_ms=0:report_thread_leaks=0";
}
extern "C" __attribute__((used, visibility("default"))) const char *__ubsan_default_options(void) {
  return "print_stacktrace=1:exitcode=99";
}

static const size_t TEXT_MAX = 1 << 20;
struct Shared {
  uint64_t case_idx;
  int status;  // 0 running, 1 pass, 2 fail, 3 skip
  uint64_t nchoices;
  uint32_t text_len, msg_len;
  int hang_ok;  // running out of time says nothing about this case
  char text[TEXT_MAX];
  char msg[65536];
  uint64_t choices[400000];
};
static Shared *g_sh = nullptr;

void engine_publish_text(const std::string &t) {
  if (!g_sh) return;
  size_t n = t.size() < TEXT_MAX ? t.size() : TEXT_MAX;
  memcpy(g_sh->text, t.data(), n);
  g_sh->text_len = n;
}

void engine_hang_ok(bool v) {
  if (g_sh) g_sh->hang_ok = v;
}

static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static uint64_t fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

static int CPU_LIMIT_S = 30;
static void arm_timer() {
  // CPU time of this process, so machine load cannot trip it
  struct itimerval it;
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = CPU_LIMIT_S;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static std::string jesc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}

// Runs one case in this process. 1 pass, 2 fail, 3 skip
static int run_one(Src &s, Case &c, std::string &msg) {
  try {
    prop_case(s, c);
  } catch (Fail &f) {
    msg = f.msg;
    return 2;
  }
  return c.skip ? 3 : 1;
}

static void *map_shared(const char *file) {
  int fd = -1;
  if (file) {
    fd = open(file, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
      perror(file);
      exit(4);
    }
  }
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | (file ? 0 : MAP_ANONYMOUS), fd, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(4);
  }
  if (fd >= 0) close(fd);
  return p;
}

static std::map<std::string, std::string> parse_args(int argc, char **argv) {
  std::map<std::string, std::string> m;
  for (int i = 2; i + 1 < argc; i += 2) m[argv[i]] = argv[i + 1];
  return m;
}

static int cmd_run(std::map<std::string, std::string> a) {
  uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10), worker = strtoull(a["--worker"].c_str(), 0, 10);
  double budget = atof(a["--budget"].c_str());
  uint64_t maxc = a.count("--max") ? strtoull(a["--max"].c_str(), 0, 10) : ~0ULL;
  uint64_t from = a.count("--from") ? strtoull(a["--from"].c_str(), 0, 10) : 0;
  std::string out = a["--out"];
  g_sh = (Shared *) map_shared((out + ".prog").c_str());
  double t0 = now();
  uint64_t evals = 0, skips = 0, nontriv = 0;
  std::unordered_set<uint64_t> seen;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  uint64_t next_sample = 1;
  int rc = 0;
  std::string failmsg;
  uint64_t i = from;
  for (; i < maxc; i++) {
    if (evals + skips >= 20 && now() - t0 > budget) break;
    arm_timer();
    g_sh->case_idx = i;
    g_sh->status = 0;
    g_sh->text_len = 0;
    g_sh->hang_ok = 0;
    Src s;
    s.state = mix(mix(seed, worker), i);
    Case c;
    std::string msg;
    int r = run_one(s, c, msg);
    if (r == 2) {
      g_sh->status = 2;
      failmsg = msg;
      rc = 3;
      break;
    }
    if (r == 3) {
      skips++;
      labels["skipped"]++;
      continue;
    }
    evals++;
    for (auto &l : c.labels) labels[l]++;
    if (c.nontrivial) {
      nontriv++;
      if (seen.size() < 2000000) seen.insert(fnv(c.text));
      if (nontriv >= next_sample && samples.size() < 4) {
        samples.push_back(c.text.size() > 1500 ? c.text.substr(0, 1500) + "..." : c.text);
        next_sample = nontriv * 12;
      }
    }
  }
  g_sh->status = rc == 3 ? 2 : 1;
  FILE *f = fopen((out + ".json").c_str(), "w");
  fprintf(f, "{\"evaluations\":%llu,\"skipped\":%llu,\"nontrivial\":%llu,\"wall\":%.2f,\"fail\":%s,\"next\":%llu,\"labels\":{",
          (unsigned long long) evals, (unsigned long long) skips, (unsigned long long) nontriv,
          now() - t0, rc == 3 ? jesc(failmsg).c_str() : "null", (unsigned long long) i);
  bool first = true;
  for (auto &l : labels) {
    fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long) l.second);
    first = false;
  }
  fprintf(f, "},\"samples\":[");
  for (size_t k = 0; k < samples.size(); k++) fprintf(f, "%s%s", k ? "," : "", jesc(samples[k]).c_str());
  fprintf(f, "]}\n");
  fclose(f);
  f = fopen((out + ".hash").c_str(), "wb");
  for (uint64_t h : seen) fwrite(&h, 8, 1, f);
  fclose(f);
  return rc;
}

struct Attempt {
  bool failed;
  std::vector<uint64_t> choices;
  std::string text, msg;
};

static std::string g_errfile;

static Attempt attempt(const std::function<void(Src &)> &setup) {
  g_sh->status = 0;
  g_sh->text_len = 0;
  g_sh->hang_ok = 0;
  g_sh->nchoices = 0;
  g_sh->msg_len = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(g_errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
      dup2(fd, 2);
      dup2(fd, 1);
    }
    arm_timer();
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    Src s;
    setup(s);
    Case c;
    std::string msg;
    // keep the recorded choices in shared memory even if the case crashes
    int r = run_one(s, c, msg);
    size_t n = s.rec.size() < 400000 ? s.rec.size() : 400000;
    memcpy(g_sh->choices, s.rec.data(), n * 8);
    g_sh->nchoices = n;
    size_t m = msg.size() < sizeof(g_sh->msg) ? msg.size() : sizeof(g_sh->msg);
    memcpy(g_sh->msg, msg.data(), m);
    g_sh->msg_len = m;
    g_sh->status = r;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Attempt at;
  at.text.assign(g_sh->text, g_sh->text_len);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_sh->status != 0) {
    at.failed = g_sh->status == 2;
    at.msg.assign(g_sh->msg, g_sh->msg_len);
    at.choices.assign(g_sh->choices, g_sh->choices + g_sh->nchoices);
  } else {
    at.failed = true;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF && g_sh->hang_ok) at.failed = false;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
      at.msg = strf("hang: no answer after %d s of CPU time", CPU_LIMIT_S);
    else if (WIFSIGNALED(st))
      at.msg = strf("crash: signal %d", WTERMSIG(st));
    else
      at.msg = strf("crash: exit status %d", WEXITSTATUS(st));
    FILE *f = fopen(g_errfile.c_str(), "r");
    if (f) {
      char buf[3000];
      size_t n = fread(buf, 1, sizeof(buf), f);
      at.msg += "\n" + std::string(buf, n);
      fclose(f);
    }
  }
  return at;
}

static void write_replay(const std::string &path, const std::vector<uint64_t> &ch, const Attempt &a,
                         const std::string &config) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) {
    perror(path.c_str());
    exit(4);
  }
  fprintf(f, "# replay file; property %s\nproperty %s\nconfig %s\n", PROP_ID, PROP_ID, config.c_str());
  fprintf(f, "choices");
  for (uint64_t v : ch) fprintf(f, " %llu", (unsigned long long) v);
  fprintf(f, "\n");
  auto block = [&](const char *name, const std::string &s) {
    fprintf(f, "%s\n", name);
    std::string cur;
    for (char ch2 : s + "\n") {
      if (ch2 == '\n') {
        fprintf(f, "| %s\n", cur.c_str());
        cur.clear();
      } else if ((unsigned char) ch2 < 32 || (unsigned char) ch2 > 126) {
        cur += strf("\\x%02x", (unsigned char) ch2);
      } else
        cur += ch2;
    }
  };
  block("message", a.msg);
  block("case", a.text);
  fclose(f);
}

static int cmd_shrink(std::map<std::string, std::string> a) {
  uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10), worker = strtoull(a["--worker"].c_str(), 0, 10),
           idx = strtoull(a["--case"].c_str(), 0, 10);
  double budget = atof(a["--budget"].c_str());
  std::string out = a["--out"];
  g_errfile = out + ".err";
  g_sh = (Shared *) map_shared(nullptr);
  double t0 = now();
  Attempt best;
  std::vector<uint64_t> cur;
  // a crashing case cannot report its choices, so draw them here the same way
  // the generator would: record by replaying the PRNG lazily in the child
  {
    Attempt at = attempt([&](Src &s) { s.state = mix(mix(seed, worker), idx); });
    if (!at.failed) {
      printf("not-reproduced\n");
      unlink(g_errfile.c_str());
      return 5;
    }
    best = at;
    cur = at.choices;
  }
  if (cur.empty()) {
    // crash: reconstruct the choice sequence with bounds unknown -> raw stream
    // (plan values are reduced modulo the bound, exactly as generation does)
    Src s;
    s.state = mix(mix(seed, worker), idx);
    for (int i = 0; i < 60000; i++) cur.push_back(s.rnd());
    Attempt at = attempt([&](Src &q) { q.replay = true; q.plan = cur; });
    if (!at.failed) {
      printf("not-reproduced\n");
      return 5;
    }
    best = at;
    // cut the unused tail
    size_t lo = 0, hi = cur.size();
    while (lo < hi && now() - t0 < budget) {
      size_t mid = (lo + hi) / 2;
      std::vector<uint64_t> t(cur.begin(), cur.begin() + mid);
      Attempt b = attempt([&](Src &q) { q.replay = true; q.plan = t; });
      if (b.failed) {
        hi = mid;
        best = b;
      } else
        lo = mid + 1;
    }
    cur.resize(hi);
  }
  auto tryit = [&](const std::vector<uint64_t> &t) {
    Attempt b = attempt([&](Src &q) { q.replay = true; q.plan = t; });
    if (b.failed) {
      cur = t;
      if (!b.choices.empty() && b.choices.size() < cur.size()) cur = b.choices;
      best = b;
      return true;
    }
    return false;
  };
  bool progress = true;
  // hangs are slow to re-run; leave them mostly unshrunk
  bool hang = best.msg.compare(0, 4, "hang") == 0;
  while (progress && !hang && now() - t0 < budget) {
    progress = false;
    for (size_t k = cur.size() > 1 ? cur.size() / 2 : 1; k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= cur.size() && now() - t0 < budget;) {
        std::vector<uint64_t> t = cur;
        t.erase(t.begin() + i, t.begin() + i + k);
        if (tryit(t))
          progress = true;
        else
          i += k;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < cur.size() && now() - t0 < budget; i++) {
      if (cur[i] == 0) continue;
      std::vector<uint64_t> t = cur;
      t[i] = 0;
      if (tryit(t)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = i < cur.size() ? cur[i] : 0;
      for (int it = 0; it < 12 && hi - lo > 1 && i < cur.size() && now() - t0 < budget; it++) {
        uint64_t mid = lo + (hi - lo) / 2;
        t = cur;
        t[i] = mid;
        if (tryit(t)) {
          progress = true;
          hi = mid;
        } else
          lo = mid;
      }
    }
  }
  write_replay(out, cur, best, a["--config"]);
  unlink(g_errfile.c_str());
  printf("%s\n", best.msg.substr(0, 400).c_str());
  return 0;
}

static int cmd_replay(const char *path, bool verbose) {
  FILE *f = fopen(path, "r");
  if (!f) {
    perror(path);
    return 4;
  }
  std::vector<uint64_t> ch;
  char *line = nullptr;
  size_t cap = 0;
  ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (strncmp(line, "choices", 7) == 0) {
      char *p = line + 7, *e;
      for (;;) {
        unsigned long long v = strtoull(p, &e, 10);
        if (e == p) break;
        ch.push_back(v);
        p = e;
      }
    }
  }
  free(line);
  fclose(f);
  g_sh = (Shared *) map_shared(nullptr);
  g_errfile = strf("/tmp/replay_err.%d", (int) getpid());
  Attempt at = attempt([&](Src &q) { q.replay = true; q.plan = ch; });
  unlink(g_errfile.c_str());
  if (verbose || at.failed) {
    printf("case:\n%s\n", at.text.c_str());
    printf("%s\n", at.failed ? at.msg.c_str() : "pass");
  }
  return at.failed ? 1 : 0;
}

int main(int argc, char **argv) {
  std::string cmd = argc > 1 ? argv[1] : "";
  if (getenv("VERIF_CPU_LIMIT")) CPU_LIMIT_S = atoi(getenv("VERIF_CPU_LIMIT"));
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  setenv("TZ", "UTC", 1);
  if (cmd == "run") return cmd_run(parse_args(argc, argv));
  if (cmd == "shrink") return cmd_shrink(parse_args(argc, argv));
  if (cmd == "replay" && argc > 2) return cmd_replay(argv[2], true);
  if (cmd == "show") {  // show SEED N : print N generated cases
    uint64_t seed = strtoull(argv[2], 0, 10), n = strtoull(argv[3], 0, 10);
    g_sh = (Shared *) map_shared(nullptr);
    for (uint64_t i = 0; i < n; i++) {
      Src s;
      s.state = mix(mix(seed, 0), i);
      Case c;
      std::string msg;
      int r = run_one(s, c, msg);
      printf("==== case %llu status %d nontrivial %d %s\n%s\n", (unsigned long long) i, r, c.nontrivial, msg.c_str(), c.text.c_str());
      for (auto &l : c.labels) printf(" [%s]", l.c_str());
      printf("\n");
    }
    return 0;
  }
  fprintf(stderr, "usage: run|shrink|replay|show\n");
  return 4;
}
