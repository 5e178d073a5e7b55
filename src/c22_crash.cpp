// C22: what an earlier process left behind, and inputs that cannot be read. A process that parses is killed at every call it makes to
// the system and at every invocation of an action; then processes of the same number parse, as if the number had come round.
// Shared memory and semaphores of every content are planted as well. The parses are those of the tutorial's calculator, through
// the real Context, generated code, threads, shared memory and semaphores.
//
// A case is a list of words: S<bytes> (the size of an output page), then processes in turn:
//   k<workers>,<point>,<expression>   parses and is killed at the given point
//   p<workers>,<expression>           parses; the result must be right and nothing may be left behind
//   u<workers>,<kind>,<expression>    parses an input that cannot be read, which must throw, then the expression
//   m<values>   plants shared memory that starts with the given 32-bit numbers (of the size for two workers)
//   s<value>    plants a semaphore
#include "mc.hpp"
#include "grammar_impl.hpp"
#include "CodeGenEM64T.hpp"
#include "Context.hpp"

#include <dlfcn.h>
#include <cstdarg>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <atomic>

using namespace gi;
typedef std::vector<std::string> Words;

static int64_t page_size = 8 * 1024 * 1024;
namespace Centaurus {
template<> const int64_t& ParserEM64T<char>::AST_BUF_SIZE = page_size;
template<> const int64_t& ParserEM64T<unsigned char>::AST_BUF_SIZE = page_size;
template<> const int64_t& ParserEM64T<wchar_t>::AST_BUF_SIZE = page_size;
}

struct Shared
{
  std::atomic<int> points, names, results;
  unsigned value;
  char problem[400];
  size_t bytes;
  struct { bool semaphore; char name[200]; } name[8];
};
static Shared *shared;
static std::atomic<bool> armed(false);
static int kill_at = 0, number = 0;

static void point()
{
  if (armed && ++shared->points == kill_at) syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
}
static void note(const char *name, bool semaphore)
{
  for (int i = 0; i < shared->names; i++) if (shared->name[i].semaphore == semaphore && !strcmp(shared->name[i].name, name)) return;
  if (shared->names >= 8 || strlen(name) >= sizeof shared->name[0].name) return;
  auto& n = shared->name[shared->names];
  n.semaphore = semaphore;
  strcpy(n.name, name);
  shared->names++;
}
template<typename F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(f) static auto r = real<decltype(&f)>(#f)
extern "C" {
pid_t getpid() noexcept { return number ? number : (pid_t)syscall(SYS_getpid); }
int shm_open(const char *n, int f, mode_t m) { REAL(shm_open); if (armed) note(n, false); point(); return r(n, f, m); }
int shm_unlink(const char *n) { REAL(shm_unlink); point(); return r(n); }
int ftruncate(int fd, off_t n) noexcept { REAL(ftruncate); point(); if (armed && shared->bytes < (size_t)n) shared->bytes = n; return r(fd, n); }
sem_t *sem_open(const char *n, int f, ...) noexcept
{
  static auto r = (sem_t *(*)(const char *, int, ...))dlsym(RTLD_NEXT, "sem_open");
  va_list a;
  va_start(a, f);
  mode_t m = f & O_CREAT ? va_arg(a, mode_t) : 0;
  unsigned v = f & O_CREAT ? va_arg(a, unsigned) : 0;
  va_end(a);
  if (armed) note(n, true);
  point();
  return r(n, f, m, v);
}
int sem_close(sem_t *s) noexcept { REAL(sem_close); point(); return r(s); }
int sem_unlink(const char *n) noexcept { REAL(sem_unlink); point(); return r(n); }
int sem_post(sem_t *s) noexcept { REAL(sem_post); point(); int e = r(s); point(); return e; }
int sem_wait(sem_t *s) { REAL(sem_wait); point(); int e = r(s); point(); return e; }
int pthread_join(pthread_t t, void **v) { REAL(pthread_join); point(); return r(t, v); }
int munmap(void *p, size_t n) noexcept { point(); return (int)syscall(SYS_munmap, p, n); }
void *mmap(void *p, size_t n, int prot, int flags, int fd, off_t off) noexcept { point(); return (void *)syscall(SYS_mmap, p, n, prot, flags, fd, off); }
}

// The calculator of the tutorial
struct Number { unsigned num; };
static void *parse_INPUT(const SymbolContext<char>& ctx) { point(); shared->value = ctx.value<Number>(1)->num; shared->results++; return nullptr; }
static void *parse_EXPR(const SymbolContext<char>& ctx) { point(); return ctx.count() == 1 ? ctx.value<Number>(1) : new Number{ctx.value<Number>(1)->num + ctx.value<Number>(2)->num}; }
static void *parse_TERM(const SymbolContext<char>& ctx) { point(); return ctx.count() == 1 ? ctx.value<Number>(1) : new Number{ctx.value<Number>(1)->num * ctx.value<Number>(2)->num}; }
static void *parse_FACT(const SymbolContext<char>& ctx) { point(); return ctx.start()[0] == '(' ? ctx.value<Number>(1) : new Number{(unsigned)std::stoul(ctx.read())}; }
static Context<char>& context()
{
  static std::map<int64_t, std::unique_ptr<Context<char> > > made;
  auto& c = made[page_size];
  if (!c) {
    c.reset(new Context<char>(write_file("grammar CALC;\nINPUT : EXPR '=' ;\nEXPR : TERM ('+' EXPR)? ;\nTERM : FACT ('*' TERM)? ;\nFACT : /[0-9]+/ | '(' EXPR ')' ;\n", "calc.cgr").c_str()));
    c->attach(L"INPUT", parse_INPUT);
    c->attach(L"EXPR", parse_EXPR);
    c->attach(L"TERM", parse_TERM);
    c->attach(L"FACT", parse_FACT);
  }
  return *c;
}
static unsigned evaluate(const char *& p)
{
  unsigned sum = 0;
  for (;;) {
    unsigned product = 1;
    for (;;) {
      if (*p == '(') { product *= evaluate(++p); p++; }
      else { unsigned n = 0; while (*p >= '0' && *p <= '9') n = n * 10 + (*p++ - '0'); product *= n; }
      if (*p != '*') break;
      p++;
    }
    sum += product;
    if (*p != '+') return sum;
    p++;
  }
}

// Runs f in a process of its own, which has the number that comes round; returns how it ends
template<typename F> static std::string process(F f, bool *killed)
{
  int parent = (int)syscall(SYS_getpid), status = 0;
  shared->points = 0;
  context();
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(9);
    number = 5000000 + parent;
    std::string e;
    try { e = f(); } catch (const std::exception& x) { e = std::string("an exception leaves parse: ") + x.what(); }
    snprintf(shared->problem, sizeof shared->problem, "%s", e.c_str());
    _exit(0);
  }
  if (pid < 0) abort();
  time_t end = time(nullptr) + 40;
  useconds_t nap = 100;
  for (pid_t r; (r = waitpid(pid, &status, WNOHANG)) != pid; ) {
    if (r < 0) abort();
    if (time(nullptr) > end) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      return "does not return";
    }
    usleep(nap);
    if (nap < 5000) nap += nap / 4;
  }
  S().transitions++;
  if (WIFSIGNALED(status)) {
    if (killed && WTERMSIG(status) == SIGKILL) { *killed = true; return ""; }
    return std::string("ends with signal ") + std::to_string(WTERMSIG(status)) + " (" + strsignal(WTERMSIG(status)) + ")";
  }
  if (WEXITSTATUS(status)) return "ends with status " + std::to_string(WEXITSTATUS(status));
  return shared->problem;
}
static std::string left_behind()
{
  for (int i = 0; i < shared->names; i++) {
    auto& n = shared->name[i];
    struct stat s;
    std::string path = std::string("/dev/shm/") + (n.semaphore ? "sem." : "") + (n.name[0] == '/' ? n.name + 1 : n.name);
    if (stat(path.c_str(), &s) == 0) return std::string("leaves ") + (n.semaphore ? "a semaphore" : "shared memory") + " behind";
  }
  return "";
}
static void forget()
{
  for (int i = 0; i < shared->names; i++) if (shared->name[i].semaphore) sem_unlink(shared->name[i].name); else shm_unlink(shared->name[i].name);
}
static std::string parse(const std::string& path, const std::string& text, int workers, int at)
{
  const char *p = text.c_str();
  unsigned want = evaluate(p);
  shared->results = 0;
  kill_at = at;
  armed = true;
  context().parse(path.c_str(), workers);
  armed = false;
  if (shared->results != 1) return "the action of the root is invoked " + std::to_string(shared->results) + " times";
  if (shared->value != want) return "the result is " + std::to_string(shared->value) + " instead of " + std::to_string(want);
  return "";
}
static std::string unreadable(const std::string& kind)
{
  std::string d = scratch();
  if (kind == "missing") return d + "/missing";
  if (kind == "empty") return "";
  if (kind == "directory") { mkdir((d + "/dir").c_str(), 0700); return d + "/dir"; }
  if (kind == "below-a-file") return write_file("1=", "file") + "/input";
  if (kind == "dangling") { if (symlink("missing", (d + "/dangling").c_str())) {} return d + "/dangling"; }
  if (kind == "loop") { if (symlink("loop", (d + "/loop").c_str())) {} return d + "/loop"; }
  if (kind == "long") return d + "/" + std::string(5000, 'x');
  if (kind == "forbidden" || kind == "descriptors") return write_file("1=", "forbidden");
  abort();
}
static std::string run(const Words& steps, int *points = nullptr)
{
  bool learnt = false;
  auto learn = [&]() {        // which objects there are, and of which size
    if (learnt) return std::string();
    learnt = true;
    std::string path = write_file("1=", "input");
    return process([&]() { return parse(path, "1=", 2, 0); }, nullptr);
  };
  for (size_t i = 0; i < steps.size(); i++) {
    const std::string& w = steps[i];
    std::vector<std::string> a;
    std::istringstream in(w.substr(1));
    for (std::string x; std::getline(in, x, ',');) a.push_back(x);
    std::string on = "process " + std::to_string(i) + " (" + w.substr(0, 30) + "): ", e;
    tick();
    if (w[0] == 'S') page_size = atol(w.c_str() + 1);
    else if (w[0] == 'k') {
      std::string path = write_file(a[2], "input");
      bool killed = false;
      e = process([&]() { return parse(path, a[2], atoi(a[0].c_str()), atoi(a[1].c_str())); }, &killed);
      S().extra[killed ? "killed" : "ended before"]++;
      if (points) *points = shared->points;
    } else if (w[0] == 'p') {
      std::string path = write_file(a[1], "input");
      e = process([&]() { return parse(path, a[1], atoi(a[0].c_str()), 0); }, nullptr);
      if (e.empty()) e = left_behind();
    } else if (w[0] == 'u') {
      std::string path = write_file(a[2], "input"), bad = unreadable(a[1]);
      e = process([&]() -> std::string {
        struct rlimit old, none{3, 3};
        getrlimit(RLIMIT_NOFILE, &old);
        if (a[1] == "forbidden") { chmod(bad.c_str(), 0); if (setgid(65534) || setuid(65534) || access(bad.c_str(), R_OK) == 0) return ""; }
        if (a[1] == "descriptors") { none.rlim_max = old.rlim_max; setrlimit(RLIMIT_NOFILE, &none); for (int k = 3; k < 100; k++) close(k); }
        bool thrown = false;
        try { armed = true; context().parse(bad.c_str(), atoi(a[0].c_str())); armed = false; } catch (const std::exception&) { thrown = true; }
        if (!thrown) return "a parse of an input that cannot be read is taken for success";
        setrlimit(RLIMIT_NOFILE, &old);
        if (a[1] == "forbidden") return "";
        return parse(path, a[2], atoi(a[0].c_str()), 0);
      }, nullptr);
      if (e.empty()) e = left_behind();
    } else if (w[0] == 'm' || w[0] == 's') {
      e = learn();
      for (int k = 0; k < shared->names; k++) {
        auto& n = shared->name[k];
        if (w[0] == 's' && n.semaphore) { sem_t *s = sem_open(n.name, O_CREAT, 0600, (unsigned)atoi(a[0].c_str())); if (s == SEM_FAILED) abort(); sem_close(s); }
        if (w[0] == 'm' && !n.semaphore) {
          int fd = shm_open(n.name, O_RDWR | O_CREAT, 0600);
          if (fd < 0 || ftruncate(fd, shared->bytes)) abort();
          std::vector<int32_t> words;
          for (auto& x : a) words.push_back(atoi(x.c_str()));
          if (pwrite(fd, words.data(), words.size() * 4, 0) < 0) abort();
          // and rubbish where records and values may be
          for (size_t at = 4096; at + 64 < shared->bytes; at += 8 * 1024 * 1024) { std::vector<uint64_t> r(8, 0x4141414141414141ull); if (pwrite(fd, r.data(), 64, at) < 0) abort(); }
          close(fd);
        }
      }
    }
    if (!e.empty()) return on + e;
  }
  return "";
}
static Words split(const std::string& ct)
{
  std::istringstream in(ct);
  Words r;
  for (std::string w; in >> w;) r.push_back(w);
  return r;
}
static void reset() { forget(); memset((void *)shared, 0, sizeof *shared); page_size = 8 * 1024 * 1024; }
static void go(const std::string& ct)
{
  if (S().replaying ? S().replay_text != ct : !mine()) return;
  begin_case(ct);
  S().states++;
  reset();
  std::string e = run(split(ct));
  forget();
  if (!e.empty()) violation(e);
  sample(ct);
}

int main(int argc, char **argv)
{
  init(argc, argv);
  shared = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  scratch();
  std::string sum, deep;
  for (int i = 1; i <= 30; i++) sum += (i > 1 ? i % 3 ? "+" : "*" : "") + std::to_string(i);
  for (int i = 0; i < 12; i++) deep += "(1+";
  deep += "2" + std::string(12, ')');
  const Words expressions{"7=", "1+2*3=", "(1+2)*(3+4)*5=", sum + "=", deep + "="};
  auto str = [](long n) { return std::to_string(n); };
  if (S().replaying) { go(S().replay_text); return finish(); }
  // inputs that cannot be read
  for (const char *kind : {"missing", "empty", "directory", "below-a-file", "dangling", "loop", "long", "forbidden", "descriptors"})
    for (int w = 1; w <= 3; w++)
      for (auto& x : expressions) {
        go("u" + str(w) + "," + kind + "," + x);
        go("S128 u" + str(w) + "," + kind + "," + x + " p" + str(w) + "," + x);
      }
  // leftovers of every content
  auto plant = [&](const std::string& what) {
    for (int w : S().thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}) go("S64 " + what + " p" + str(w) + "," + expressions[w]);
  };
  for (int v : {0, 1, 2, 3, 7, 100}) plant("s" + str(v));
  for (int a = 0; a < 7; a++)
    for (int b = 0; b < 7; b++) {
      for (int n = 0; n < 2; n++) for (int m = 0; m < 2; m++) plant("m" + str(n) + "," + str(a) + "," + str(m) + "," + str(b));
      for (int c = 0; c < 7; c++) for (int d = 0; d < (S().thorough ? 7 : 1); d++) plant("m0," + str(a) + ",1," + str(b) + ",2," + str(c) + ",3," + str((a + b + c + d) % 7));
      plant("s" + str(a % 4) + " m" + str(a % 2) + "," + str(a) + ",0," + str(b));
    }
  // killed at every point
  for (long size : {0L, 64L, 128L, 512L})
    for (int w = 1; w <= (S().thorough ? 3 : 2); w++)
      for (size_t x = 0; x < expressions.size(); x++) {
        std::string page = size ? "S" + str(size) + " " : "";
        int most = 0;
        reset();
        std::string e = run(split(page + "k" + str(w) + ",0," + expressions[x]), &most);
        forget();
        if (!e.empty()) { go(page + "p" + str(w) + "," + expressions[x]); continue; }
        most += 4;      // the number of calls depends on the schedule
        int step = S().thorough || most < 80 ? 1 : most / 40;
        for (int at = 1; at <= most; at += at < 30 || at > most - 20 ? 1 : step) {
          std::string k = page + "k" + str(w) + "," + str(at) + "," + expressions[x];
          for (int w2 : {w, w % 3 + 1}) {
            size_t y = w2 == w ? x : (x + at) % expressions.size();
            go(k + " p" + str(w2) + "," + expressions[y]);
            if (S().thorough || at % 4 == 0) go(k + " k" + str(w2) + "," + str(at / 2 + 1) + "," + expressions[(y + 1) % expressions.size()] + " p" + str(w) + "," + expressions[y] + " p" + str(w2) + "," + expressions[x]);
          }
        }
      }
  forget();
  return finish();
}
