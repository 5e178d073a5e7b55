// C17: the C++ interface. Every grammar, set of attached actions, number of workers and history of parses within the bounds is
// run through the real Context: generated code, runners and threads as they are. What the actions see is compared with the tree
// of the parse. (The interleavings of the threads are explored by C10 to C12; here the operating system chooses.)
//
// A case is a list of words: the character type, then steps: G<grammar> makes a context, a<i>=<digits> attaches to the rules
// of context i (0 nothing, 1 an action with a value, 2 an action without), p<i>w<n>:<pieces> parses with n workers. A piece is
// <count>x<text>, pieces are joined by +.
#include "grammar_text.hpp"
#include "parse_model.hpp"
#include "CodeGenEM64T.hpp"
#include "Context.hpp"

#include <dirent.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <algorithm>
#include <mutex>

using namespace gi;
using namespace pm;

static int64_t page_size = 8 * 1024 * 1024;
#if defined(CENTAURUS_MODEL_CHECKING)
namespace Centaurus {
template<> const int64_t& ParserEM64T<char>::AST_BUF_SIZE = page_size;
template<> const int64_t& ParserEM64T<unsigned char>::AST_BUF_SIZE = page_size;
template<> const int64_t& ParserEM64T<wchar_t>::AST_BUF_SIZE = page_size;
}
#endif

static const int RULES = 6;

static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ h >> 29; }

// One invocation of an action
struct Inv
{
  int rule = 0, children = 0;
  size_t start = 0, end = 0;
  uint64_t hash = 0;             // of everything below
  bool used = false;
  bool operator<(const Inv& o) const { return std::tie(rule, start, end, children, hash) < std::tie(o.rule, o.start, o.end, o.children, o.hash); }
  bool operator==(const Inv& o) const { return rule == o.rule && start == o.start && end == o.end && children == o.children && hash == o.hash; }
};
static std::string show(const Inv& v) { return "rule " + std::to_string(v.rule) + " at " + std::to_string(v.start) + "-" + std::to_string(v.end) + " with " + std::to_string(v.children) + " values"; }
static std::mutex lock;
static std::deque<Inv> seen;
static std::string problem, input_path;
static const std::string *current;
static std::vector<std::pair<const char *, const char *>> windows;      // where the input is mapped

static const char *find_window(const char *p)
{
  for (int again = 0; again < 2; again++) {
    for (auto& w : windows) if (w.first <= p && p <= w.second) return w.first;
    std::ifstream f("/proc/self/maps");
    windows.clear();
    for (std::string l; std::getline(f, l);) {
      unsigned long a, b, at;
      if (l.size() > input_path.size() && l.compare(l.size() - input_path.size(), std::string::npos, input_path) == 0 && sscanf(l.c_str(), "%lx-%lx %*s %lx", &a, &b, &at) == 3 && at == 0) windows.emplace_back((char *)a, (char *)b);
    }
  }
  return nullptr;
}

template<typename T, int RULE, bool VALUE> static void *action(const SymbolContext<T>& ctx)
{
  std::lock_guard<std::mutex> g(lock);
  const std::string& text = *current;
  auto complain = [&](const std::string& what) { if (problem.empty()) problem = "the action of rule " + std::to_string(RULE) + " " + what; };
  if (seen.size() > 8000000) { complain("is invoked without end"); return nullptr; }
  seen.emplace_back();
  Inv& v = seen.back();
  v.rule = RULE;
  v.children = ctx.count();
  const char *p = (const char *)ctx.start(), *window = text.empty() ? p : find_window(p);
  if ((const char *)ctx.end() - p != ctx.len() || ctx.len() < 0) complain("is given a length of " + std::to_string(ctx.len()) + " between two ends that are " + std::to_string((const char *)ctx.end() - p) + " apart");
  else if (!window) complain("is given an extent outside the input");
  else {
    v.start = p - window;
    v.end = v.start + ctx.len();
    auto t = ctx.read();
    if (v.end > text.size()) complain("is given an extent beyond the input");
    else if (text.compare(v.start, v.end - v.start, (const char *)t.data(), t.size())) complain("is given a text that is not at " + std::to_string(v.start) + "-" + std::to_string(v.end));
  }
  v.hash = mix(mix(mix(RULE, v.children), v.start), v.end);
  for (int i = 1; i <= v.children && problem.empty(); i++) {
    Inv *k = ctx.template value<Inv>(i);
    bool known = false;
    if (k) {
      // the values are addresses of elements of `seen`, which do not move
      known = *(const uint64_t *)k != 0 && k->rule >= 1 && k->rule <= RULES;
    }
    if (!known) { complain("is given a value that no action returned"); break; }
    if (k->used) { complain("is given a value a second time: " + show(*k)); break; }
    k->used = true;
    v.hash = mix(v.hash, k->hash);
  }
  return VALUE ? &v : nullptr;
}
template<typename T> static CppReductionCallback<T> action_of(int rule, bool value)
{
  static const CppReductionCallback<T> f[RULES][2] = {{action<T, 1, false>, action<T, 1, true>}, {action<T, 2, false>, action<T, 2, true>}, {action<T, 3, false>, action<T, 3, true>},
    {action<T, 4, false>, action<T, 4, true>}, {action<T, 5, false>, action<T, 5, true>}, {action<T, 6, false>, action<T, 6, true>}};
  return f[rule - 1][value];
}

// What is due
static std::vector<Inv> walk(const Marks& marks, const std::string& states)
{
  struct Frame { Inv v; uint64_t hash; std::vector<uint64_t> values; };
  std::vector<Frame> stack;
  std::vector<Inv> r;
  for (uint64_t x : marks) {
    int id = x >> 48 & 0x7fff;
    size_t at = x & 0xffffffffffffull;
    if (x >> 63) {
      stack.emplace_back();
      stack.back().v.rule = id;
      stack.back().v.start = at;
    } else {
      Frame f = std::move(stack.back());
      stack.pop_back();
      char st = states[id - 1];
      if (st == '0') continue;
      f.v.end = at;
      f.v.children = (int)f.values.size();
      f.v.hash = mix(mix(mix(id, f.v.children), f.v.start), at);
      for (uint64_t h : f.values) f.v.hash = mix(f.v.hash, h);
      r.push_back(f.v);
      if (st == '1' && !stack.empty()) stack.back().values.push_back(f.v.hash);
    }
  }
  return r;
}

static std::string pieces(const std::vector<std::pair<size_t, std::string>>& v)
{
  std::string r;
  for (auto& p : v) {
    std::string e;
    for (char c : enc(p.second)) if (c == '+') e += "%2B"; else e += c;
    r += (r.empty() ? "" : "+") + std::to_string(p.first) + "x" + e;
  }
  return r;
}
static std::string piece(const std::string& s) { return pieces({{1, s}}); }
static std::string unpiece(const std::string& s)
{
  std::string r;
  for (size_t i = 0; i < s.size();) {
    size_t e = s.find('+', i);
    if (e == std::string::npos) e = s.size();
    size_t x = s.find('x', i);
    std::string t = dec(s.substr(x + 1, e - x - 1));
    for (long n = atol(s.c_str() + i); n > 0; n--) r += t;
    i = e + 1;
  }
  return r;
}

// What the machines of a grammar do, from the grammar alone; kept for the cases that follow
template<typename T> struct Known
{
  GrammarModel m;
  std::unique_ptr<Grammar<T>> g;
  std::unique_ptr<Interp<T>> interp;
  explicit Known(const std::string& text) : m(text)
  {
    std::string err;
    if (m.verdict != GrammarModel::OK) return;
    g = load<T>(write_file(text, "known.cgr"), err);
    if (!g || !g->verify()) { g.reset(); return; }
    interp.reset(new Interp<T>(*g, m));
  }
};
template<typename T> static Known<T>& known(const std::string& text)
{
  static std::string last[4];
  static std::unique_ptr<Known<T>> k[4];
  static int at;
  for (int i = 0; i < 4; i++) if (k[i] && last[i] == text) return *k[i];
  at = (at + 1) % 4;
  last[at] = text;
  k[at].reset(new Known<T>(text));
  return *k[at];
}

struct Expect { bool accept; Marks marks; };
struct Shared { uint64_t accepted, rejected, invocations; char problem[4000]; };
static Shared *shared;

// What each parse of the case should do; false if that is not defined
template<typename T> static bool prepare(const std::vector<std::string>& steps, std::vector<Expect>& out)
{
  std::vector<std::string> grammars;
  for (auto& w : steps) {
    tick();
    if (w[0] == 'G') {
      grammars.push_back(dec(w.substr(1)));
      Known<T>& k = known<T>(grammars.back());
      if (!k.interp || k.interp->model.unspecified || k.m.rules.size() > RULES) return false;
    } else if (w[0] == 'p') {
      std::string text = unpiece(w.substr(5));
      Interp<T>& in = *known<T>(grammars[w[1] - '0']).interp;
      in.max_steps = 20000 + text.size() * 20;
      in.max_depth = 500 + (int)text.size() * 2;
      in.peek = text.size() > 20000 ? 8 : std::string::npos;
      size_t end = 0;
      bool accept = in.run(0, text, end);
      if (in.stuck) { S().extra["stuck"]++; return false; }
      out.push_back({accept, in.marks});
    }
  }
  return true;
}

template<typename T> static std::string run(const std::vector<std::string>& steps, const std::vector<Expect>& expected)
{
  struct Made { std::unique_ptr<Context<T>> c; std::string states; std::vector<std::string> names; };
  std::vector<Made> made;
  size_t number = 0;
  for (auto& w : steps) {
    tick();
    if (w[0] == 'S') page_size = atol(w.c_str() + 1);
    else if (w[0] == 'G') {
      std::string text = dec(w.substr(1));
      made.emplace_back();
      for (auto& r : known<T>(text).m.rules) made.back().names.push_back(r.name);
      made.back().states.assign(made.back().names.size(), '0');
      made.back().c.reset(new Context<T>(write_file(text).c_str()));
    } else if (w[0] == 'a') {
      Made& c = made[w[1] - '0'];
      for (size_t i = 0; i < c.states.size(); i++) {
        char st = w[3 + i];
        c.states[i] = st;
        c.c->attach(Identifier(widen(c.names[i])), st == '0' ? nullptr : action_of<T>((int)i + 1, st == '1'));
      }
    } else {
      Made& c = made[w[1] - '0'];
      int workers = w[3] - '0';
      std::string text = unpiece(w.substr(5));
      const Expect& x = expected[number++];
      std::vector<Inv> due = walk(x.marks, c.states);
      input_path = write_file(text, "input" + std::to_string(number));
      current = &text;
      windows.clear();
      seen.clear();
      problem.clear();
      (x.accept ? shared->accepted : shared->rejected)++;
      c.c->parse(input_path.c_str(), workers);
      unlink(input_path.c_str());
      shared->invocations += seen.size();
      std::string on = "parse " + std::to_string(number) + ": ";
      if (!problem.empty()) return on + problem;
      std::vector<Inv> got(seen.begin(), seen.end());
      std::sort(got.begin(), got.end());
      std::sort(due.begin(), due.end());
      std::vector<Inv> more, less;
      std::set_difference(got.begin(), got.end(), due.begin(), due.end(), std::back_inserter(more));
      std::set_difference(due.begin(), due.end(), got.begin(), got.end(), std::back_inserter(less));
      if (!more.empty()) return on + "an invocation that is not due: " + show(more[0]) + (less.empty() ? "" : ", due and missing: " + show(less[0]));
      if (x.accept && !less.empty()) return on + "due and missing: " + show(less[0]);
    }
  }
  return "";
}

// Shared memory of a process that is no more
static void forget(int gone)
{
  DIR *d = opendir("/dev/shm");
  if (!d) return;
  while (dirent *e = readdir(d)) {
    const char *p = strstr(e->d_name, "Centaurus[");
    if (p && atoi(p + 10) == gone) unlink((std::string("/dev/shm/") + e->d_name).c_str());
  }
  closedir(d);
}

// In a process of its own, so that no case depends on those before it
template<typename T> static std::string isolated(const std::vector<std::string>& steps)
{
  std::vector<Expect> expected;
  if (!prepare<T>(steps, expected)) return "";
  scratch();
  if (!shared) shared = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(shared, 0, sizeof *shared);
  int parent = getpid(), status = 0;
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(9);
    forget(getpid());
    std::string e = run<T>(steps, expected);
    snprintf(shared->problem, sizeof shared->problem, "%s", e.c_str());
    _exit(0);
  }
  if (pid < 0 || waitpid(pid, &status, 0) != pid) abort();
  S().transitions += shared->accepted + shared->rejected;
  S().states++;
  S().extra["accepted"] += shared->accepted;
  S().extra["rejected"] += shared->rejected;
  S().extra["invocations"] += shared->invocations;
  if (WIFSIGNALED(status)) { forget(pid); return std::string("ends with signal ") + std::to_string(WTERMSIG(status)) + " (" + strsignal(WTERMSIG(status)) + ")"; }
  if (WEXITSTATUS(status)) { forget(pid); return "ends with status " + std::to_string(WEXITSTATUS(status)); }
  return shared->problem;
}

static void go(const std::string& ct)
{
  if (S().replaying ? S().replay_text != ct : !mine()) return;
  begin_case(ct);
  std::vector<std::string> steps;
  std::istringstream in(ct);
  std::string type;
  in >> type;
  for (std::string w; in >> w;) steps.push_back(w);
  page_size = 8 * 1024 * 1024;
  std::string e = type == "char" ? isolated<char>(steps) : isolated<unsigned char>(steps);
  if (!e.empty()) violation(e);
  sample(ct);
}

// A few sentences and some rejected inputs, in a fixed order
static std::vector<std::string> some_inputs(const std::string& grammar, size_t many)
{
  GrammarModel m(grammar);
  std::vector<std::string> r;
  auto put = [&](const std::string& s) { if (std::find(r.begin(), r.end(), s) == r.end()) r.push_back(s); };
  put("");
  auto v = sentences(m, m.rules[0].body, 6, many);
  for (size_t n = 0; n < v.size(); n++) {
    std::string plain, spaced;
    for (auto& x : v[n]) { plain += x; spaced += (n & 1 ? "\n " : " ") + x; }
    put(plain);
    put(spaced + "\n");
    if (n % 2 == 0) put(plain.substr(0, plain.size() / 2));
    if (n % 2 == 1) put(plain.substr(0, plain.size() - 1) + "?");
    if (n % 4 == 1) put(plain + "rest");
  }
  return r;
}

static const char *const GRAMMARS[] = {
  "R : 'a' ';' ;",
  "R : S ';' ; S : 'a' ;",
  "R : S* ';' ; S : 'a' ;",
  "R : S T ';' ; S : 'a'* ; T : 'b' | 'c' ;",
  "R : ( S | T )* ';' ; S : 'a' T ; T : 'b' ;",
  "R : S ';' ; S : '(' S ')' | 'x' ;",
  "R : S ';' ; S : '(' T* ')' | 'x' ; T : '[' S ']' | 'y' ;",
  "R : S+ ';' ; S : T ',' | '!' T T ; T : 'a' | '<' U '>' ; U : T* ;",
  "R : S? T ';' ; S : 'a' ; T : 'b'? ;",
  "R : 'b'* T ; T : 'a' T | ';' ;",
  "R : S '=' S ';' ; S : T ( '+' T )* ; T : /[0-9]+/ | '(' S ')' ;",
  "R : A ';' ; A : B ; B : C D ; C : 'c' ; D : C? 'd' ;",
};

int main(int argc, char **argv)
{
  init(argc, argv);
  if (S().replaying) { go(S().replay_text); return finish(); }
  bool more = S().thorough;
  const std::vector<std::string> types{"char", "uchar"};
  size_t turn = 0;
#if defined(CENTAURUS_MODEL_CHECKING)
  // Small pages: the tree is spread over many chunks
  for (const char *gr : GRAMMARS) {
    size_t n = GrammarModel(gr).rules.size();
    auto in = some_inputs(gr, more ? 60 : 24);
    for (int size : {8, 16, 24, 40, 64})
      for (auto& s : in)
        for (int w = 1; w <= 3; w++) {
          if (!more && ++turn % 3) continue;
          std::string a(n, '1');
          if (turn / 3 % 3) for (size_t i = 1; i < n; i++) a[i] = "0121"[(turn / 9 + i * i) % 4];
          go(types[turn / 3 % 2] + " S" + std::to_string(size) + " G" + enc(gr) + " a0=" + a + " p0w" + std::to_string(w) + ":" + piece(s) + " p0w" + std::to_string(w % 3 + 1) + ":" + piece(in[turn % in.size()]));
        }
  }
  return finish();
#else
  for (const char *gr : GRAMMARS) {
    size_t n = GrammarModel(gr).rules.size();
    auto in = some_inputs(gr, more ? 12 : 6);
    std::string g = " G" + enc(gr), all(n, '1');
    // every set of attached actions
    size_t sets = 1;
    for (size_t i = 0; i < n; i++) sets *= 3;
    for (size_t k = 0; k < sets; k++) {
      std::string a;
      for (size_t i = 0, x = k; i < n; i++, x /= 3) a += (char)('0' + x % 3);
      if (n > 3 && !more && k % 3) continue;
      for (size_t j = 1; j < in.size() && j < (more ? 8 : 4); j++) { turn++; go(types[turn % 2] + g + " a0=" + a + " p0w" + std::to_string(turn % 3 + 1) + ":" + piece(in[in.size() - j])); }
    }
    // every input, every number of workers
    for (auto& s : in) for (int w = 1; w <= 3; w++) go(types[turn++ % 2] + g + " a0=" + all + " p0w" + std::to_string(w) + ":" + piece(s));
    // every history of three parses over four inputs: two accepted ones, a rejected one and an empty file; actions change in between
    std::vector<std::string> few{"", "?", in[1], in.back()};
    for (size_t k = 0; k < 64; k++) {
      if (!more && (k + turn) % 3) continue;
      std::string ct = types[turn++ % 2] + g + " a0=" + all;
      for (size_t i = 0, x = k; i < 3; i++, x /= 4) {
        ct += " p0w" + std::to_string((k + i) % 3 + 1) + ":" + piece(few[x % 4]);
        if (k % 5 == i) { std::string a = all; a[k % n] = "20"[k / 5 % 2]; ct += " a0=" + a; }
      }
      go(ct);
    }
  }
  // Long histories
  for (const char *gr : GRAMMARS) {
    auto in = some_inputs(gr, 12);
    std::string ct = types[turn++ % 2] + " G" + enc(gr) + " a0=" + std::string(GrammarModel(gr).rules.size(), '1');
    for (size_t k = 0; k < 40; k++) ct += " p0w" + std::to_string(k * 5 % 3 + 1) + ":" + piece(in[k * 7 % in.size()]);
    go(ct);
  }
  // Two contexts in turns
  for (size_t i = 0; i + 1 < sizeof GRAMMARS / sizeof *GRAMMARS; i++) {
    const char *a = GRAMMARS[i], *b = GRAMMARS[i + 1];
    auto ia = some_inputs(a, 6), ib = some_inputs(b, 6);
    for (int k = 0; k < 8; k++) {
      std::string ct = types[k % 2] + " G" + enc(a) + " G" + enc(b) + " a0=" + std::string(GrammarModel(a).rules.size(), '1') + " a1=" + std::string(GrammarModel(b).rules.size(), '1');
      for (int j = 0; j < 3; j++) ct += (k >> j & 1 ? " p1w2:" + piece(ib.back()) : " p0w1:" + piece(ia.back()));
      go(ct);
    }
  }
  // Inputs around multiples of the page size, with and without the terminator at the end
  for (const char *gr : {"R : S* ';' ; S : 'a' ;", "R : S ';' ; S : /a+/ ;", "R : S ';' ; S : 'a'* ;"})
    for (size_t page : {4096, 8192, 65536})
      for (int d = -3; d <= 17; d++) {
        if (!more && (page == 65536 || d > 3) && d % 4) continue;
        std::string g = " G" + enc(gr) + " a0=11 p0w" + std::to_string(turn++ % 3 + 1) + ":";
        size_t n = page + d;
        for (auto& p : std::vector<std::vector<std::pair<size_t, std::string>>>{{{n - 1, "a"}, {1, ";"}}, {{n, "a"}}, {{n - 2, "a"}, {1, ";"}, {1, "\n"}}, {{n / 2, " a"}, {1, ";"}}, {{n, " "}}}) go(types[turn++ % 2] + g + pieces(p));
      }
  // More than one chunk: 2^20 records each
  size_t w = 1 << 20;
  const std::string g = "R : S* ';' ; S : T ; T : 'a' ;";
  for (size_t records : {w - 2, w, w + 2, 2 * w - 2, 2 * w, 2 * w + 2, 3 * w, 5 * w / 2}) {
    size_t k = (records - 2) / 4;
    for (const char *a : {"111", "110", "101", "011", "122"})
      for (int n = 1; n <= 3; n++) {
        if (!more && turn++ % 4) continue;
        std::string good = pieces({{k, "a"}, {1, ";"}}), bad = pieces({{k, "a"}, {1, "?;"}});
        go(types[turn % 2] + " G" + enc(g) + " a0=" + a + " p0w" + std::to_string(n) + ":" + (turn / 4 % 2 ? good : bad) + " p0w" + std::to_string(n) + ":" + (turn / 8 % 2 ? bad : good));
      }
  }
  // Deep nesting over several chunks
  for (const char *gr : {"R : 'b'* T ; T : 'a' T | ';' ;", "R : S ; S : '(' S ')' | ';' ;"})
    for (size_t k : {w / 2 - 2, w / 2 - 1, w / 2, w - 3, w - 1, 5 * w / 4})
      for (const char *a : {"11", "10", "01"})
        for (int end = 0; end < 3; end++) {
          if (!more && turn++ % 9) continue;
          std::string open = gr[4] == 'S' ? "(" : "a", close = gr[4] == 'S' ? ")" : "";
          std::vector<std::pair<size_t, std::string>> p{{k, open}};
          if (end == 0) p.emplace_back(1, ";");
          if (end == 1) p.emplace_back(1, "?");
          if (end == 0 && !close.empty()) p.emplace_back(k, close);
          go(types[turn % 2] + " G" + enc(gr) + " a0=" + a + " p0w" + std::to_string(turn / 9 % 3 + 1) + ":" + pieces(p));
        }
  return finish();
#endif
}
