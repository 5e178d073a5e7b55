// C16 (and the output of a rejected parse, for C17): generated parsers against two oracles.
//
// For every grammar within the bounds that verifies, the code of ParserEM64T, DryParserEM64T and ChaserEM64T is run on
// every short input and on sentences of the grammar and their edits. The oracles:
//  - derivations: every derivation of a prefix of the input, from the grammar text alone;
//  - an interpreter of the machines that asks the real lookahead automata and takes the longest match of each terminal.
#include "grammar_impl.hpp"
#include "grammar_text.hpp"
#include "parse_model.hpp"
#include "CodeGenEM64T.hpp"

using namespace gi;
using namespace pm;

static bool rejects_only;

static int64_t page_size = 8 * 1024 * 1024;
#if defined(CENTAURUS_MODEL_CHECKING)
namespace Centaurus {
template<> const int64_t& ParserEM64T<char>::AST_BUF_SIZE = page_size;
template<> const int64_t& ParserEM64T<unsigned char>::AST_BUF_SIZE = page_size;
template<> const int64_t& ParserEM64T<wchar_t>::AST_BUF_SIZE = page_size;
}
#endif

static bool take(const std::string& ct)
{
  if (S().replaying ? S().replay_text != ct : !mine()) return false;
  begin_case(ct);
  return true;
}

// The input, before an inaccessible page
struct Box
{
  char *base, *guard;
  static const size_t SIZE = 16384;
  Box()
  {
    base = (char *)mmap(NULL, SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    guard = base + SIZE;
    mprotect(guard, 4096, PROT_NONE);
  }
  const char *put(const std::string& s)
  {
    char *p = guard - 16 - s.size();
    memcpy(p, s.data(), s.size());
    memset(p + s.size(), 0, 16);
    return p;
  }
};
static Box box;

static bool misaligned;
// On entry of a callback: the stack must be aligned, and every register that a callee may use is used
#define CALLBACK() do { \
    if ((uintptr_t)__builtin_frame_address(0) & 15) misaligned = true; \
    asm volatile("pcmpeqd %%xmm0,%%xmm0\n pcmpeqd %%xmm1,%%xmm1\n pcmpeqd %%xmm2,%%xmm2\n pcmpeqd %%xmm3,%%xmm3\n pcmpeqd %%xmm4,%%xmm4\n pcmpeqd %%xmm5,%%xmm5\n" \
                 "pcmpeqd %%xmm6,%%xmm6\n pcmpeqd %%xmm7,%%xmm7\n pcmpeqd %%xmm8,%%xmm8\n pcmpeqd %%xmm9,%%xmm9\n pcmpeqd %%xmm10,%%xmm10\n pcmpeqd %%xmm11,%%xmm11\n" \
                 "pcmpeqd %%xmm12,%%xmm12\n pcmpeqd %%xmm13,%%xmm13\n pcmpeqd %%xmm14,%%xmm14\n pcmpeqd %%xmm15,%%xmm15\n" \
                 "mov $-1,%%rax\n mov $-1,%%rcx\n mov $-1,%%rdx\n mov $-1,%%rsi\n mov $-1,%%rdi\n mov $-1,%%r8\n mov $-1,%%r9\n mov $-1,%%r10\n mov $-1,%%r11\n" \
                 ::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", \
                 "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15", "cc"); \
  } while (0)

// Hands out pages, each followed by words that nobody may write.
struct Pages : BaseListener
{
  static const size_t MAX = 4096, SLACK = 8;
  static const uint64_t OLD = 0x8003000000000001ull, CANARY = 0xC0DEC0DEC0DEC0DEull;
  std::vector<uint64_t> mem;
  size_t words, count = 0;
  bool overflow = false;
  explicit Pages(size_t bytes) : words(bytes / 8) {}
  __attribute__((noinline)) void *feed_callback() override
  {
    CALLBACK();
    if (mem.empty()) mem.resize(MAX * 1 + (words + SLACK) * 64);
    if ((count + 1) * (words + SLACK) > mem.size()) { overflow = true; count = 0; }
    uint64_t *p = &mem[count++ * (words + SLACK)];
    std::fill(p, p + words, (uint64_t)OLD);
    std::fill(p + words, p + words + SLACK, (uint64_t)CANARY);
    return p;
  }
  const uint64_t *page(size_t i) const { return &mem[i * (words + SLACK)]; }
  // The records up to the first zero; after it there must be only zeros, and the next page must not exist
  std::string read(Marks& m) const
  {
    m.clear();
    for (size_t i = 0; i < count; i++) {
      const uint64_t *p = page(i);
      for (size_t k = 0; k < SLACK; k++) if (p[words + k] != CANARY) return "page " + std::to_string(i) + " is written beyond its end";
      bool zero = false;
      for (size_t k = 0; k < words; k++) {
        if (p[k] == 0) zero = true;
        else if (zero) return "page " + std::to_string(i) + " has something behind its last record";
        else m.push_back(p[k]);
      }
      if (zero && i + 1 < count) return "page " + std::to_string(i) + " is not full but another one is taken";
      if (!zero && i + 1 == count) return "the last page does not end with a zero word";
    }
    return "";
  }
};

// What the per-rule parsers call
template<typename T> struct Chase : BaseListener
{
  ChaserEM64T<T>& chaser;
  const char *base;
  std::vector<Event> events;
  int depth = 0;
  bool bad = false;
  Chase(ChaserEM64T<T>& c, const char *base) : chaser(c), base(base) {}
  __attribute__((noinline)) void terminal_callback(int id, const void *start, const void *end) override
  {
    CALLBACK();
    events.push_back({0, id, (size_t)((const char *)start - base), (size_t)((const char *)end - base)});
  }
  __attribute__((noinline)) const void *nonterminal_callback(int id, const void *input) override
  {
    CALLBACK();
    events.push_back({1, id, (size_t)((const char *)input - base), 0});
    if (events.size() > 100000) { bad = true; return NULL; }
    return chaser[id](static_cast<BaseListener *>(this), input);
  }
};

static bool has_ranks(const GNode& n)
{
  for (int r : n.rank) if (r) return true;
  for (auto& k : n.kids) if (has_ranks(k)) return true;
  return false;
}
static bool all_defined(const GrammarModel& m, const GNode& n)
{
  if (n.kind == GNode::REF && !m.find(n.text)) return false;
  for (auto& k : n.kids) if (!all_defined(m, k)) return false;
  return true;
}

template<typename T> static std::string explore(const GrammarModel& m, const std::string& path, bool optimise, std::vector<int64_t> sizes, size_t all, size_t many)
{
  std::string err;
  auto g = load<T>(path, err);
  if (!g) return "";
  if (optimise) g->optimize();
  try { if (!g->verify()) { S().extra["does_not_verify"]++; return ""; } } catch (const std::exception&) { return ""; }
  std::unique_ptr<Interp<T>> interp;
  std::vector<std::unique_ptr<ParserEM64T<T>>> parsers;
  std::unique_ptr<DryParserEM64T<T>> dry;
  std::unique_ptr<ChaserEM64T<T>> chaser;
  try {
    interp.reset(new Interp<T>(*g, m));
    if (interp->model.unspecified) return "";
    for (int64_t z : sizes) { tick(); page_size = z; parsers.emplace_back(new ParserEM64T<T>(*g)); }
    if (!rejects_only) {
      tick();
      dry.reset(new DryParserEM64T<T>(*g));
      tick();
      chaser.reset(new ChaserEM64T<T>(*g));
    }
  } catch (const std::exception& e) { return std::string("no code: ") + e.what(); }
  bool ranks = false;
  for (auto& r : m.rules) ranks |= has_ranks(r.body);
  std::string alphabet = interp->model.alphabet();
  // a few characters of the grammar, the terminator and white space
  std::string few, named;
  { std::function<void(const GNode&)> rec = [&](const GNode& n) { if (n.kind == GNode::LIT) for (char c : n.text) if (named.find(c) == std::string::npos) named += c; for (auto& k : n.kids) rec(k); };
    for (auto& r : m.rules) rec(r.body); }
  for (char c : {';', ' ', 'a', 'b'}) if (named.find(c) != std::string::npos || c == ' ' || c == 'a') few += c;
  for (char c : alphabet) if (few.size() < 6 && few.find(c) == std::string::npos) few += c;
  std::map<const GNode *, std::shared_ptr<RegexModel>> re;
  std::vector<std::unique_ptr<Pages>> pages;
  for (int64_t z : sizes) pages.emplace_back(new Pages(z));
  S().states++;
  S().extra["grammars"]++;
  for (const std::string& text : inputs(m, few, all, many)) {
    tick();
    size_t end = 0;
    bool accept = interp->run(0, text, end);
    if (interp->stuck) { S().extra["stuck"]++; continue; }
    // the derivation oracle
    int must = -1;
    Deriver any(m, text, false, re);
    Deriver::Result only;
    if (!any.overflow) {
      if (any.results.empty()) must = 0;
      else if (any.results.size() == 1 && !ranks) {
        Deriver lon(m, text, true, re);
        if (!lon.overflow && lon.results == any.results) {
          // every choice on the way must be one that lookahead can make
          Marks saved = interp->marks;
          std::vector<Event> events = interp->events;
          size_t e = 0;
          interp->by_model = true;
          if (interp->run(0, text, e) && !interp->stuck && e == any.results.begin()->first && interp->marks == any.results.begin()->second) { must = 1; only = *any.results.begin(); }
          interp->by_model = false;
          interp->marks = saved;
          interp->events = events;
        }
      }
    }
    S().extra[must == 1 ? "must_accept" : must == 0 ? "must_reject" : "derivation_open"]++;
    const char *p = box.put(text);
    std::string on = "on \"" + enc(text) + "\" ";
    for (size_t k = 0; k < parsers.size(); k++) {
      Pages& out = *pages[k];
      page_size = sizes[k];
      out.count = 0;
      misaligned = false;
      S().transitions++;
      const char *got = (const char *)(*parsers[k])(&out, p);
      if (out.overflow) return on + "too many pages are taken";
      std::string size = " with pages of " + std::to_string(sizes[k] / 8) + " records";
      Marks marks;
      if (!rejects_only || !got) {
        std::string e = got || rejects_only ? out.read(marks) : "";
        if (!e.empty()) return on + size + ": " + e;
      }
      if (rejects_only) {
        // the records of a rejected input are the beginning of what the machines record
        if (got || accept) continue;
        if (marks.size() > interp->marks.size() || !std::equal(marks.begin(), marks.end(), interp->marks.begin())) return on + "the code leaves " + show(marks) + size + ", the beginning of " + show(interp->marks) + "is due";
        continue;
      }
      if (misaligned) return on + "a page is requested with a misaligned stack";
      if (must == 0 && got) return on + "the code accepts " + std::to_string(got - p) + " characters, the grammar derives no prefix";
      if (must == 1 && !got) return on + "the code rejects, the grammar derives the first " + std::to_string(only.first);
      if (must == 1 && (got != p + only.first || marks != only.second))
        return on + "the code stops at " + std::to_string(got - p) + " and records " + show(marks) + size + ", the derivation is " + show(only.second) + "up to " + std::to_string(only.first);
      if ((got != nullptr) != accept) return on + (got ? "the code accepts, the machines reject" : "the code rejects, the machines accept");
      if (got && (got != p + end || marks != interp->marks)) return on + "the code stops at " + std::to_string(got - p) + " and records " + show(marks) + size + ", the machines " + show(interp->marks) + "up to " + std::to_string(end);
    }
    if (rejects_only) continue;
    S().validated += must >= 0;
    const char *got = (const char *)(*dry)(nullptr, p);
    if (got != (accept ? p + end : nullptr)) return on + "the validating parser gives " + (got ? std::to_string(got - p) : "no result") + ", the parser " + (accept ? std::to_string(end) : "none");
    for (size_t r = 0; r < m.rules.size(); r++) {
      if (r) { accept = interp->run((int)r, text, end); if (interp->stuck) continue; }
      Chase<T> c(*chaser, p);
      misaligned = false;
      S().transitions++;
      auto f = (*chaser)[Identifier(widen(m.rules[r].name))];
      if (f != (*chaser)[(int)r + 1]) return "the parser of " + m.rules[r].name + " is not the one of its number";
      got = (const char *)f(static_cast<BaseListener *>(&c), p);
      if (misaligned) return on + "the parser of " + m.rules[r].name + " calls back with a misaligned stack";
      if (got != (accept ? p + end : nullptr)) return on + "the parser of " + m.rules[r].name + " gives " + (got ? std::to_string(got - p) : "no result") + ", the machine " + (accept ? std::to_string(end) : "none");
      if (accept && !(c.events == interp->events)) return on + "the parser of " + m.rules[r].name + " reports " + show(c.events) + ", the machine " + show(interp->events);
    }
  }
  return "";
}

static void grammar(const std::string& text, const std::string& ct, size_t all, size_t many)
{
  if (!take(ct)) return;
  GrammarModel m(text);
  if (m.verdict != GrammarModel::OK) return;
  for (auto& r : m.rules) if (!all_defined(m, r.body)) return;
  std::string path = write_file(text), e;
  static const int64_t other[] = {16, 24, 32, 40, 56, 64, 4096};
  size_t h = 0;
  for (unsigned char c : text) h = h * 31 + c;
#if defined(CENTAURUS_MODEL_CHECKING)
  std::vector<int64_t> a{8, other[h % 7]}, b{other[h / 7 % 7]};
#else
  std::vector<int64_t> a, b;
#endif
  bool both = S().thorough || S().replaying;
  if (e.empty() && (both || h / 49 % 2)) e = explore<unsigned char>(m, path, false, a, all, many);
  if (e.empty() && (both || h / 49 % 2 == 0)) e = explore<char>(m, path, true, b, all, many);
  if (!e.empty()) violation(e);
  sample(ct);
}

#if !defined(CENTAURUS_MODEL_CHECKING)
// Pages of the real size: inputs that fill them to the last record
struct BigPages : BaseListener
{
  static const size_t WORDS = 1 << 20;
  std::vector<uint64_t *> pages;
  ~BigPages() { for (auto p : pages) munmap(p, WORDS * 8 + 4096); }
  void *feed_callback() override
  {
    char *p = (char *)mmap(NULL, WORDS * 8 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + WORDS * 8, 4096, PROT_NONE);
    memset(p, 0x55, WORDS * 8);
    pages.push_back((uint64_t *)p);
    return p;
  }
};
template<typename T> static void big(const std::string& tname, int shape, size_t k)
{
  std::string ct = "big " + tname + " " + std::to_string(shape) + " " + std::to_string(k);
  if (!take(ct)) return;
  static const char *G[] = {"R : S* ';' ; S : 'a' ;", "R : T ; T : S* ';' ; S : 'a' ;", "R : 'b'* T ; T : 'a' T | ';' ;"};
  std::string err, path = write_file(G[shape]);
  auto g = load<T>(path, err);
  Marks want;
  std::string text;
  if (shape == 2) {
    text = "bb" + std::string(k, 'a') + ";";
    want.push_back(start_mark(1, 0));
    for (size_t i = 0; i <= k; i++) want.push_back(start_mark(2, 2 + i));
    for (size_t i = 0; i <= k + 1; i++) want.push_back(end_mark(i <= k ? 2 : 1, k + 3));
  } else {
    text = std::string(k, 'a') + ";";
    for (int i = 1; i <= 1 + shape; i++) want.push_back(start_mark(i, 0));
    for (size_t i = 0; i < k; i++) { want.push_back(start_mark(2 + shape, i)); want.push_back(end_mark(2 + shape, i + 1)); }
    for (int i = 1 + shape; i >= 1; i--) want.push_back(end_mark(i, k + 1));
  }
  text.resize(text.size() + 16);
  ParserEM64T<T> parser(*g);
  for (int bad = 0; bad < 2; bad++) {
    if (bad) text[text.size() - 17] = '?';
    BigPages out;
    S().transitions++;
    S().states++;
    const char *got = (const char *)parser(&out, text.data());
    if (bad != rejects_only) { if (bad && got) { violation("accepts an input that is not in the language"); return; } continue; }
    if (!bad && got != text.data() + text.size() - 16) { violation("the parser stops at " + (got ? std::to_string(got - text.data()) : "no place")); return; }
    if (bad && got) { violation("accepts an input that is not in the language"); return; }
    size_t i = 0;
    if (!bad && out.pages.size() != want.size() / BigPages::WORDS + 1) { violation(std::to_string(out.pages.size()) + " pages are taken for " + std::to_string(want.size()) + " records"); return; }
    for (size_t q = 0; q < out.pages.size(); q++) for (size_t w = 0; w < BigPages::WORDS; w++) {
      uint64_t x = out.pages[q][w], y = i < want.size() ? want[i] : 0;
      if (bad && x == 0) { i = want.size(); y = 0; }
      else i++;
      if (x != y) { violation("page " + std::to_string(q) + ", word " + std::to_string(w) + ": " + show(Marks{x}) + "instead of " + show(Marks{y})); return; }
    }
  }
  sample(ct);
}
#endif

int main(int argc, char **argv)
{
  for (int i = 1; i < argc; i++) if (std::string(argv[i]) == "--c17") rejects_only = true;
  init(argc, argv);
  int more = S().thorough || S().replaying ? 1 : 0;
#if !defined(CENTAURUS_MODEL_CHECKING)
  size_t w = 1 << 20;
  for (int shape = 0; shape < 3; shape++)
    for (size_t marks : {w - 4, w - 2, w - 1, w, w + 1, w + 2, w + 4, 2 * w - 2, 2 * w - 1, 2 * w, 2 * w + 1, 2 * w + 2, 3 * w, 3 * w + 2}) {
      if (marks & 1) continue;
      if (shape == 2 && marks > w + 4 && !more) continue;
      size_t k = shape == 2 ? (marks - 4) / 2 : (marks - 2 * (1 + shape)) / 2;
      if (marks & 2) big<char>("char", shape, k); else big<unsigned char>("uchar", shape, k);
    }
  return finish();
#else
  size_t all = more ? 1500 : 400, many = more ? 30 : 16;
  auto run = [&](const std::string& text) { grammar(text, "text " + enc(text), all, many); };
  // one rule below the root
  auto f = [&](const std::string& b) { run("R : S ';' ; S :" + b + " ;"); };
  for_each_body(5 + more, {"'a'"}, f);
  for_each_body(4 + more, {"'a'", "'b'"}, f);
  for_each_body(3 + more, {"'a'{3}", "/b+/{0}", "'ab'", "/[^;b]/"}, f);
  // the root itself
  for_each_body(3 + more, {"'a'", "'b'", "S"}, [&](const std::string& b) { run("R : (" + b + " ) ';' ; S : 'c' | 'd' S ;"); });
  // recursion and nesting
  const std::vector<std::string> second{"'a'", "'b'{1}", "", "'b'?", "'b'*", "( 'a' | 'b' )", "'b' S | 'c'", "'a' S | ", "'a' S 'b' | ", "'c' Q | 'b'", "Q | 'b'", "S2 'c' S2", "/a*/{2}", "'b' ( 'a' | 'b' )", "'(' Q ')' | 'x'", "'c' |> 'c' 'b'"};
  for (auto& s : second)
    for_each_body(3 + more, {"'a'", "S"}, [&](const std::string& b) { run("R : Q ';' ; Q :" + b + " ; S : " + s + " ; S2 : 'y' | 'z' S2 ;"); });
  const std::vector<std::string> r3{"S T", "S | T", "S* T", "( S | T )* 'e'", "S? 'e' | T", "'a' S | 'b' T", "'c' Q | S", "( S T )* | 'e'", "S |> T", "S S", "( 'c' S )+ T?"};
  const std::vector<std::string> s3{"'a'", "'a'*", "'b' | T", "'a' T 'b' | 'd'", "T*", "'a' Q 'b' | ", "( T 'a' )?", "'a' S | 'b'", "T T", "'(' Q ')'"};
  const std::vector<std::string> t3{"'d'", "'d'*", "", "'d' S | 'f'", "'d' Q | 'f'", "/[df]f/", "'d' T 'd' | 'f'", "( 'd' | 'f' )?", "'df' | 'd'"};
  for (auto& r : r3) for (auto& s : s3) for (auto& t : t3) run("R : Q ';' ; Q : " + r + " ; S : " + s + " ; T : " + t + " ;");
  // chains of rules: page turns at every depth
  for (int n = 1; n <= 12; n++) {
    std::string t = "R : A0 ';' ; ";
    for (int i = 0; i < n; i++) t += "A" + std::to_string(i) + " : " + (i + 1 < n ? "A" + std::to_string(i + 1) + " 'b'?" : std::string("'a'")) + " ; ";
    run(t);
    run("R : X* ';' ; X : 'x' A0 ; " + t.substr(t.find(';', t.find("';'") + 3) + 1));
  }
  // terminals
  const std::vector<std::string> terms{"'a'{7}", "'k'{0}", "/[kl]m/{0}", "'aa'", "'ab'", "' a'", "'a b'", "/a+/", "/a*b/{4}", "/(ab)*a/", "/[a-c]/", "/[^;a]/", "/[^;ab]+/{1}", "/ a/", "/[acegikmoqsuwy]+/", "'abcdefgh'", "'abcdefghijklmnopq'{2}", "/[0-9]+/", "'\\''"};
  for (auto& x : terms) for (auto& y : terms) {
    run("R : " + x + " " + y + " ';' ;");
    run("R : ( " + x + " | " + y + " ) ';' ;");
    run("R : ( S | " + y + " )* ';' ; S : " + x + " ;");
  }
  for (auto& s : sample_files()) {
    if (s.first == "lua" || (s.first == "citylots_eager" && !more)) continue;      // takes minutes
    grammar(s.second, "sample " + s.first, all, more ? 300 : 60);
  }
  return finish();
#endif
}
