// C15: the native code generated for patterns, literals, white space and lookahead decisions, run on the real CPU.
//
// The code generator is the real one; asmjit is a stand-in that encodes the same instructions (shim/asmjit/asmjit.h).
// Every input lies directly before an inaccessible page: the end-of-input character and 15 bytes that may be loaded with it.
#include "grammar_impl.hpp"
#include "grammar_text.hpp"
#include "choice_model.hpp"
#include "CompositeATN.hpp"
#include "CodeGenEM64T.hpp"

#include <cmath>
#include <deque>

using namespace gi;

static bool take(const std::string& ct)
{
  if (S().replaying ? S().replay_text != ct : !mine()) return false;
  begin_case(ct);
  return true;
}

struct Box
{
  char *base, *guard;
  static const size_t SIZE = 8192;
  Box()
  {
    base = (char *)mmap(NULL, SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    guard = base + SIZE;
    mprotect(guard, 4096, PROT_NONE);
  }
  // the text, the end-of-input character, and 15 bytes of the filler
  const char *put(const std::string& s, char filler)
  {
    char *p = guard - 16 - s.size();
    memcpy(p, s.data(), s.size());
    p[s.size()] = 0;
    memset(guard - 15, filler, 15);
    p[-1] = filler;
    return p;
  }
};
static Box box;

// Calls the routine, and once in a while checks that it leaves the registers of its caller alone.
template<typename R> static const char *call(R& r, const char *p) { return (const char *)r(p); }

static std::string where(const char *from, const char *got) { return got ? std::to_string(got - from) : "no match"; }

template<typename T> struct PatternCheck
{
  const RegexModel& m;
  std::unique_ptr<DFARoutineEM64T<T>> routine;
  const char *form;
  bool ok = true;
  long expected(const std::string& s)
  {
    RegexModel::Set st = m.start();
    long best = m.accepts(st) ? 0 : -1;
    for (size_t i = 0; i < s.size(); i++) {
      st = m.step(st, (unsigned char)s[i]);
      if (st.none()) break;
      if (m.accepts(st)) best = (long)i + 1;
    }
    return best;
  }
  bool one(const std::string& s, char filler)
  {
    if (!ok) return false;
    S().transitions++;
    long want = expected(s);
    const char *p = box.put(s, filler);
    const char *got = call(*routine, p);
    if (got != (want < 0 ? nullptr : p + want)) {
      violation(std::string(form) + ": on \"" + enc(s) + "\" (then " + enc(std::string(1, filler)) + ") the code stops at " + where(p, got) + ", the longest match is " + (want < 0 ? "none" : std::to_string(want)));
      return ok = false;
    }
    return true;
  }
  void run(const std::string& alphabet, int len)
  {
    char last = alphabet.empty() ? 'a' : alphabet[0];
    for_each_string(alphabet, len, [&](const std::string& s) { return one(s, last) && one(s, 0); });
    if (!ok) return;
    // all states of the model, all characters, and the shortest way on from there to a match
    struct SetLess { bool operator()(const RegexModel::Set& a, const RegexModel::Set& b) const {
      for (int i = 0; i < RegexModel::MAXPOS; i++) if (a[i] != b[i]) return a[i] < b[i];
      return false; } };
    std::map<RegexModel::Set, std::string, SetLess> access;
    std::deque<RegexModel::Set> todo{m.start()};
    access[m.start()] = "";
    std::string wide = alphabet;
    { std::string more = m.alphabet(40); for (char c : more) if (wide.find(c) == std::string::npos) wide += c; }
    auto way_on = [&](const RegexModel::Set& from) -> std::string {
      std::map<RegexModel::Set, std::string, SetLess> seen;
      std::deque<RegexModel::Set> q{from};
      seen[from] = "";
      while (!q.empty() && seen.size() < 60) {
        RegexModel::Set s = q.front();
        q.pop_front();
        std::string w = seen[s];
        for (char c : wide) {
          RegexModel::Set t = m.step(s, (unsigned char)c);
          if (t.none() || seen.count(t)) continue;
          if (m.accepts(t)) return w + c;
          seen[t] = w + c;
          q.push_back(t);
        }
      }
      return "";
    };
    std::map<RegexModel::Set, std::string, SetLess> onward;
    while (!todo.empty() && access.size() < 60) {
      RegexModel::Set s = todo.front();
      todo.pop_front();
      S().states++;
      std::string a = access[s];
      for (int ch = 1; ch < 255; ch++) {
        RegexModel::Set t = m.step(s, ch);
        if (!one(a + (char)ch, (char)ch)) return;
        if (t.none()) continue;
        if (!onward.count(t)) onward[t] = way_on(t);
        std::string w = onward[t];
        if (!w.empty() && !one(a + (char)ch + w, w.back())) return;
        if (wide.find((char)ch) != std::string::npos && !access.count(t)) { access[t] = a + (char)ch; todo.push_back(t); }
      }
      // runs across the width of the vector unit
      for (char c : wide) {
        if (m.step(s, (unsigned char)c).none()) continue;
        for (int k : {13, 14, 15, 16, 17, 30, 31, 32, 33, 34, 48}) {
          std::string r = a + std::string(k, c);
          if (!one(r, c)) return;
          for (char d : wide) if (d != c && !one(r + d, c)) return;
          if (k == 16 || k == 17) for (char d : alphabet) for (char e : alphabet) if (!one(r + d + e, d)) return;
        }
      }
    }
    // alternating runs
    for (char c : alphabet) for (char d : alphabet) for (int n : {15, 16, 17, 31, 32, 33}) {
      std::string r;
      for (int i = 0; i < n; i++) r += i & 1 ? d : c;
      if (!one(r, c) || !one(r + c + d, d)) return;
    }
  }
};

template<typename T> static void pattern(const std::string& tname, const std::string& text, int len)
{
  RegexModel m(text);
  if (m.verdict != RegexModel::OK) return;
  std::string ct = "pattern " + tname + " " + enc(text);
  if (!take(ct)) return;
  Stream stream(std::wstring(text.begin(), text.end()));
  std::unique_ptr<NFA<T>> nfa;
  try { nfa.reset(new NFA<T>(stream)); } catch (const std::exception&) { return; }       // C02's matter
  std::string alphabet = m.alphabet(4);
  while (len > 2 && std::pow((double)alphabet.size(), len) > 1500) len--;
  for (int mini = 0; mini < 2; mini++) {
    PatternCheck<T> c{m, nullptr, mini ? "minimised" : "as built"};
    try { c.routine.reset(new DFARoutineEM64T<T>(DFA<T>(*nfa, mini))); c.routine->operator()(box.put("", 0)); }
    catch (const std::exception& e) { violation(std::string("no code: ") + e.what()); return; }
    c.run(alphabet, len);
    if (!c.ok) return;
  }
  if (text.size() > 8) sample(ct);
}

template<typename T> static void literal(const std::string& tname, const std::string& text, bool all)
{
  std::string ct = "literal " + tname + " " + enc(text);
  if (!take(ct)) return;
  std::basic_string<T> lit;
  for (unsigned char c : text) lit += (T)c;
  std::unique_ptr<MatchRoutineEM64T<T>> r;
  try { r.reset(new MatchRoutineEM64T<T>(lit)); } catch (const std::exception& e) { violation(std::string("no code: ") + e.what()); return; }
  bool ok = true;
  auto one = [&](const std::string& s, char filler) {
    if (!ok) return;
    S().transitions++;
    const char *p = box.put(s, filler);
    bool want = s.compare(0, text.size(), text) == 0;
    const char *got;
    try { got = call(*r, p); } catch (const std::exception& e) { violation(std::string("no code: ") + e.what()); ok = false; return; }
    if (got != (want ? p + text.size() : nullptr)) {
      violation("on \"" + enc(s) + "\" (then " + enc(std::string(1, filler)) + ") the code stops at " + where(p, got) + (want ? ", the literal is there" : ", the literal is not there"));
      ok = false;
    }
  };
  S().states += text.size() + 1;
  for (char f : {'\0', 'a', text.empty() ? 'x' : text.back()}) {
    one(text, f);
    for (int k : {1, 7, 8, 15, 16, 17}) { one(text + std::string(k, f ? f : 'b'), f); one(text + std::string(k, 'z'), f); }
    for (size_t n = 0; n < text.size(); n++) {
      one(text.substr(0, n), text[n]);                       // the rest of the literal is not there
      one(text.substr(0, n), f);
    }
  }
  for (size_t n = 0; n < text.size(); n++) {
    std::string s = text;
    for (int c = 1; c < 256; c++) {
      if (!all && n > 1 && n + 2 < text.size() && c != (unsigned char)(text[n] ^ 1) && c != 'a' && c != 'b' && c != (unsigned char)(text[n] ^ 0x80)) continue;
      s[n] = (char)c;
      one(s, 'a');
      one(s + "aaaaaaaaaaaaaaaa", 'a');
    }
    s = text;
    s.erase(n, 1);
    one(s + "aaaa", 'a');
    s = text;
    s.insert(n, 1, 'a');
    one(s, 'a');
  }
  sample(ct);
}

template<typename T> static void skip(const std::string& tname, const std::string& chars, int len)
{
  std::string ct = "skip " + tname + " " + std::to_string(len);
  if (!take(ct)) return;
  SkipRoutineEM64T<T> r(CharClass<T>({' ', '\t', '\r', '\n'}));
  bool ok = true;
  auto one = [&](const std::string& s, char filler) {
    S().transitions++;
    const char *p = box.put(s, filler);
    size_t want = 0;
    while (want < s.size() && strchr(" \t\r\n", s[want])) want++;
    const char *got = call(r, p);
    if (got != p + want) { violation("on \"" + enc(s) + "\" the code stops at " + where(p, got) + " instead of " + std::to_string(want)); ok = false; }
    return ok;
  };
  S().states++;
  for_each_string(chars, len, [&](const std::string& s) { return one(s, ' '); });
  for (int c = 1; c < 256 && ok; c++) for (const char *w : {"", " ", "\n\t", "  \r\n"}) {
    one(w + std::string(1, (char)c), (char)c);
    one(w + std::string(1, (char)c) + " ", ' ');
  }
  for (char c : chars) for (int n = 1; n <= 70 && ok; n++) {
    one(std::string(n, c), c);
    for (char d : chars) one(std::string(n, c) + d + c, c);
  }
  sample(ct);
}

template<typename T> static std::string decision(const LookaheadDFA<T>& ld, const std::string& extra)
{
  typedef std::pair<int, std::string> P;
  std::unique_ptr<LDFARoutineEM64T<T>> r;
  try { r.reset(new LDFARoutineEM64T<T>(ld)); } catch (const std::exception& e) { return std::string("no code: ") + e.what(); }
  int n = ld.get_state_num();
  auto step = [&](int s, int ch) -> int {            // next state, or -k, or a large number
    for (auto& tr : ld[s].get_transitions()) if (tr.label().includes((T)ch)) return tr.dest();
    return 1 << 20;
  };
  // the characters the automaton tells apart
  std::set<int> cs(extra.begin(), extra.end());
  for (int i = 0; i < n; i++) for (auto& tr : ld[i].get_transitions()) for (auto& x : tr.label())
    for (long c : {(long)x.start() - 1, (long)x.start(), (long)x.end() - 1, (long)x.end()}) if (c > 0 && c < 255) cs.insert((int)c);
  std::set<int> own(cs);
  for (int c = 1; c < 255; c++) cs.insert(c);
  std::vector<std::string> access(n), leave(n);
  std::vector<bool> seen(n), out(n);
  std::deque<int> todo{0};
  seen[0] = true;
  while (!todo.empty()) {
    int s = todo.front();
    todo.pop_front();
    for (int c : own) {
      int d = step(s, (unsigned char)c);
      if (d >= 0 && d < n && !seen[d]) { seen[d] = true; access[d] = access[s] + (char)c; todo.push_back(d); }
    }
  }
  for (bool change = true; change;) {
    change = false;
    for (int s = 0; s < n; s++) for (int c : own) if (!out[s]) {
      int d = step(s, (unsigned char)c);
      if (d < 0) { out[s] = change = true; leave[s] = std::string(1, (char)c); }
      else if (d < n && out[d]) { out[s] = change = true; leave[s] = (char)c + leave[d]; }
    }
  }
  auto one = [&](const std::string& t, char filler) -> std::string {
    S().transitions++;
    int want = 0, s = 0;
    for (size_t i = 0; i <= t.size(); i++) {
      int d = step(s, i < t.size() ? (unsigned char)t[i] : 0);
      if (d < 0) { want = -d; break; }
      if (d >= n) break;
      s = d;
    }
    int got = (*r)(box.put(t, filler));
    if (got != want) return "with " + enc(t) + " ahead the code takes " + std::to_string(got) + ", the automaton " + std::to_string(want);
    return "";
  };
  for (int s = 0; s < n; s++) {
    if (!seen[s]) continue;
    S().states++;
    for (int c : cs) {
      std::string t = access[s] + (char)c, e;
      int d = step(s, (unsigned char)c);
      e = one(t, (char)c);
      if (e.empty() && d >= 0 && d < n && own.count(c)) {
        e = one(t + leave[d], 'a');
        for (int x : own) if (e.empty()) e = one(t + (char)x + leave[d], 'b');
      }
      if (!e.empty()) return e;
    }
    std::string e = one(access[s], own.empty() ? 'a' : (char)*own.begin());
    if (!e.empty()) return e;
  }
  return "";
}

template<typename T> static std::string decisions(const GrammarModel& m, const std::string& path, bool optimise, const std::string& extra)
{
  std::string err;
  auto g = load<T>(path, err);
  if (!g) return "";
  if (optimise) g->optimize();
  CompositeATN<T> catn(*g);
  for (auto& r : m.rules) {
    Identifier id(widen(r.name));
    const ATNMachine<T>& machine = (*g)[id];
    for (int i = 0; i < machine.get_node_num(); i++) {
      if (machine.get_node(i).get_transitions().size() < 2) continue;
      std::unique_ptr<LookaheadDFA<T>> ld;
      try { ld.reset(new LookaheadDFA<T>(catn, catn.convert_atn_path(ATNPath(id, i)))); } catch (const std::exception&) { continue; }
      S().extra["decisions"]++;
      std::string e = decision(*ld, extra);
      if (!e.empty()) return std::string(optimise ? "optimised, " : "") + r.name + ":" + std::to_string(i) + ": " + e;
    }
  }
  return "";
}

static void grammar(const std::string& text, const std::string& ct)
{
  if (!take(ct)) return;
  GrammarModel m(text);
  if (m.verdict != GrammarModel::OK) return;
  std::string path = write_file(text);
  std::string e = decisions<char>(m, path, false, "ab");
  if (e.empty()) e = decisions<unsigned char>(m, path, true, "ab");
  if (!e.empty()) violation(e);
  sample(ct);
}

int main(int argc, char **argv)
{
  init(argc, argv);
  int more = S().thorough ? 1 : 0;
  std::vector<std::string> q3{"+", "*", "?"}, qall{"+", "++", "+?", "+*", "*", "*+", "*?", "**", "?", "??", "?*"};
  std::vector<std::string> some{"a", "b", "."}, two{"a", "b"};
  std::vector<std::string> every{"a", "b", "c", ".", "[ab]", "[^a]", "[a-c]", "[b-d]", "[^a-bd]", "\\.", "\\|", "\\\\", "[\\-]", "[\\n\\t]", "[^\\n]", " ", "\x7f", "\xe9", "[\x80-\xf0]", "[^\x01-\x7f]",
    "[aceg]", "[acegikmoq]"};
  // strings of up to 6 characters over up to 4
  for_each_pattern(5 + more, two, q3, [](const std::string& t) { pattern<char>("char", t, 6); });
  for_each_pattern(4 + more, some, q3, [](const std::string& t) { pattern<char>("char", t, 5); });
  for_each_pattern(4, two, qall, [](const std::string& t) { pattern<char>("char", t, 5); });
  for_each_pattern(3, every, q3, [](const std::string& t) { pattern<char>("char", t, 4); });
  for_each_pattern(3, some, q3, [](const std::string& t) { pattern<unsigned char>("uchar", t, 4); });
  for_each_pattern(2, every, qall, [](const std::string& t) { pattern<unsigned char>("uchar", t, 3); });
  // classes of 1 to 20 ranges, in loops and outside, single characters and wider ranges
  for (int n = 1; n <= 20; n++)
    for (int shape = 0; shape < 3; shape++) {
      std::string c;
      for (int i = 0; i < n; i++) {
        int ch = shape == 2 ? 0x40 + i * 9 : '!' + i * 4;
        if (strchr("[]-\\", ch)) ch++;
        if (strchr("[]-\\", ch)) ch++;
        c += (char)ch;
        if (shape == 1) { c += '-'; c += (char)(ch + (strchr("[]-\\", ch + 1) ? 0 : 1)); }
      }
      for (auto& t : {"[" + c + "]*", "[" + c + "]+", "[^" + c + "]*", "[" + c + "]", "x[" + c + "]+y", "([" + c + "]x)*", "([" + c + "]|(xy))*z", "[" + c + "]?[^" + c + "]*"}) {
        pattern<char>("char", t, 3);
        pattern<unsigned char>("uchar", t, 2);
      }
    }
  for (const char *t : {"[0-9]+", "[0-9]+\\.[0-9]+", "[+\\-]?[0-9]+(\\.[0-9]*)?([eE][+\\-]?[0-9]+)?", "\"([^\"\\\\]|(\\\\.))*\"", "[a-zA-Z_][a-zA-Z0-9_]*",
                        "0x[0-9a-fA-F]+", "[^<>&]+", "if|else|while", "(if)|(else)|(while)", "--[^\\n]*\\n", "(=+)", "\\[=*\\[", "[ \\t\\r\\n]*", "([a-z]+\\.)+(com|org)",
                        "-?(0|[1-9][0-9]*)(\\.[0-9]+)?", "(true)|(false)|(null)", "(a|b)*abb", "(a|b)*a(a|b)(a|b)", "(0|1(01*0)*1)+", "((a|b)(c|d))*", "a(b(c(d)?)?)?",
                        "[A-Z][a-z]*( [A-Z][a-z]*)*", "[^\\]]*\\]", "(aa|aaa)+", "(a*b*)*c", "((a*)|(b*))*", "((a|b)?(b|c)?)+d", "a*b*c*", "(a*b)*a*", "[^a]*a[^b]*b", "(.*a)?b*", "a*(b|c)*a*"}) {
    pattern<char>("char", t, 5);
    pattern<unsigned char>("uchar", t, 4);
  }
  // literals: all short ones, all lengths, bytes of every value
  for_each_string("ab", 9 + more, [&](const std::string& s) { literal<char>("char", s, false); return true; });
  for (int n = 0; n <= 50 + 30 * more; n++) {
    std::string a(n, 'a'), seq, high;
    for (int i = 0; i < n; i++) { seq += (char)('A' + i % 50); high += (char)(0xff - i); }
    for (auto& s : {a, seq, high}) { literal<char>("char", s, n <= 18 || more); literal<unsigned char>("uchar", s, false); }
  }
  for (int c = 1; c < 256; c++) { literal<char>("char", std::string(1, (char)c), true); literal<char>("char", std::string(9, 'q') + (char)c + "r", false); }
  // white space
  const std::string sc = std::string(" \t\r\nab\x0b\xa0");
  skip<char>("char", sc, 4 + more);
  skip<unsigned char>("uchar", sc, 4);
  // decisions
  auto run = [&](const std::string& text) { grammar(text, "text " + enc(text)); };
  static const char *CALLERS[] = {"", " Z : R 'a' ;", " Z : ( R 'b' )* | 'a' R 'a' ;"};
  for (int c = 0; c < 3; c++) {
    auto f = [&](const std::string& b) { run("R :" + b + " ;" + CALLERS[c]); };
    for_each_body(4 + more, {"'a'", "'b'"}, f);
    for_each_body(3 + more, {"'a'", "/b+/", "'ab'", "/[^ab]/", "S"}, [&](const std::string& b) { f(b + " ; S : 'a' S | 'c'"); });
  }
  const std::vector<std::string> terms{"'a'", "'aa'", "'ab'", "'b'", "''", "/a+/", "/a*b/", "/(ab)*a/", "/[a-c]/", "/[^a]/", "/[^ab]+/", "/./", "/[acegikmoqsuwy]+/", "'\xe9'", "/[\x80-\xf0]/", "/[^\x01-\x7f]x/", "'abcdefgh'", "/\\./", "/[0-9]+/"};
  for (auto& x : terms) for (auto& y : terms) {
    run("R : " + x + " | " + y + " ;");
    run("R : ( " + x + " | " + y + " )* " + x + " ; Z : R '.' ;");
    for (auto& z : terms) run("R : " + x + " | " + y + " |> " + z + " | 'zz' ;");
  }
  // up to 12 alternatives that share a prefix of up to 6 characters
  for (int n = 2; n <= 12; n++) for (int k = 0; k <= 6; k++) {
    std::string t = "R : ";
    for (int i = 0; i < n; i++) t += (i ? " | '" : "'") + std::string(k, 'p') + (char)('a' + i) + "'";
    run(t + " ;");
    run(t + " | R2 ; R2 : 'pp' R2 'z' | '-' ;");
  }
  for (auto& f : sample_files()) grammar(f.second, "sample " + f.first);
  return finish();
}
