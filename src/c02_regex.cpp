// C02 and C03: regular expressions.
//
// Every pattern within the bounds is built by the real parser. C02 compares the real recogniser with the position
// automaton of the notation: on every string up to a length, and on a transition cover of the model's subset automaton
// followed by every string of length up to 2. C03 explores the product of the model's subset automaton with the
// automaton as built and as minimised, over one character of every class the three can tell apart: all
// reachable states, hence all strings of any length.
#include "DFA.hpp"
#include "mc.hpp"
#include "regex_model.hpp"

#include <cmath>
#include <deque>
#include <unordered_set>

using namespace Centaurus;
using namespace mc;

static bool c03;

template<typename T> std::basic_string<T> conv(const std::string& s)
{
  std::basic_string<T> r;
  for (unsigned char c : s) r += (T)c;
  return r;
}

template<typename T> NFA<T> parse(const std::string& text, bool& all)
{
  Stream stream(std::wstring(text.begin(), text.end()));
  NFA<T> nfa(stream);
  all = stream.get() == 0;
  return nfa;
}

struct SetLess { bool operator()(const RegexModel::Set& a, const RegexModel::Set& b) const {
  for (int i = 0; i < RegexModel::MAXPOS; i++) if (a[i] != b[i]) return a[i] < b[i];
  return false; } };

template<typename T> void check_nfa(const NFA<T>& nfa, const RegexModel& m, const std::string& alphabet, int len, size_t text_size)
{
  auto one = [&](const std::string& s) {
    S().transitions++;
    bool want = m.accepts(s);
    if (nfa.run(conv<T>(s)) != want) { violation("\"" + enc(s) + "\" is " + (want ? "in the language but rejected" : "not in the language but accepted")); return false; }
    return true;
  };
  bool ok = true;
  for_each_string(alphabet, len, [&](const std::string& s) { return ok = one(s); });
  if (!ok) return;
  // transition cover of the model's subset automaton, followed by short strings
  std::map<RegexModel::Set, std::string, SetLess> access;
  std::deque<RegexModel::Set> todo{m.start()};
  access[m.start()] = "";
  std::string small = alphabet.substr(0, 3);
  while (!todo.empty() && access.size() < 300) {
    RegexModel::Set s = todo.front();
    todo.pop_front();
    S().states++;
    std::string a = access[s];
    for (int ch = 1; ch < 255; ch++) {
      if ((a.size() > 2 || access.size() > 1 && text_size > 4) && alphabet.find((char)ch) == std::string::npos) continue;
      RegexModel::Set t = m.step(s, ch);
      if (!one(a + (char)ch)) return;
      if (alphabet.find((char)ch) != std::string::npos) {
        if ((int)a.size() + 1 > len - 1)
          for_each_string(small, 2, [&](const std::string& u) { return ok = one(a + (char)ch + u); });
        if (!ok) return;
        if (t.any() && !access.count(t)) { access[t] = a + (char)ch; todo.push_back(t); }
      }
    }
  }
  // the end-of-input character is never part of a match
  if (nfa.run(conv<T>(std::string(1, '\0'))) ) violation("the end-of-input character is matched");
}

template<typename T> std::string check_structure(const DFA<T>& d)
{
  int n = d.get_state_num();
  if (n < 1) return "no states";
  for (int i = 0; i < n; i++) {
    auto& tr = d.get_transitions(i);
    for (size_t a = 0; a < tr.size(); a++) {
      S().transitions++;
      if (tr[a].dest() < 0 || tr[a].dest() >= n) return "state " + std::to_string(i) + " leads to a state which does not exist";
      for (size_t b = a + 1; b < tr.size(); b++)
        for (auto& ra : tr[a].label())
          for (auto& rb : tr[b].label())
            if (std::max(ra.start(), rb.start()) < std::min(ra.end(), rb.end()))
              return "two transitions of state " + std::to_string(i) + " match the same character";
    }
  }
  return "";
}

template<typename T> int step(const DFA<T>& d, int state, int ch)
{
  if (state < 0) return -1;
  for (auto& tr : d.get_transitions(state)) if (tr.label().includes((T)ch)) return tr.dest();
  return -1;
}

template<typename T> void check_dfa(const NFA<T>& nfa, const RegexModel& m, std::string alphabet, int len)
{
  DFA<T> plain(nfa, false), mini(nfa, true);
  DFA<T> copy(mini);
  std::string err = check_structure(plain);
  if (!err.empty()) { violation("without minimisation: " + err); return; }
  err = check_structure(mini);
  if (!err.empty()) { violation("minimised: " + err); return; }
  // characters the automata tell apart, beyond those of the model
  std::set<int> extra;
  for (auto *d : {&plain, &mini})
    for (int i = 0; i < d->get_state_num(); i++)
      for (auto& tr : d->get_transitions(i))
        for (auto& r : tr.label())
          for (long c : {(long)r.start() - 1, (long)r.start(), (long)r.end() - 1, (long)r.end()})
            if (c > 0 && c < 255) extra.insert((int)c);
  std::string alpha = alphabet;
  for (int c : extra) if (alpha.find((char)c) == std::string::npos) alpha += (char)c;
  // The recogniser decides what is right; the model only drives the exploration
  auto judge = [&](const std::string& s) {
    S().transitions++;
    bool n = nfa.run(conv<T>(s));
    for (auto *d : {&plain, &mini, &copy})
      if (d->run(conv<T>(s)) != n) {
        violation(std::string(d == &plain ? "without minimisation" : "minimised") + ": \"" + enc(s) + "\" is " +
                  (n ? "accepted by the nondeterministic recogniser but rejected" : "rejected by the nondeterministic recogniser but accepted"));
        return false;
      }
    return true;
  };
  bool ok = true;
  for_each_string(alphabet, len, [&](const std::string& s) { return ok = judge(s); });
  if (!ok) return;
  struct Less { bool operator()(const std::tuple<RegexModel::Set, int, int>& a, const std::tuple<RegexModel::Set, int, int>& b) const {
    if (std::get<1>(a) != std::get<1>(b)) return std::get<1>(a) < std::get<1>(b);
    if (std::get<2>(a) != std::get<2>(b)) return std::get<2>(a) < std::get<2>(b);
    return SetLess()(std::get<0>(a), std::get<0>(b)); } };
  typedef std::tuple<RegexModel::Set, int, int> Node;
  std::map<Node, std::string, Less> seen;
  std::deque<Node> todo;
  auto reach = [&](const Node& n, const std::string& path) {
    if (seen.emplace(n, path).second) { todo.push_back(n); S().states++; }
  };
  reach(Node(m.start(), 0, 0), "");
  while (!todo.empty()) {
    Node n = todo.front();
    todo.pop_front();
    std::string path = seen[n];
    bool ma = m.accepts(std::get<0>(n));
    bool pa = std::get<1>(n) >= 0 && plain.is_accept_state(std::get<1>(n));
    bool qa = std::get<2>(n) >= 0 && mini.is_accept_state(std::get<2>(n));
    S().transitions++;
    if (pa != ma || qa != ma) { if (!judge(path)) return; continue; }
    if (std::get<0>(n).none() && std::get<1>(n) < 0 && std::get<2>(n) < 0) continue;
    for (unsigned char c : alpha)
      reach(Node(m.step(std::get<0>(n), c), step(plain, std::get<1>(n), c), step(mini, std::get<2>(n), c)), path + (char)c);
  }
  // run() follows the transitions that were explored
  for (auto& p : seen) if (p.second.size() < 12 && !judge(p.second)) return;
}

template<typename T> void pattern(const std::string& tname, const std::string& text, int len)
{
  std::string ct = "pattern " + tname + " " + enc(text);
  if (S().replaying ? S().replay_text != ct : !mine()) return;
  RegexModel m(text);
  if (m.verdict == RegexModel::UNSPECIFIED) return;
  if (m.verdict == RegexModel::MALFORMED && c03) return;
  begin_case(ct);
  if (m.verdict == RegexModel::MALFORMED) {
    S().extra["malformed"]++;
    bool all;
    try { parse<T>(text, all); } catch (const std::exception& e) { S().transitions++; return; }
    violation("a malformed pattern is accepted");
    return;
  }
  bool all = false;
  NFA<T> nfa;
  std::unique_ptr<NFA<T>> p;
  try { p.reset(new NFA<T>(parse<T>(text, all))); }
  catch (const std::exception& e) { if (!c03) violation(std::string("a well-formed pattern is rejected: ") + e.what()); return; }
  if (!all) { if (!c03) violation("part of the pattern is left over"); return; }
  std::string alphabet = m.alphabet(4);
  while (len > 2 && std::pow((double)alphabet.size(), len) > 1500) len--;
  if (c03) check_dfa(*p, m, alphabet, std::min(len, 4));
  else check_nfa(*p, m, alphabet, len, text.size());
  if (text.size() > 8) sample(ct);
}

int main(int argc, char **argv)
{
  for (int i = 1; i < argc; i++) if (std::string(argv[i]) == "--c03") c03 = true;
  init(argc, argv);
  int more = S().thorough ? 1 : 0;
  std::vector<std::string> q3{"+", "*", "?"}, qall{"+", "++", "+?", "+*", "*", "*+", "*?", "**", "?", "??", "?*"};
  std::vector<std::string> some{"a", "b", "."}, two{"a", "b"};
  std::vector<std::string> every{"a", "b", "c", ".", "[ab]", "[^a]", "[a-c]", "[b-d]", "[^a-bd]", "\\.", "\\+", "\\*", "\\?", "\\(", "\\)", "\\[", "\\]", "\\{", "\\}",
    "\\|", "\\\\", "[\\-]", "[.]", "[\\n\\t]", "[^\\n]", " ", "-", "^", "\"", "0", ":", "\x7f", "\xe9"};
  if (S().replaying) {
    std::istringstream is(S().replay_text);
    std::string kind, tname, text;
    is >> kind >> tname >> text;
    text = dec(text);
    if (tname == "char") pattern<char>(tname, text, 6);
    else if (tname == "uchar") pattern<unsigned char>(tname, text, 6);
    else pattern<wchar_t>(tname, text, 6);
    return finish();
  }
  // patterns of a sequence of tokens: many shapes with few atoms, then every quantifier form, then every atom
  for_each_pattern(6 + more, two, q3, [](const std::string& t) { pattern<char>("char", t, 6); });
  for_each_pattern(5, some, q3, [](const std::string& t) { pattern<char>("char", t, 5); });
  for_each_pattern(4 + more, two, qall, [](const std::string& t) { pattern<char>("char", t, 5); });
  for_each_pattern(3 + more, every, q3, [](const std::string& t) { pattern<char>("char", t, 3); });
  for_each_pattern(2, every, qall, [](const std::string& t) { pattern<char>("char", t, 3); });
  for_each_pattern(4, some, q3, [](const std::string& t) { pattern<wchar_t>("wchar", t, 4); });
  for_each_pattern(2, every, qall, [](const std::string& t) { pattern<wchar_t>("wchar", t, 3); });
  for_each_pattern(3, some, q3, [](const std::string& t) { pattern<unsigned char>("uchar", t, 4); });
  // one operand with every other one, in every binary shape and loop
  std::vector<std::string> ops{"a", "ab", "a+", "b*", "a?", "(ab)+", "(a*)*", "(a?b?)*", "(a|b)+", "(a|b*)+", "a|b", "(ab|a)", "[ab]+", ".", ".*", "(a+b?)+?", "(a??b)*+", "((a))"};
  for (auto& x : ops)
    for (auto& y : ops) {
      for (auto& t : {x + y, "(" + x + ")|(" + y + ")", "(" + x + y + ")*", "((" + x + ")|(" + y + "))+", "(" + x + ")?" + y + "c"}) pattern<char>("char", t, 5);
      if (more)
        for (auto& z : ops)
          for (auto& t : {x + y + z, "(" + x + ")|(" + y + ")|(" + z + ")", "((" + x + ")|(" + y + ")" + z + ")*", "(" + x + "(" + y + ")*" + z + ")+"}) pattern<char>("char", t, 5);
    }
  // the patterns people write
  for (const char *t : {"[0-9]+", "[0-9]+\\.[0-9]+", "[+\\-]?[0-9]+(\\.[0-9]*)?([eE][+\\-]?[0-9]+)?", "\"([^\"\\\\]|(\\\\.))*\"", "[a-zA-Z_][a-zA-Z0-9_]*",
                        "0x[0-9a-fA-F]+", "[^<>&]+", "if|else|while", "(if)|(else)|(while)", "--[^\\n]*\\n", "(=+)", "\\[=*\\[", "[ \\t\\r\\n]*", "([a-z]+\\.)+(com|org)",
                        "-?(0|[1-9][0-9]*)(\\.[0-9]+)?", "(true)|(false)|(null)", "(a|b)*abb", "(a|b)*a(a|b)(a|b)", "(0|1(01*0)*1)+", "((a|b)(c|d))*", "a(b(c(d)?)?)?",
                        "[A-Z][a-z]*( [A-Z][a-z]*)*", "[^\\]]*\\]", "(aa|aaa)+", "(a*b*)*c", "((a*)|(b*))*", "((a|b)?(b|c)?)+d"})
    pattern<char>("char", t, 5);
  if (!c03) {
    // class texts, malformed ones included, and every escape
    for_each_class_text(3, [](const std::string& t, bool) { pattern<char>("char", t, 1); });
    for_each_class_text(2, [](const std::string& t, bool) {
      pattern<char>("char", t.substr(0, t.size() - 1), 1);     // not closed
      pattern<char>("char", "a" + t + "b", 3);
      pattern<char>("char", "(" + t + ")*", 2);
    });
    for (int ch = 1; ch < 256; ch++) {
      if (ch == 13) continue;        // read as a line break
      pattern<char>("char", std::string("\\") + (char)ch, 1);
      pattern<char>("char", std::string("a\\") + (char)ch + "b", 2);
      pattern<char>("char", std::string("[\\") + (char)ch + "]", 1);
      pattern<char>("char", std::string("[a\\") + (char)ch + "-]", 1);
      if (ch < 255) pattern<char>("char", std::string(1, (char)ch), 1);
    }
    for (const char *t : {"\\", "a\\", "[\\", "[a", "[", "[^", "[a-", "[a-\\", "(a\\q)", "[-]", "[a-]", "[a--b]", "[--a]", "a[-b]", "[a-b-]"}) pattern<char>("char", t, 1);
  }
  return finish();
}
