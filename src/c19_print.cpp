// C19: node paths and printed diagrams.
//
// Paths: every path and every text within the bounds against a model of the notation; all triples for the order.
// Diagrams: every enumerated pattern and grammar is printed, the printed graph is read back, and its nodes and edges are
// compared with the object as it answers through its accessors.
#include "grammar_impl.hpp"
#include "grammar_text.hpp"
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
#include "DFA.hpp"

using namespace gi;

static bool take(const std::string& ct)
{
  if (S().replaying ? S().replay_text != ct : !mine()) return false;
  begin_case(ct);
  return true;
}

// ---------------------------------------------------------------- paths

typedef std::vector<std::pair<std::string, int>> PModel;

static std::string spell(const PModel& p)
{
  std::string r;
  for (auto& e : p) r += (r.empty() ? "" : "/") + e.first + "." + std::to_string(e.second);
  return r;
}
static ATNPath make(const PModel& p)
{
  ATNPath r;
  for (auto& e : p) r.push(Identifier(widen(e.first)), e.second);
  return r;
}
static bool same(const ATNPath& p, const PModel& m)
{
  if (p.depth() != (int)m.size()) return false;
  for (size_t i = 0; i < m.size(); i++) if (narrow(p[i].first.str()) != m[i].first || p[i].second != m[i].second) return false;
  return true;
}
static std::string print_path(const ATNPath& p)
{
  std::wostringstream os;
  os << p;
  return narrow(os.str());
}
static void all_paths(int depth, const std::vector<std::string>& ids, const std::vector<int>& nums, const std::function<void(const PModel&)>& f)
{
  std::function<void(PModel, int)> rec = [&](PModel p, int left) {
    if (!p.empty()) f(p);
    if (left) for (auto& i : ids) for (int n : nums) { PModel q = p; q.emplace_back(i, n); rec(q, left - 1); }
  };
  rec({}, depth);
}

static void path_case(const PModel& m)
{
  std::string ct = "path " + enc(spell(m));
  if (!take(ct)) return;
  S().states++;
  ATNPath p = make(m);
  std::string t = print_path(p);
  if (t != spell(m)) { violation("printed as " + t); return; }
  try {
    ATNPath q(widen(t));
    if (!same(q, m) || !(q == p) || q.compare(p) != 0 || q.hash() != p.hash()) violation("read back as " + print_path(q));
  } catch (const std::exception& e) { violation(std::string("its own spelling is rejected: ") + e.what()); }
  S().transitions++;
  // the operations on paths, against the list
  PModel parent(m.begin(), m.end() - 1), longer = m, moved = m;
  longer.emplace_back("Z", 5);
  moved.back().second = 77;
  if (!same(p.parent_path(), parent) || !same(p.add(Identifier(L"Z"), 5), longer) || !same(p.replace_index(77), moved) || !same(p, m)) violation("parent, extension or replacement is wrong");
  if (p.depth() != (int)m.size() || p.leaf_index() != m.back().second || narrow(p.leaf_id().str()) != m.back().first) violation("depth or leaf is wrong");
  for (auto& e : longer) {
    int n = (int)std::count(m.begin(), m.end(), e);
    if (p.count(Identifier(widen(e.first)), e.second) != n || p.find(Identifier(widen(e.first)), e.second) != (n > 0)) violation("occurrences of an element are miscounted");
  }
  ATNPath popped = p;
  popped.pop();
  if (!same(popped, parent)) violation("pop is wrong");
}

// 1 a path, 0 malformed; the number must be representable
static int read_model(const std::string& t, PModel& out)
{
  size_t i = 0;
  for (;;) {
    std::string id;
    if (i >= t.size() || !(isalpha((unsigned char)t[i]) || t[i] == '_')) return 0;
    while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_')) id += t[i++];
    if (i >= t.size() || t[i] != '.') return 0;
    i++;
    long n = 0;
    size_t s = i;
    while (i < t.size() && isdigit((unsigned char)t[i])) { n = n * 10 + (t[i++] - '0'); if (n > 2147483647) return 0; }
    if (i == s) return 0;
    out.emplace_back(id, (int)n);
    if (i == t.size()) return 1;
    if (t[i] != '/') return 0;
    i++;
  }
}
static void path_text(const std::string& t)
{
  std::string ct = "pathtext " + enc(t);
  if (!take(ct)) return;
  S().states++;
  S().transitions++;
  PModel m;
  int ok = read_model(t, m);
  try {
    ATNPath p(widen(t));
    if (!ok) { violation("a malformed path is read as " + print_path(p)); return; }
    if (!same(p, m)) violation("read as " + print_path(p));
  } catch (const std::exception& e) { if (ok) violation(std::string("rejected: ") + e.what()); }
}

static void order_case(size_t index, const std::vector<PModel>& ms, const std::vector<ATNPath>& ps)
{
  std::string ct = "order " + std::to_string(index);
  if (!take(ct)) return;
  auto sgn = [](int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
  const ATNPath& a = ps[index];
  for (size_t j = 0; j < ps.size(); j++) {
    S().states++;
    int ab = sgn(a.compare(ps[j]));
    bool eq = ms[index] == ms[j];
    if ((ab == 0) != eq || (a == ps[j]) != eq) { violation("equality with " + spell(ms[j]) + " is wrong for " + spell(ms[index])); return; }
    if (sgn(ps[j].compare(a)) != -ab) { violation("the order of " + spell(ms[index]) + " and " + spell(ms[j]) + " depends on the side"); return; }
    if (eq && (a.hash() != ps[j].hash() || std::hash<ATNPath>()(a) != std::hash<ATNPath>()(ps[j]))) { violation("equal paths with different hashes"); return; }
    for (size_t k = 0; k < ps.size(); k++) {
      S().transitions++;
      if (ab <= 0 && sgn(ps[j].compare(ps[k])) <= 0 && sgn(a.compare(ps[k])) > 0) { violation("the order is not transitive on " + spell(ms[index]) + ", " + spell(ms[j]) + ", " + spell(ms[k])); return; }
    }
  }
}

// ---------------------------------------------------------------- diagrams

struct Dot
{
  std::map<std::string, std::string> nodes;       // name -> attributes
  std::multiset<std::string> edges;               // "from -> to attributes"
  std::string error;
  explicit Dot(const std::string& text)
  {
    std::istringstream is(text);
    std::string line;
    int depth = 0;
    while (std::getline(is, line)) {
      if (line.empty()) continue;
      if (line.back() == '{') { depth++; continue; }
      if (line == "}") { depth--; continue; }
      std::string attr, head = line;
      if (!head.empty() && head.back() == ';') head.pop_back();
      size_t b = head.find(" [ ");
      if (b != std::string::npos) { attr = head.substr(b + 3); head = head.substr(0, b); if (attr.size() >= 2 && attr.substr(attr.size() - 2) == " ]") attr.resize(attr.size() - 2); }
      if (head.find(" -> ") != std::string::npos) { edges.insert(head + " " + attr); continue; }
      if (head == "graph" || head == "node" || head == "edge" || head.compare(0, 7, "rankdir") == 0 || head.compare(0, 5, "label") == 0 || head == "SS") continue;
      if (!nodes.emplace(head, attr).second) error = "node " + head + " appears twice";
    }
    if (depth) error = "brackets do not match";
  }
};

static std::string show_char(long c)
{
  if (c > 0x20 && c < 0x7f) return c == '"' ? "\\\"" : c == '\\' ? "\\\\" : std::string(1, (char)c);
  char b[32];
  snprintf(b, sizeof b, "\\\\x%lX", c);
  return b;
}
template<typename T> static std::string show_class(const CharClass<T>& cc)
{
  if (cc.is_epsilon()) return "";
  std::string r = "[";
  for (auto& x : cc) {
    long s = (long)x.start(), e = (long)x.end();
    r += show_char(s);
    if (e != s + 1) r += "-" + show_char(e - 1);
  }
  return r + "]";
}

static std::string compare_dot(const Dot& d, const std::map<std::string, std::string>& nodes, const std::multiset<std::string>& edges)
{
  S().states += nodes.size();
  S().transitions += edges.size();
  if (!d.error.empty()) return d.error;
  for (auto& n : nodes) {
    auto i = d.nodes.find(n.first);
    if (i == d.nodes.end()) return "node " + n.first + " is not printed";
    if (n.second != "*" && i->second != n.second) return "node " + n.first + " is printed with " + i->second + ", not " + n.second;
  }
  for (auto& n : d.nodes) if (!nodes.count(n.first)) return "a node is printed that does not exist: " + n.first;
  if (d.edges != edges) {
    for (auto& e : edges) if (d.edges.count(e) != edges.count(e)) return "transition printed " + std::to_string(d.edges.count(e)) + " times, not " + std::to_string(edges.count(e)) + ": " + e;
    for (auto& e : d.edges) if (d.edges.count(e) != edges.count(e)) return "a transition is printed that does not exist: " + e;
  }
  return "";
}

template<typename F> static std::string printed(F f)
{
  std::wostringstream os;
  f(os);
  return narrow(os.str());
}

template<typename T> static std::string check_nfa(const NFA<T>& n, const std::string& text, const std::string& prefix = "S", std::map<std::string, std::string> *pn = nullptr, std::multiset<std::string> *pe = nullptr)
{
  std::map<std::string, std::string> nodes;
  std::multiset<std::string> edges;
  auto& N = pn ? *pn : nodes;
  auto& E = pe ? *pe : edges;
  for (int i = 0; i < n.get_state_num(); i++) {
    N[prefix + std::to_string(i)] = "label=\"" + std::to_string(i) + "\", shape=circle";
    for (auto& t : n.get_state(i).get_transitions())
      E.insert(prefix + std::to_string(i) + " -> " + prefix + std::to_string(t.dest()) + " label=\"" + show_class(t.label()) + (t.is_long() ? "\", penwidth=3, arrowsize=3" : "\""));
  }
  return pn ? "" : compare_dot(Dot(text), nodes, edges);
}

template<typename T> static std::string check_dfa(const DFA<T>& d, int num, const std::string& text)
{
  std::map<std::string, std::string> nodes;
  std::multiset<std::string> edges{"SS -> S0 "};
  Dot dot(text);
  for (int i = 0; i < num; i++) {
    std::string name = "S" + std::to_string(i);
    nodes[name] = "*";
    auto it = dot.nodes.find(name);
    if (it == dot.nodes.end()) return "state " + std::to_string(i) + " is not printed";
    bool dbl = it->second.find("shape=doublecircle") != std::string::npos, one = it->second.find("shape=circle") != std::string::npos;
    if (dbl == one || dbl != d.is_accept_state(i)) return "the accepting mark of state " + std::to_string(i) + " is wrong: " + it->second;
    for (auto& t : d.get_transitions(i)) edges.insert(name + " -> S" + std::to_string(t.dest()) + " label=\"" + show_class(t.label()) + "\"");
  }
  return compare_dot(dot, nodes, edges);
}

template<typename T> static std::string check_ldfa(const LookaheadDFA<T>& l, const std::string& text)
{
  std::map<std::string, std::string> nodes;
  std::multiset<std::string> edges;
  std::set<int> answers;
  for (int i = 0; i < l.get_state_num(); i++) {
    std::string name = "S" + std::to_string(i);
    nodes[name] = "label=\"" + std::to_string(i) + "\", shape=circle";
    for (auto& t : l.get_transitions(i)) {
      edges.insert(name + " -> " + (t.dest() < 0 ? "A" + std::to_string(-t.dest()) : "S" + std::to_string(t.dest())) + " label=\"" + show_class(t.label()) + "\"");
      if (t.dest() < 0) answers.insert(-t.dest());
    }
  }
  Dot dot(text);
  // an alternative that is never answered may be listed or not
  for (auto& n : dot.nodes) if (n.first[0] == 'A' && n.second.find("shape=doublecircle") != std::string::npos) answers.insert(atoi(n.first.c_str() + 1));
  for (int a : answers) nodes["A" + std::to_string(a)] = "label=\"" + std::to_string(a) + "\", shape=doublecircle";
  return compare_dot(dot, nodes, edges);
}

template<typename T> static std::string check_catn(const CATNMachine<T>& m, const std::string& text)
{
  std::map<std::string, std::string> nodes;
  std::multiset<std::string> edges;
  for (int i = 0; i < m.get_num_nodes(); i++) {
    std::string name = "N" + std::to_string(i);
    nodes[name] = "label=\"" + (m[i].is_terminal() ? std::to_string(i) : narrow(m[i].get_submachine().str())) + "\"";
    for (auto& t : m[i].get_transitions()) edges.insert(name + " -> N" + std::to_string(t.dest()) + " label=\"" + std::to_string(t.tag()) + ":[" + show_class(t.label()) + "]\"");
  }
  return compare_dot(Dot(text), nodes, edges);
}

// The diagram of a grammar: the machine of a rule, with those of the rules it invokes in place of the invocations
template<typename T> struct GrammarDiagram
{
  const Grammar<T>& g;
  int depth, counter = 0;
  std::vector<std::string> stack;
  std::map<std::string, std::string> nodes;
  std::multiset<std::string> edges;
  bool undefined = false;
  GrammarDiagram(const Grammar<T>& g, int depth) : g(g), depth(depth) {}
  std::pair<std::string, std::string> draw(const std::string& rule)
  {
    std::string prefix = rule + std::to_string(counter++);
    if (!g.get_machines().count(Identifier(widen(rule)))) { undefined = true; return {}; }
    const ATNMachine<T>& m = g[Identifier(widen(rule))];
    std::vector<std::pair<std::string, std::string>> ends;
    for (int i = 0; i < m.get_node_num(); i++) {
      auto& n = m.get_node(i);
      std::string name = prefix + "_N" + std::to_string(i), x = "\", xlabel=\"[" + std::to_string(i) + "]\"";
      std::pair<std::string, std::string> e(name, name);
      if (n.type() == ATNNodeType::Nonterminal) {
        std::string callee = narrow(n.get_invoke().str());
        if ((int)stack.size() < depth && std::find(stack.begin(), stack.end(), callee) == stack.end()) {
          stack.push_back(callee);
          e = draw(callee);
          stack.pop_back();
        } else nodes[name] = "label=\"" + callee + x;
      } else if (n.type() == ATNNodeType::RegularTerminal) {
        check_nfa(n.get_nfa(), "", name + "_S", &nodes, &edges);
        e = {name + "_S0", name + "_S" + std::to_string(n.get_nfa().get_state_num() - 1)};
      } else if (n.type() == ATNNodeType::LiteralTerminal) nodes[name] = "*";
      else nodes[name] = std::string("label=\"") + (n.type() == ATNNodeType::WhiteSpace ? "[ ]" : "") + x;
      ends.push_back(e);
    }
    for (int i = 0; i < m.get_node_num(); i++)
      for (auto& t : m.get_node(i).get_transitions()) edges.insert(ends[i].second + " -> " + ends[t.dest()].first + " label=\"\"");
    return {prefix + "_N0", prefix + "_N" + std::to_string(m.get_node_num() - 1)};
  }
};

static void pattern_case(const std::string& pat)
{
  std::string ct = "pattern " + enc(pat);
  if (!take(ct)) return;
  RegexModel rm(pat);
  if (rm.verdict == RegexModel::MALFORMED) return;
  std::string e;
  try {
    Stream st(widen(pat));
    NFA<char> n(st);
    e = check_nfa(n, printed([&](std::wostream& os) { n.print(os, L"G"); }));
    std::string sub = printed([&](std::wostream& os) { n.print_subgraph(os, 3, L"P"); });
    if (e.empty()) {
      std::map<std::string, std::string> nodes;
      std::multiset<std::string> edges;
      check_nfa(n, "", "P_S", &nodes, &edges);
      e = compare_dot(Dot(sub), nodes, edges);
    }
    for (bool opt : {false, true}) {
      if (!e.empty()) break;
      DFA<char> d(n, opt);
      int num = d.get_state_num();
      std::string t = printed([&](std::wostream& os) { d.print(os, L"G"); });
      e = check_dfa(d, num, t);
      if (e.empty() && printed([&](std::wostream& os) { d.print(os, L"G"); }) != t) e = "printing twice gives two diagrams";
    }
  } catch (const std::exception&) { return; }        // C02's
  if (!e.empty()) violation(e);
  sample(ct);
}

template<typename T> static std::string grammar_prints(const std::string& path, bool optimise, bool all)
{
  std::string err;
  auto g = load<T>(path, err);
  if (!g) return "";
  if (optimise) g->optimize();
  std::string before = dump(*g), e;
  for (int depth = 0; depth <= 3 && e.empty(); depth++) {
    GrammarDiagram<T> d(*g, depth);
    d.draw(narrow(g->get_root_id().str()));
    std::string t;
    try { t = printed([&](std::wostream& os) { g->print_grammar(os, depth, false); }); }
    catch (const std::exception&) { if (!d.undefined) e = "printing the grammar fails"; continue; }
    if (d.undefined) continue;
    e = compare_dot(Dot(t), d.nodes, d.edges);
    if (!e.empty()) e = "grammar, depth " + std::to_string(depth) + ": " + e;
  }
  if (e.empty() && dump(*g) != before) return "printing the grammar changed it";
  CompositeATN<T> catn(*g);
  for (auto& p : *g) {
    if (!e.empty()) break;
    std::string name = narrow(p.first.str());
    e = check_catn(catn[p.first], printed([&](std::wostream& os) { g->print_catn(os, p.first); }));
    if (!e.empty()) { e = "network of " + name + ": " + e; break; }
    for (int i = 0; i < p.second.get_node_num() && e.empty(); i++) {
      ATNPath place(p.first, i);
      auto& n = p.second.get_node(i);
      bool rejected = false;
      try {
        std::string t = printed([&](std::wostream& os) { g->print_nfa(os, place); });
        if (n.type() == ATNNodeType::RegularTerminal) e = check_nfa(n.get_nfa(), t);
      } catch (const std::exception&) { rejected = true; }
      if (rejected != (n.type() != ATNNodeType::RegularTerminal)) e = rejected ? "a recogniser cannot be printed" : "a recogniser is printed for a node that has none";
      if (n.type() == ATNNodeType::RegularTerminal)
        for (bool opt : {false, true}) {
          DFA<T> d(n.get_nfa(), opt);
          if (e.empty()) e = check_dfa(d, d.get_state_num(), printed([&](std::wostream& os) { g->print_dfa(os, place, opt); }));
        }
      if (!e.empty()) { e = name + ":" + std::to_string(i) + ": " + e; break; }
      if (n.get_transitions().size() < 2) continue;
      std::unique_ptr<LookaheadDFA<T>> l;
      try { l.reset(new LookaheadDFA<T>(catn, catn.convert_atn_path(place))); } catch (const std::exception&) {}
      std::string t;
      bool printed_ok = true;
      try { t = printed([&](std::wostream& os) { g->print_ldfa(os, place); }); } catch (const std::exception&) { printed_ok = false; }
      if (printed_ok != (bool)l) e = l ? "the decision cannot be printed" : "a decision that does not exist is printed";
      else if (l) e = check_ldfa(*l, t);
      if (!e.empty()) e = "decision " + name + ":" + std::to_string(i) + ": " + e;
    }
  }
  if (e.empty() && dump(*g) != before) e = "printing changed the grammar";
  return e;
}

static void grammar_case(const std::string& text, const std::string& ct)
{
  if (!take(ct)) return;
  GrammarModel m(text);
  if (m.verdict != GrammarModel::OK || m.rules.empty()) return;
  std::string path = write_file(text);
  std::string e = grammar_prints<char>(path, false, true);
  if (e.empty()) { e = grammar_prints<char>(path, true, true); if (!e.empty()) e = "optimised: " + e; }
  if (e.empty() && S().cases % 8 == 0) { e = grammar_prints<wchar_t>(path, false, true); if (!e.empty()) e = "wide characters: " + e; }
  if (!e.empty()) violation(e);
  sample(ct);
}

int main(int argc, char **argv)
{
  init(argc, argv);
  int more = S().thorough || S().replaying ? 1 : 0;
  all_paths(3, {"A", "B", "AB", "_x9", "a"}, {0, 1, 10, 2147483647}, path_case);
  all_paths(5 + more, {"A", "B"}, {0, 3}, path_case);
  for (const char *alphabet : {"A0./", "A0./-", "a_9./", "A1. \n"}) {
    std::string a = alphabet;
    for_each_string(a, (a.size() == 4 ? 8 : 7) + more, [&](const std::string& t) { path_text(t); return true; });
  }
  for (const char *t : {"A.2147483647", "A.2147483648", "A.99999999999999999999", "A.0/", "/A.0", "A.0//B.1", "A.+1", "A.0\tB", "A.0 ", " A.0", "A.0\r\n", "A.01", "A.0x1", "9A.1", "A-B.1", "A.1.2", "A"}) path_text(t);
  std::vector<PModel> ms;
  std::vector<ATNPath> ps;
  all_paths(2, {"A", "B", "AB", "a"}, {0, 1, 10}, [&](const PModel& p) { ms.push_back(p); });
  all_paths(3, {"A"}, {0, 1, 2}, [&](const PModel& p) { if (p.size() == 3) ms.push_back(p); });
  ms.push_back({});
  for (auto& m : ms) ps.push_back(make(m));
  for (size_t i = 0; i < ps.size(); i++) order_case(i, ms, ps);

  for_each_pattern(5 + more, {"a", "b"}, {"*", "+", "?"}, pattern_case);
  for_each_pattern(3 + more, {"a", ".", "[^a]", "[a-c]", "[\\-\\]x]", "\"", "\\\\", " ", "[\\n\\t]", "\xc3", "[\x7f-\xc0]", "[!-~]"}, {"*", "++", "?"}, pattern_case);
  auto g = [&](const std::string& b) { grammar_case("R :" + b + " ; A : 'x' B ; B : /y+/ | R 'z' ;", "body " + enc(b)); };
  for_each_body(5, {"'a'", "A"}, g);
  for_each_body(4 + more, {"'a'", "/b|c+/", "A", "R"}, g);
  const std::vector<std::string> rules{"S T", "S | T", "( S | T )* 'a'", "R 'a' | S", "/[^\"]*/ | '\"'", "U", "'a' R | ", ""};
  for (auto& r : rules) for (auto& s : rules) for (auto& t : rules) { std::string x = "R : " + r + " ; S : " + s + " ; T : " + t + " ;"; grammar_case(x, "text " + enc(x)); }
  for (auto& f : sample_files()) grammar_case(f.second, "sample " + f.first);
  return finish();
}
