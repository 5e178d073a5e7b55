// What the loaded grammar says, read through the public interface of the real classes.
#pragma once

#include "Grammar.hpp"
#include "grammar_model.hpp"
#include "mc.hpp"

#include <fstream>
#include <memory>
#include <sys/stat.h>

namespace gi {
using namespace Centaurus;
using namespace mc;

inline std::string scratch()
{
  static std::string dir;
  if (dir.empty()) {
    const char *base = getenv("MC_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/g" + std::to_string(getpid());
    mkdir(t.c_str(), 0700);
    dir = t;
  }
  return dir;
}
inline std::string write_file(const std::string& text, const std::string& name = "g.cgr")
{
  std::string path = scratch() + "/" + name;
  FILE *f = fopen(path.c_str(), "wb");
  if (!f || fwrite(text.data(), 1, text.size(), f) != text.size()) abort();
  fclose(f);
  return path;
}
inline std::string narrow(const std::wstring& w)
{
  std::string r;
  for (wchar_t c : w) { if (c < 0x80) r += (char)c; else r += "\\u" + std::to_string((long)c); }
  return r;
}
template<typename T> std::string narrow_lit(const std::basic_string<T>& w)
{
  std::string r;
  for (T c : w) r += (char)c;
  return r;
}
inline std::wstring widen(const std::string& s) { return std::wstring(s.begin(), s.end()); }

// The alphabet on which the regular expressions of a grammar are told apart
inline std::string regex_alphabet(const GrammarModel& m)
{
  std::string r;
  std::function<void(const GNode&)> rec = [&](const GNode& n) {
    if (n.kind == GNode::RE)
      for (char c : n.text)
        if (isalnum((unsigned char)c) || strchr("\"<>-+. =,'", c)) if (r.find(c) == std::string::npos && r.size() < 6) r += c;
    for (auto& k : n.kids) rec(k);
  };
  for (auto& x : m.rules) rec(x.body);
  if (r.find('b') == std::string::npos) r += 'b';
  return r;
}

struct Names
{
  std::string alphabet;
  std::map<std::string, std::string> cache;       // regex text -> signature
  bool ids = true;
  std::string operator()(const GNode& n)
  {
    std::string id = ids && n.id >= 0 ? "{" + std::to_string(n.id) + "}" : "";
    switch (n.kind) {
    case GNode::LIT: return "L:" + enc(n.text) + id;
    case GNode::REF: return "N:" + n.text + id;
    default: {
      std::string& s = cache[n.text];
      if (s.empty()) {
        RegexModel m(n.text);
        s = "R:" + regex_signature([&](const std::string& t) { return m.accepts(t); }, alphabet);
      }
      return s + id;
    }
    }
  }
};

template<typename T> struct MachineAutomaton : SymbolAutomaton
{
  const ATNMachine<T>& m;
  std::string error;
  // one choice per node with more than one transition
  std::vector<std::pair<int, Choice>> choices;

  MachineAutomaton(const ATNMachine<T>& m, const std::string& alphabet, std::map<std::string, std::string> *nfa_cache = nullptr) : m(m)
  {
    int n = m.get_node_num();
    symbol.resize(n + 1);
    follow.resize(n + 1);
    if (n < 1) { error = "a machine without nodes"; return; }
    for (int i = 0; i < n; i++)
      for (auto& t : m.get_node(i).get_transitions())
        if (t.dest() < 0 || t.dest() >= n) { error = "node " + std::to_string(i) + " leads to a node which does not exist"; return; }
    for (int i = 0; i < n; i++) {
      auto& nd = m.get_node(i);
      std::string id = nd.get_id() >= 0 ? "{" + std::to_string(nd.get_id()) + "}" : "";
      switch (nd.type()) {
      case ATNNodeType::Blank: break;
      case ATNNodeType::Nonterminal: symbol[i + 1] = "N:" + narrow(nd.get_invoke().str()) + id; break;
      case ATNNodeType::LiteralTerminal: symbol[i + 1] = "L:" + enc(narrow_lit(nd.get_literal())) + id; break;
      case ATNNodeType::WhiteSpace: symbol[i + 1] = "W"; break;
      case ATNNodeType::RegularTerminal:
        symbol[i + 1] = "R:" + regex_signature([&](const std::string& s) {
          std::basic_string<T> w;
          for (unsigned char c : s) w += (T)c;
          return nd.get_nfa().run(w); }, alphabet) + id;
        break;
      }
    }
    for (int i = 0; i < n; i++) {
      for (auto& t : m.get_node(i).get_transitions()) { auto c = closure(t.dest()); follow[i + 1].insert(c.begin(), c.end()); }
      if (m.get_node(i).get_transitions().empty()) follow[i + 1].insert(0);
      if (m.get_node(i).get_transitions().size() > 1) {
        Choice c;
        for (auto& t : m.get_node(i).get_transitions()) c.emplace_back(t.tag(), closure(t.dest()));
        choices.emplace_back(i, c);
      }
    }
    start = closure(0);
  }
  std::set<int> closure(int node) const
  {
    std::set<int> r, seen;
    std::vector<int> todo{node};
    while (!todo.empty()) {
      int i = todo.back();
      todo.pop_back();
      if (!seen.insert(i).second) continue;
      auto& nd = m.get_node(i);
      if (nd.type() != ATNNodeType::Blank) { r.insert(i + 1); continue; }
      if (nd.get_transitions().empty()) r.insert(0);
      for (auto& t : nd.get_transitions()) todo.push_back(t.dest());
    }
    return r;
  }
};

inline std::string show_path(const std::vector<std::string>& p)
{
  std::string r;
  for (auto& s : p) r += (r.empty() ? "" : " ") + (s.size() > 40 ? s.substr(0, 40) + "..." : s);
  return r.empty() ? "the empty sequence" : r;
}

// The product of two symbol automata; "" if they have the same language
inline std::string compare_languages(const SymbolAutomaton& a, const std::string& an, const SymbolAutomaton& b, const std::string& bn)
{
  std::map<std::pair<std::set<int>, std::set<int>>, std::vector<std::string>> seen;
  std::vector<std::pair<std::set<int>, std::set<int>>> todo;
  auto reach = [&](const std::set<int>& x, const std::set<int>& y, const std::vector<std::string>& path) {
    if (seen.emplace(std::make_pair(x, y), path).second) { todo.emplace_back(x, y); S().states++; }
  };
  reach(a.start, b.start, {});
  for (size_t k = 0; k < todo.size(); k++) {
    auto x = todo[k].first, y = todo[k].second;
    auto path = seen[todo[k]];
    if (x.count(0) != y.count(0)) return show_path(path) + " is a sentence only for " + (x.count(0) ? an : bn);
    auto sx = a.step(x), sy = b.step(y);
    for (auto& p : sx) {
      S().transitions++;
      auto np = path;
      np.push_back(p.first);
      auto q = sy.find(p.first);
      if (q == sy.end()) return show_path(np) + " starts a sentence only for " + an;
      reach(p.second, q->second, np);
    }
    for (auto& p : sy)
      if (!sx.count(p.first)) { auto np = path; np.push_back(p.first); return show_path(np) + " starts a sentence only for " + bn; }
  }
  return "";
}

template<typename T> std::unique_ptr<Grammar<T>> load(const std::string& path, std::string& error)
{
  std::unique_ptr<Grammar<T>> g(new Grammar<T>());
  error.clear();
  try { g->parse(path.c_str()); }
  catch (const std::exception& e) { error = e.what(); if (error.empty()) error = "exception"; g.reset(); }
  return g;
}

static std::vector<std::pair<std::string, int>> enumerated;
inline void CENTAURUS_CALLBACK enum_cb(const wchar_t *name, int id) { enumerated.emplace_back(narrow(name), id); }

// Names, numbers and the root, against the model; "" if they agree
template<typename T> std::string compare_tables(const Grammar<T>& g, const GrammarModel& m)
{
  if (g.get_machine_num() != (int)m.rules.size()) return "there are " + std::to_string(g.get_machine_num()) + " rules, written are " + std::to_string(m.rules.size());
  enumerated.clear();
  g.enum_machines(enum_cb);
  if (enumerated.size() != m.rules.size()) return "enumeration gives " + std::to_string(enumerated.size()) + " rules";
  for (size_t i = 0; i < m.rules.size(); i++) {
    auto& name = m.rules[i].name;
    if (enumerated[i] != std::make_pair(name, (int)i + 1)) return "enumeration gives " + enumerated[i].first + " = " + std::to_string(enumerated[i].second) + " at place " + std::to_string(i);
    if (narrow(g.lookup_id((int)i).str()) != name) return "lookup_id(" + std::to_string(i) + ") is " + narrow(g.lookup_id((int)i).str());
    Identifier id(widen(name));
    try {
      if (g.get_machine_id(id) != (int)i + 1) return "rule " + name + " has number " + std::to_string(g.get_machine_id(id)) + ", it is definition " + std::to_string(i + 1);
      if (g[id].get_unique_id() != (int)i + 1) return "the machine of " + name + " has number " + std::to_string(g[id].get_unique_id());
    } catch (const std::exception&) { return "rule " + name + " cannot be looked up"; }
  }
  std::set<std::string> listed;
  for (auto& p : g) listed.insert(narrow(p.first.str()));
  for (auto& r : m.rules) if (!listed.count(r.name)) return "rule " + r.name + " is not listed";
  if (listed.size() != m.rules.size() || g.get_machines().size() != m.rules.size()) return "more rules are listed than were written";
  if (!m.rules.empty() && narrow(g.get_root_id().str()) != m.rules[0].name) return "the root is " + narrow(g.get_root_id().str());
  return "";
}

template<typename T> std::string compare_rules(const Grammar<T>& g, const GrammarModel& m, bool choices)
{
  Names names;
  names.alphabet = regex_alphabet(m);
  for (auto& r : m.rules) {
    const ATNMachine<T> *machine;
    try { machine = &g[Identifier(widen(r.name))]; } catch (const std::exception&) { return "rule " + r.name + " is missing"; }
    RuleModel rm(r, true, std::ref(names));
    MachineAutomaton<T> ma(*machine, names.alphabet);
    if (!ma.error.empty()) return r.name + ": " + ma.error;
    std::string e = compare_languages(rm, "the rule as written", ma, "the machine");
    if (!e.empty()) return r.name + ": " + e;
    if (!choices) continue;
    // every selection as written must be a choice of the machine: same alternatives, same order, same ranks
    auto spell = [&](const SymbolAutomaton& a, const Choice& c) {
      std::string s;
      for (auto& alt : c) s += std::to_string(alt.first) + ":" + canonical(a, alt.second, S().states) + " / ";
      return s;
    };
    std::multiset<std::string> have;
    for (auto& c : ma.choices) have.insert(spell(ma, c.second));
    for (auto& c : rm.selections) {
      S().transitions++;
      auto it = have.find(spell(rm, c));
      if (it == have.end()) return r.name + ": no choice of the machine has the alternatives and ranks of a selection as written: " + spell(rm, c);
      have.erase(it);
    }
    // what is left are the choices of loops and options, which carry no rank
    for (auto& c : ma.choices) {
      std::string s = spell(ma, c.second);
      auto it = have.find(s);
      if (it == have.end()) continue;
      have.erase(it);
      for (auto& alt : c.second) if (alt.first != 0) return r.name + ": a choice that is not an ordered one carries ranks: " + s;
    }
  }
  return "";
}

template<typename T> std::string dump(const Grammar<T>& g)
{
  std::ostringstream os;
  enumerated.clear();
  g.enum_machines(enum_cb);
  os << "root " << narrow(g.get_root_id().str()) << "\n";
  for (auto& e : enumerated) {
    os << e.first << " " << e.second << "\n";
    const ATNMachine<T>& m = g[Identifier(widen(e.first))];
    for (int i = 0; i < m.get_node_num(); i++) {
      auto& n = m.get_node(i);
      os << " " << i << " type " << (int)n.type() << " id " << n.get_id() << " " << narrow(n.get_invoke().str()) << " '" << enc(narrow_lit(n.get_literal())) << "'";
      for (auto& t : n.get_transitions()) os << " >" << t.dest() << "/" << t.tag();
      if (n.type() == ATNNodeType::RegularTerminal)
        for (int s = 0; s < n.get_nfa().get_state_num(); s++) {
          os << " s" << s;
          for (auto& t : n.get_nfa().get_state(s).get_transitions()) {
            os << ">" << t.dest();
            for (auto& r : t.label()) os << "[" << (long)r.start() << "," << (long)r.end() << ")";
          }
        }
      os << "\n";
    }
  }
  return os.str();
}

} // namespace gi
