// What a parse of an input is: from the grammar text alone (Deriver), and by interpreting the loaded machines (Interp).
#pragma once
#include "grammar_impl.hpp"
#include "choice_model.hpp"
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"

namespace pm {
using namespace gi;

typedef std::vector<uint64_t> Marks;
inline uint64_t start_mark(int id, size_t pos) { return (uint64_t)1 << 63 | (uint64_t)id << 48 | pos; }
inline uint64_t end_mark(int id, size_t pos) { return (uint64_t)id << 48 | pos; }
inline std::string show(const Marks& m)
{
  std::string r;
  for (uint64_t x : m) {
    if (r.size() > 200) return r + "...";
    r += (x >> 63 ? "<" : ">") + std::to_string(x >> 48 & 0x7fff) + "@" + std::to_string(x & 0xffffffffffffull) + " ";
  }
  return r;
}

// All derivations of a prefix of the input
struct Deriver
{
  const GrammarModel& m;
  const std::string& s;
  bool longest;
  typedef std::pair<size_t, Marks> Result;
  std::set<Result> results;
  Marks trace;
  size_t work = 0;
  int depth = 0;
  bool overflow = false;
  std::map<std::string, int> number;
  std::map<const GNode *, std::map<size_t, std::vector<size_t>>> memo;
  std::map<const GNode *, std::shared_ptr<RegexModel>>& re;
  typedef std::function<void(size_t)> K;

  Deriver(const GrammarModel& m, const std::string& s, bool longest, std::map<const GNode *, std::shared_ptr<RegexModel>>& re) : m(m), s(s), longest(longest), re(re)
  {
    for (size_t i = 0; i < m.rules.size(); i++) number[m.rules[i].name] = (int)i;
    rule(0, 0, [&](size_t end) { results.emplace(end, trace); });
  }
  void rule(int r, size_t pos, const K& k)
  {
    trace.push_back(start_mark(r + 1, pos));
    node(m.rules[r].body, pos, [&](size_t e) { trace.push_back(end_mark(r + 1, e)); k(e); trace.pop_back(); });
    trace.pop_back();
  }
  const std::vector<size_t>& terminal(const GNode& n, size_t pos)
  {
    auto& mm = memo[&n];
    auto it = mm.find(pos);
    if (it != mm.end()) return it->second;
    std::set<size_t> ends;
    size_t p = pos;
    for (;; p++) {
      bool ws = p < s.size() && strchr(" \t\r\n", s[p]);
      if (!longest || !ws) {
        if (n.kind == GNode::LIT) {
          if (s.compare(p, n.text.size(), n.text) == 0) ends.insert(p + n.text.size());
        } else {
          auto& x = re[&n];
          if (!x) x = std::make_shared<RegexModel>(n.text);
          RegexModel::Set st = x->start();
          size_t last = std::string::npos;
          for (size_t q = p;; q++) {
            if (x->accepts(st)) { last = q; if (!longest) ends.insert(q); }
            if (q >= s.size()) break;
            st = x->step(st, (unsigned char)s[q]);
            if (st.none()) break;
          }
          if (longest && last != std::string::npos) ends.insert(last);
        }
      }
      if (!ws) break;
    }
    return mm[pos] = std::vector<size_t>(ends.begin(), ends.end());
  }
  void seq(const GNode& n, size_t i, size_t pos, const K& k)
  {
    if (i == n.kids.size()) { k(pos); return; }
    node(n.kids[i], pos, [&, i](size_t p) { seq(n, i + 1, p, k); });
  }
  void loop(const GNode& n, size_t pos, const K& k)
  {
    k(pos);
    node(n.kids[0], pos, [&](size_t p) { if (p != pos) loop(n, p, k); });
  }
  void node(const GNode& n, size_t pos, const K& k)
  {
    if (overflow || results.size() > 1) return;
    if (++work > 200000 || depth > 300) { overflow = true; return; }
    depth++;
    switch (n.kind) {
    case GNode::SEQ: seq(n, 0, pos, k); break;
    case GNode::ALT: for (auto& x : n.kids) node(x, pos, k); break;
    case GNode::OPT: k(pos); node(n.kids[0], pos, k); break;
    case GNode::STAR: loop(n, pos, k); break;
    case GNode::PLUS: node(n.kids[0], pos, [&](size_t p) { loop(n, p, k); }); break;
    case GNode::REF: rule(number.at(n.text), pos, k); break;
    default: { std::vector<size_t> ends = terminal(n, pos); for (size_t e : ends) k(e); }
    }
    depth--;
  }
};

struct Event { int kind, id; size_t a, b; bool operator==(const Event& o) const { return kind == o.kind && id == o.id && a == o.a && b == o.b; } };
inline std::string show(const std::vector<Event>& v)
{
  std::string r;
  for (auto& e : v) {
    if (r.size() > 200) return r + "...";
    r += (e.kind ? "rule " : "terminal ") + std::to_string(e.id) + "@" + std::to_string(e.a) + (e.kind ? "" : "-" + std::to_string(e.b)) + " ";
  }
  return r;
}

// The machines, interpreted
template<typename T> struct Interp
{
  Grammar<T>& g;
  CompositeATN<T> catn;
  ChoiceModel<T> model;
  std::map<std::pair<int, int>, std::shared_ptr<LookaheadDFA<T>>> cache;
  std::map<std::pair<int, int>, int> ids;          // numbers of terminals
  bool stuck = false;
  const std::string *s = nullptr;
  size_t steps = 0, max_steps = 20000, peek = std::string::npos;
  int depth = 0, max_depth = 500;
  Marks marks;
  std::vector<Event> events;

  Interp(Grammar<T>& g, const GrammarModel& m) : g(g), catn(g), model(g, m)
  {
    for (size_t r = 0; r < model.rules.size(); r++) {
      const ATNMachine<T>& machine = g[Identifier(widen(model.rules[r].name))];
      for (int i = 0; i < machine.get_node_num(); i++) ids[{(int)r, i}] = machine.get_node(i).get_id();
    }
  }
  bool by_model = false;                           // decisions by the model of choices instead of the real automata
  int decide(int r, int i, size_t pos)
  {
    if (by_model) {
      model.nested = model.left_recursive = model.overflow = false;
      auto st = model.root(r, i);
      for (;; pos++) {
        uint64_t may = ChoiceModel<T>::alternatives(st, ChoiceModel<T>::MAY);
        if (model.nested || model.left_recursive || model.overflow) break;
        if (!may) return -1;
        if (!(may & (may - 1))) return __builtin_ctzll(may);
        if (pos >= s->size()) break;
        st = model.step(st, (unsigned char)(*s)[pos]);
      }
      stuck = true;
      return -1;
    }
    auto& d = cache[{r, i}];
    if (!d) d = std::make_shared<LookaheadDFA<T>>(catn, catn.convert_atn_path(ATNPath(Identifier(widen(model.rules[r].name)), i)));
    return d->run(std::basic_string<T>(s->begin() + pos, s->begin() + pos + std::min(peek, s->size() - pos)));
  }
  bool run(int r, const std::string& text, size_t& end)
  {
    s = &text;
    steps = 0;
    depth = 0;
    stuck = false;
    marks.clear();
    events.clear();
    return rule(r, 0, end);
  }
  bool rule(int r, size_t pos, size_t& end)
  {
    if (depth > max_depth) { stuck = true; return false; }
    depth++;
    marks.push_back(start_mark(r + 1, pos));
    int i = 0;
    for (;;) {
      if (++steps > max_steps) { stuck = true; return false; }
      auto& n = model.rules[r].nodes[i];
      if (n.type == (int)ATNNodeType::WhiteSpace) { while (pos < s->size() && strchr(" \t\r\n", (*s)[pos])) pos++; }
      else if (n.type == (int)ATNNodeType::Nonterminal) {
        size_t e;
        if (n.callee < 0) { stuck = true; return false; }
        events.push_back({1, n.callee + 1, pos, 0});
        if (!rule(n.callee, pos, e)) return false;
        pos = e;
      } else if (n.type != (int)ATNNodeType::Blank) {
        size_t from = pos;
        if (n.re) {
          RegexModel::Set st = n.re->start();
          size_t last = std::string::npos;
          for (size_t q = pos;; q++) {
            if (n.re->accepts(st)) last = q;
            if (q >= s->size()) break;
            st = n.re->step(st, (unsigned char)(*s)[q]);
            if (st.none()) break;
          }
          if (last == std::string::npos) return false;
          pos = last;
        } else {
          if (s->compare(pos, n.literal.size(), n.literal) != 0) return false;
          pos += n.literal.size();
        }
        int id = ids[{r, i}];
        if (id >= 0) events.push_back({0, id, from, pos});
      }
      if (n.next.empty()) break;
      int k = 1;
      if (n.next.size() > 1) {
        k = decide(r, i, pos);
        if (k < 1) return false;
        if (k > (int)n.next.size()) { stuck = true; return false; }
      }
      i = n.next[k - 1].first;
    }
    marks.push_back(end_mark(r + 1, pos));
    end = pos;
    depth--;
    return true;
  }
};

inline std::vector<std::vector<std::string>> combine(const std::vector<std::vector<std::string>>& a, const std::vector<std::vector<std::string>>& b, size_t cap)
{
  std::vector<std::vector<std::string>> r;
  for (size_t d = 0; d < a.size() + b.size() && r.size() < cap; d++)
    for (size_t i = 0; i <= d && r.size() < cap; i++)
      if (i < a.size() && d - i < b.size()) { r.push_back(a[i]); r.back().insert(r.back().end(), b[d - i].begin(), b[d - i].end()); }
  return r;
}
// Some sentences of a node, as lists of terminals, in a fixed order
inline std::vector<std::vector<std::string>> sentences(const GrammarModel& m, const GNode& n, int depth, size_t cap)
{
  typedef std::vector<std::vector<std::string>> V;
  switch (n.kind) {
  case GNode::LIT: return {{n.text}};
  case GNode::RE: {
    RegexModel x(n.text);
    V r;
    std::string al = x.alphabet(4);
    for_each_string(al, al.size() > 2 ? 4 : 6, [&](const std::string& t) { if (x.accepts(t)) r.push_back({t}); return r.size() < 3; });
    return r;
  }
  case GNode::REF: {
    if (depth <= 0) return {};
    for (auto& r : m.rules) if (r.name == n.text) return sentences(m, r.body, depth - 1, cap);
    return {};
  }
  case GNode::ALT: {
    std::vector<V> all;
    for (auto& k : n.kids) all.push_back(sentences(m, k, depth, cap));
    V r;
    for (size_t i = 0; i < cap; i++) for (auto& v : all) if (i < v.size() && r.size() < cap) r.push_back(v[i]);
    return r;
  }
  case GNode::SEQ: {
    V r{{}};
    for (auto& k : n.kids) r = combine(r, sentences(m, k, depth, cap), cap);
    return r;
  }
  default: {
    V x = sentences(m, n.kids[0], depth, cap), r;
    if (n.kind != GNode::PLUS) r.push_back({});
    for (auto& v : x) if (r.size() < cap) r.push_back(v);
    if (n.kind != GNode::OPT) for (auto& v : combine(x, combine(x, {{}}, 3), cap)) if (r.size() < cap) r.push_back(v);
    return r;
  }
  }
}

inline std::set<std::string> inputs(const GrammarModel& m, const std::string& alphabet, size_t all, size_t many)
{
  std::set<std::string> r;
  std::vector<std::string> layer{""};
  while (r.size() + layer.size() * alphabet.size() < all || layer[0].size() < 2) {
    std::vector<std::string> next;
    for (auto& s : layer) { r.insert(s); for (char c : alphabet) next.push_back(s + c); }
    layer.swap(next);
  }
  r.insert(layer.begin(), layer.end());
  size_t n = 0;
  for (auto& t : sentences(m, m.rules[0].body, 6, many)) {
    std::string plain, spaced;
    for (auto& x : t) { plain += x; spaced += (n & 1 ? "\n " : " ") + x; }
    r.insert(plain);
    r.insert(spaced);
    r.insert(plain + "a");
    r.insert(plain + plain);
    if (plain.size() > 60 || n++ > many / 2) continue;
    for (size_t i = 0; i < plain.size(); i++) {
      r.insert(plain.substr(0, i));
      r.insert(plain.substr(0, i) + plain.substr(i + 1));
      for (char c : alphabet) {
        std::string s = plain;
        s[i] = c;
        r.insert(s);
        if (n < 6) r.insert(plain.substr(0, i) + c + plain.substr(i));
      }
    }
  }
  return r;
}

} // namespace pm
