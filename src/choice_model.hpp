// What can still be parsed after a choice: an interpreter of rule machines at the level of characters, written
// independently of the composite network. A configuration is an alternative, a stack of invocation sites and a place
// inside a terminal. Below the stack nothing is known: a rule that ends there continues after any of its invocations.
#pragma once
#include "grammar_impl.hpp"

template<typename T> struct ChoiceModel
{
  enum { MUST = 1, MAY = 2 };
  struct Node
  {
    int type;                          // as ATNNodeType
    std::string literal;
    std::shared_ptr<RegexModel> re;
    int callee = -1;                   // rule number, -1 undefined
    std::vector<std::pair<int, int>> next;   // destination, rank
  };
  struct Rule { std::string name; std::vector<Node> nodes; };
  std::vector<Rule> rules;
  std::vector<std::vector<std::pair<int, int>>> sites;     // of each rule
  bool unspecified = false;

  struct Config
  {
    int alt;
    bool pure;                         // only first-ranked ways were taken after the decision
    std::vector<int> stack;            // sites, bottom first: rule << 12 | node
    int rule, node, inner;
    bool operator<(const Config& o) const
    {
      return std::tie(alt, pure, rule, node, inner, stack) < std::tie(o.alt, o.pure, o.rule, o.node, o.inner, o.stack);
    }
    bool operator==(const Config& o) const { return !(*this < o) && !(o < *this); }
  };
  typedef std::map<Config, int> State;       // configuration -> MUST | MAY

  // what was met while building closures
  bool nested = false;                 // one site invoked inside itself
  bool left_recursive = false;         // ... without a character in between
  bool overflow = false;

  ChoiceModel(const Centaurus::Grammar<T>& g, const GrammarModel& m)
  {
    using namespace Centaurus;
    std::map<std::string, int> number;
    for (auto& r : m.rules) { number[r.name] = (int)rules.size(); rules.push_back({r.name, {}}); }
    sites.resize(rules.size());
    // the pattern of a terminal, as written, is needed for the model of it
    for (size_t i = 0; i < rules.size(); i++) {
      std::vector<std::string> pats;
      std::function<void(const GNode&)> rec = [&](const GNode& n) { if (n.kind == GNode::RE) pats.push_back(n.text); for (auto& k : n.kids) rec(k); };
      rec(m.rules[i].body);
      size_t p = 0;
      const ATNMachine<T>& machine = g[Identifier(gi::widen(rules[i].name))];
      for (int k = 0; k < machine.get_node_num(); k++) {
        const ATNNode<T>& nd = machine.get_node(k);
        Node n;
        n.type = (int)nd.type();
        if (nd.type() == ATNNodeType::LiteralTerminal) n.literal = gi::narrow_lit(nd.get_literal());
        if (nd.type() == ATNNodeType::RegularTerminal) {
          if (p >= pats.size()) { unspecified = true; return; }
          n.re = std::make_shared<RegexModel>(*keep.insert(pats[p++]).first);
          if (n.re->verdict != RegexModel::OK) unspecified = true;
        }
        if (nd.type() == ATNNodeType::Nonterminal) {
          auto it = number.find(gi::narrow(nd.get_invoke().str()));
          if (it != number.end()) { n.callee = it->second; sites[it->second].emplace_back((int)i, k); }
        }
        for (auto& t : nd.get_transitions()) n.next.emplace_back(t.dest(), t.tag());
        rules[i].nodes.push_back(n);
      }
      if (p != pats.size()) unspecified = true;
    }
  }

  // Configurations right after the decision at a node took each of its alternatives, closed
  State root(int rule, int node)
  {
    State s;
    auto& next = rules[rule].nodes[node].next;
    for (size_t k = 0; k < next.size(); k++) {
      ranks.resize(std::max(ranks.size(), k + 2));
      ranks[k + 1] = next[k].second;
      Walk w{*this, s, MUST | MAY, {}};
      Config c{(int)k + 1, true, {}, rule, next[k].first, 0};
      w.enter(c, 0);
    }
    return s;
  }
  State step(const State& from, int ch)
  {
    std::vector<std::pair<Config, int>> moved;
    for (auto& p : from) {
      const Config& c = p.first;
      if (c.rule < 0) continue;
      const Node& n = rules[c.rule].nodes[c.node];
      Config d = c;
      if (n.type == (int)Centaurus::ATNNodeType::WhiteSpace) {
        if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') moved.emplace_back(d, p.second);
      } else if (n.re) {
        RegexModel::Set s;
        s[c.inner] = true;
        s = n.re->step(s, ch);
        for (size_t q = 1; q <= n.re->pos.size(); q++) if (s[q]) { d.inner = (int)q; moved.emplace_back(d, p.second); }
      } else if (c.inner < (int)n.literal.size() && (unsigned char)n.literal[c.inner] == ch) {
        d.inner++;
        moved.emplace_back(d, p.second);
      }
    }
    // an alternative that certainly takes the character and ranks higher rules out the lower ones; one that may
    // makes the lower ones uncertain
    int best_must = 1 << 30, best_may = 1 << 30;
    for (auto& p : moved) {
      int r = ranks[p.first.alt];
      if (p.second & MUST) best_must = std::min(best_must, r);
      best_may = std::min(best_may, r);
    }
    State s;
    for (auto& p : moved) {
      int r = ranks[p.first.alt];
      if (r > best_must) continue;
      int flag = p.second;
      if (r > best_may) flag &= ~MUST;
      Walk w{*this, s, flag, {}};
      // whatever follows, this alternative took the character
      Config took{p.first.alt, p.first.pure, {}, -1, 0, 0};
      w.put(took);
      w.place(p.first, (int)p.first.stack.size());
    }
    return s;
  }
  // the alternatives that are possible, as a bit set
  static uint64_t alternatives(const State& s, int flag)
  {
    uint64_t r = 0;
    for (auto& p : s) if (p.second & flag) r |= 1ull << p.first.alt;
    return r;
  }
  std::string alphabet() const
  {
    std::string r;
    std::set<std::string> seen;
    auto signature = [&](int ch) {
      std::string s;
      for (auto& ru : rules) for (auto& n : ru.nodes) {
        if (n.re) for (auto& p : n.re->pos) s += p.contains(ch) ? '1' : '0';
        for (unsigned char c : n.literal) s += c == ch ? '1' : '0';
      }
      return s + (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n' ? 'w' : '.');
    };
    // one character of each kind, a line break if blanks are not told apart
    for (int ch = 1; ch < 255; ch++) if (seen.insert(signature(ch)).second) r += (char)ch;
    return r;
  }

private:
  std::set<std::string> keep;
  std::vector<int> ranks;

  struct Walk
  {
    ChoiceModel& m;
    State& out;
    int flag;
    std::set<std::tuple<bool, std::vector<int>, int, int, int>> seen;    // phase 0 enter, 1 leave

    bool mark(const Config& c, int phase) { return seen.emplace(c.pure, c.stack, c.rule, c.node, phase).second; }
    void put(const Config& c)
    {
      int& f = out[c];
      f |= flag & (c.pure ? MUST | MAY : MAY);
    }
    // `base`: size of the stack that existed before the last character
    void place(const Config& c, int base)
    {
      const Node& n = m.rules[c.rule].nodes[c.node];
      if (n.type == (int)Centaurus::ATNNodeType::WhiteSpace) { put(c); leave(c, base); return; }
      if (n.re) {
        put(c);
        RegexModel::Set s;
        s[c.inner] = true;
        if (n.re->accepts(s)) leave(c, base);
        return;
      }
      if (c.inner < (int)n.literal.size()) put(c);
      else leave(c, base);
    }
    void enter(Config c, int base)
    {
      if (m.overflow || !mark(c, 0)) return;
      if (seen.size() > 3000) { m.overflow = true; return; }
      const Node& n = m.rules[c.rule].nodes[c.node];
      c.inner = 0;
      switch ((Centaurus::ATNNodeType)n.type) {
      case Centaurus::ATNNodeType::Blank: leave(c, base); break;
      case Centaurus::ATNNodeType::Nonterminal: {
        if (n.callee < 0) return;
        int site = c.rule << 12 | c.node;
        for (size_t k = 0; k < c.stack.size(); k++)
          if (c.stack[k] == site) {
            m.nested = true;
            if ((int)k >= base) { m.left_recursive = true; return; }
          }
        c.stack.push_back(site);
        if (c.stack.size() > 24) { m.overflow = true; return; }
        c.rule = n.callee;
        c.node = 0;
        enter(c, base);
        break;
      }
      default: place(c, base);
      }
    }
    void leave(Config c, int base)
    {
      if (m.overflow || !mark(c, 1)) return;
      const Node& n = m.rules[c.rule].nodes[c.node];
      if (n.next.empty()) {
        if (!c.stack.empty()) {
          int site = c.stack.back();
          c.stack.pop_back();
          c.rule = site >> 12;
          c.node = site & 4095;
          leave(c, std::min(base, (int)c.stack.size()));
        } else
          for (auto& s : m.sites[c.rule]) {
            Config d = c;
            d.rule = s.first;
            d.node = s.second;
            leave(d, 0);
          }
        return;
      }
      for (auto& t : n.next) {
        Config d = c;
        d.node = t.first;
        if (t.second != 0) d.pure = false;
        enter(d, base);
      }
    }
  };
};
