// The meaning of grammar text, written from the notation alone (see DESIGN.md). A recursive-descent reader of the whole
// notation gives either a model of the grammar or the position of the first character that cannot stand where it stands.
//
//   file      = ( "grammar" Name ";" | "include" '"' path '"' ";" | Name ":" choice ";" )*
//   choice    = sequence ( ("|" | "|>") sequence )*        rank of an alternative = number of "|>" before it
//   sequence  = item*
//   item      = ( "(" choice ")" | ( Name | '/' regex '/' | literal ) [ "{" digits "}" ] ) [ "*" | "+" | "?" ]
// White space and comments may stand between any two tokens.
#pragma once

#include "regex_model.hpp"
#include <map>
#include <algorithm>
#include <functional>

struct GNode
{
  enum Kind { SEQ, ALT, STAR, PLUS, OPT, LIT, RE, REF } kind;
  std::vector<GNode> kids;
  std::vector<int> rank;       // ALT: rank of each alternative
  std::string text;            // LIT, RE, REF
  int id = -1;                 // the number in braces
  int serial = -1;
};

struct GRule { std::string name; GNode body; };

struct GrammarModel
{
  enum Verdict { OK, MALFORMED, UNSPECIFIED };
  struct Bad { size_t at; };
  struct Unspecified {};

  Verdict verdict = OK;
  size_t error_at = 0;                // MALFORMED: offset of the offending character (text.size() = end of file; npos: not UTF-8)
  std::vector<GRule> rules;           // in order of definition, repeated names dropped
  std::vector<std::string> includes;
  std::string grammar_name;
  bool repeated = false;
  typedef std::function<bool(const std::string& path, GrammarModel& into)> Includer;   // false: cannot be read
  Includer includer;

  explicit GrammarModel(const std::string& text, Includer inc = Includer()) : includer(inc) { read(text); }

  const GRule *find(const std::string& name) const
  {
    for (auto& r : rules) if (r.name == name) return &r;
    return nullptr;
  }

private:
  const std::string *t = nullptr;
  size_t i = 0;

  void read(const std::string& text)
  {
    const std::string *saved_t = t;
    size_t saved_i = i;
    t = &text;
    i = 0;
    // the text is UTF-8; where it is not, no line is promised
    if (!utf8(text)) { verdict = MALFORMED; error_at = std::string::npos; t = saved_t; i = saved_i; return; }
    try { file(); }
    catch (const Bad& b) { verdict = MALFORMED; error_at = b.at; }
    catch (const Unspecified&) { verdict = UNSPECIFIED; }
    t = saved_t;
    i = saved_i;
  }
  static bool utf8(const std::string& s)
  {
    for (size_t k = 0; k < s.size();) {
      unsigned char c = s[k];
      int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
      if (n < 0) return false;
      for (int j = 1; j <= n; j++) if (k + j >= s.size() || ((unsigned char)s[k + j] & 0xc0) != 0x80) return false;
      k += n + 1;
    }
    return true;
  }
  int peek(size_t k = 0) const { return i + k < t->size() ? (unsigned char)(*t)[i + k] : -1; }
  [[noreturn]] void bad() const { throw Bad{i}; }
  static bool letter(int c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  static bool digit(int c) { return c >= '0' && c <= '9'; }

  void layout()
  {
    for (;;) {
      int c = peek();
      if (c == 0) throw Unspecified();          // NUL in a grammar
      if (c == ' ' || (c >= '\t' && c <= '\r')) i++;
      else if (c == '/' && peek(1) == '/') {
        while (peek() != -1 && peek() != '\n' && peek() != '\r') { if (peek() == 0 || peek() >= 0x80) throw Unspecified(); i++; }
      } else if (c == '/' && peek(1) == '*') {
        i += 2;
        while (!(peek() == '*' && peek(1) == '/')) { if (peek() == -1) bad(); if (peek() == 0) throw Unspecified(); i++; }
        i += 2;
      } else return;
    }
  }
  std::string name()
  {
    if (!letter(peek())) bad();
    std::string r;
    while (letter(peek()) || digit(peek())) r += (char)(*t)[i++];
    return r;
  }
  void expect(int c) { layout(); if (peek() != c) bad(); i++; }

  void file()
  {
    for (;;) {
      layout();
      if (peek() == -1) return;
      std::string id = name();
      if (id == "grammar") {
        layout();
        grammar_name = name();
        expect(';');
      } else if (id == "include") {
        layout();
        if (peek() != '"') bad();
        i++;
        std::string path;
        while (peek() != '"') {
          if (peek() == -1) bad();
          if (peek() == 0 || peek() >= 0x80 || peek() == '\r') throw Unspecified();
          path += (char)(*t)[i++];
        }
        i++;
        expect(';');
        includes.push_back(path);
        if (!includer || !includer(path, *this)) throw Bad{i};
        if (verdict != OK) return;
      } else {
        GRule r;
        r.name = id;
        expect(':');
        r.body = choice(0);
        expect(';');
        if (find(id)) repeated = true;
        else rules.push_back(r);
      }
    }
  }
  GNode choice(int depth)
  {
    GNode n;
    n.kind = GNode::ALT;
    int rank = 0;
    for (;;) {
      n.kids.push_back(sequence(depth));
      n.rank.push_back(rank);
      layout();
      int c = peek();
      // sequence() ends only at one of | ) ;
      if (c != '|') {
        if (c == ')' && depth == 0) { /* reported by the caller, which expects ';' */ }
        if (c == ';' && depth > 0) { /* likewise, which expects ')' */ }
        return n;
      }
      i++;
      if (peek() == '>') { i++; rank++; }
    }
  }
  GNode sequence(int depth)
  {
    GNode n;
    n.kind = GNode::SEQ;
    for (;;) {
      layout();
      int c = peek();
      if (c == '|' || c == ')' || c == ';') return n;
      n.kids.push_back(item(depth));
    }
  }
  GNode item(int depth)
  {
    GNode a;
    int c = peek();
    if (c == '(') {
      i++;
      a = choice(depth + 1);
      expect(')');
    } else {
      if (letter(c)) { a.kind = GNode::REF; a.text = name(); }
      else if (c == '\'' || c == '"') {
        a.kind = GNode::LIT;
        i++;
        while (peek() != c) {
          if (peek() == -1) bad();
          if (peek() == 0 || peek() >= 0x80) throw Unspecified();
          if (peek() == '\r') throw Unspecified();
          a.text += (char)(*t)[i++];
        }
        i++;
      } else if (c == '/') {
        a.kind = GNode::RE;
        i++;
        regex(a.text);
      } else bad();
      layout();
      if (peek() == '{') {
        i++;
        layout();
        if (peek() == '}') bad();
        long id = 0;
        bool any = false;
        while (digit(peek())) { id = id * 10 + (peek() - '0'); any = true; i++; if (id > 1000000000) throw Unspecified(); }
        layout();
        if (peek() != '}') bad();
        if (!any) throw Unspecified();
        i++;
        a.id = (int)id;
      }
    }
    layout();
    c = peek();
    if (c == '*' || c == '+' || c == '?') {
      i++;
      GNode q;
      q.kind = c == '*' ? GNode::STAR : c == '+' ? GNode::PLUS : GNode::OPT;
      q.kids.push_back(a);
      return q;
    }
    return a;
  }
  // the text up to the '/' that ends the regular expression; errors inside it are found by reading it
  void regex(std::string& out)
  {
    size_t start = i;
    int depth = 0;
    for (;;) {
      int c = peek();
      if (c == -1) bad();                         // never closed
      if (c == 0 || c >= 0x80 || c == '\r') throw Unspecified();
      if (c == '\\') {
        int e = peek(1);
        if (e == -1) { i++; bad(); }
        if (std::string("[]+*{}?\\|().").find((char)e) == std::string::npos) { i++; bad(); }
        i += 2;
      } else if (c == '[') {
        i++;
        if (peek() == '^') i++;
        // state: 0 = an item may start, 1 = after a character, 2 = after its '-'
        int state = 0;
        int from = -1;
        while (peek() != ']') {
          int ch = peek();
          if (ch == -1) bad();
          if (ch == 0 || ch >= 0x80 || ch == '\r') throw Unspecified();
          bool dash = ch == '-';
          int val = ch;
          if (ch == '\\') {
            int e = peek(1);
            if (e == -1 || std::string("\\-[]tTrRnN").find((char)e) == std::string::npos) { i++; bad(); }
            i++;
            dash = false;
            val = e == 't' || e == 'T' ? '\t' : e == 'r' || e == 'R' ? '\r' : e == 'n' || e == 'N' ? '\n' : e;
          }
          if (dash && state != 1) bad();
          if (dash) state = 2;
          else if (state == 2) { if (val < from) throw Unspecified(); state = 0; }
          else { from = val; state = 1; }
          i++;
        }
        if (state == 2) bad();
        i++;
      } else if (c == '/') {
        if (depth) throw Unspecified();
        break;
      } else if (c == '(') { depth++; i++; }
      else if (c == ')') { if (--depth < 0) throw Unspecified(); i++; }
      else i++;
    }
    out = t->substr(start, i - start);
    i++;
    RegexModel m(out);
    if (m.verdict != RegexModel::OK) throw Unspecified();
  }
};

// Number of the line on which a character stands: LF, CR LF and CR each end a line
inline int line_of(const std::string& text, size_t at)
{
  int line = 1;
  for (size_t k = 0; k < at && k < text.size(); k++) {
    if (text[k] == '\n') line++;
    else if (text[k] == '\r' && !(k + 1 < text.size() && text[k + 1] == '\n')) line++;
  }
  return line;
}

inline std::string regex_signature(const std::function<bool(const std::string&)>& accepts, const std::string& alphabet)
{
  std::string sig;
  for_each_string(alphabet, 3, [&](const std::string& s) { sig += accepts(s) ? '1' : '0'; return true; });
  return sig;
}

// A finite automaton over symbols, as sets of "what comes next"; used for both the model and the loaded machine.
struct SymbolAutomaton
{
  std::vector<std::string> symbol;            // of position p (1-based; index 0 unused)
  std::vector<std::set<int>> follow;          // follow[p]; 0 in the set = the rule may end here
  std::set<int> start;
  std::map<std::string, std::set<int>> step(const std::set<int>& next) const
  {
    std::map<std::string, std::set<int>> r;
    for (int p : next) if (p) r[symbol[p]].insert(follow[p].begin(), follow[p].end());
    return r;
  }
};

// The minimal deterministic automaton for what may follow, in a canonical spelling: two are equal iff the languages are.
inline std::string canonical(const SymbolAutomaton& a, const std::set<int>& from, uint64_t& states)
{
  std::map<std::set<int>, int> ids{{from, 0}};
  std::vector<std::set<int>> order{from};
  std::vector<std::map<std::string, int>> tr;
  for (size_t k = 0; k < order.size(); k++) {
    tr.emplace_back();
    for (auto& p : a.step(order[k])) {
      auto r = ids.emplace(p.second, (int)order.size());
      if (r.second) order.push_back(p.second);
      tr[k][p.first] = r.first->second;
    }
  }
  states += order.size();
  // partition refinement
  std::vector<int> cls(order.size());
  for (size_t k = 0; k < order.size(); k++) cls[k] = order[k].count(0) ? 1 : 0;
  for (size_t n = 0;;) {
    std::map<std::pair<int, std::map<std::string, int>>, int> sig;
    std::vector<int> next(order.size());
    for (size_t k = 0; k < order.size(); k++) {
      std::map<std::string, int> m;
      for (auto& p : tr[k]) m[p.first] = cls[p.second];
      next[k] = sig.emplace(std::make_pair(cls[k], m), (int)sig.size()).first->second;
    }
    cls = next;
    if (sig.size() == n) break;
    n = sig.size();
  }
  std::map<int, int> num;
  std::vector<int> todo{0};
  num[cls[0]] = 0;
  std::string out;
  for (size_t k = 0; k < todo.size(); k++) {
    int s = todo[k];
    out += order[s].count(0) ? "!" : ".";
    for (auto& p : tr[s]) {
      auto r = num.emplace(cls[p.second], (int)todo.size());
      if (r.second) todo.push_back(p.second);
      out += p.first + ">" + std::to_string(r.first->second) + " ";
    }
    out += ";";
  }
  return out;
}

// A choice: the rank of each alternative and everything that can follow from it to the end of the rule
typedef std::vector<std::pair<int, std::set<int>>> Choice;

struct RuleModel : SymbolAutomaton
{
  std::vector<Choice> selections;      // choices written with '|'
  size_t loops = 0;                    // choices made by * + ?
  std::function<std::string(const GNode&)> name;

  RuleModel(const GRule& r, bool whitespace, std::function<std::string(const GNode&)> name) : name(name), whitespace(whitespace)
  {
    symbol.resize(1);
    follow.resize(1);
    std::set<int> end{0};
    start = build(r.body, end, true);
    // follow sets of loops refer to themselves: repeat until nothing changes
    for (bool changed = true; changed;) {
      std::vector<std::set<int>> before = follow;
      std::map<const GNode *, std::set<int>> loops_before = loop_first;
      pos = 0;
      start = build(r.body, end, false);
      changed = before != follow || loops_before != loop_first;
    }
    // and once more for the choices, now that everything is known
    selections.clear();
    loops = 0;
    pos = 0;
    recording = true;
    build(r.body, end, false);
  }
private:
  bool whitespace, recording = false;
  int pos = 0;
  std::map<const GNode *, std::set<int>> loop_first;

  int position(const std::string& s, bool fresh)
  {
    pos++;
    if (fresh) { symbol.push_back(s); follow.emplace_back(); }
    return pos;
  }
  // the set of positions a node can start with, given what can follow it
  std::set<int> build(const GNode& n, const std::set<int>& after, bool fresh)
  {
    switch (n.kind) {
    case GNode::SEQ: {
      // positions are numbered left to right, so the items are numbered before they are connected
      if (fresh) { for (auto& k : n.kids) build(k, after, true); return {}; }
      std::set<int> next = after;
      std::vector<int> at;
      int p = pos;
      for (auto& k : n.kids) { at.push_back(p); p += count(k); }
      for (size_t k = n.kids.size(); k-- > 0;) { pos = at[k]; next = build(n.kids[k], next, false); }
      pos = p;
      return next;
    }
    case GNode::ALT: {
      std::set<int> r;
      Choice c;
      for (size_t k = 0; k < n.kids.size(); k++) {
        std::set<int> f = build(n.kids[k], after, fresh);
        c.emplace_back(n.rank[k], f);
        r.insert(f.begin(), f.end());
      }
      if (recording && n.kids.size() > 1) selections.push_back(c);
      return r;
    }
    case GNode::STAR: case GNode::PLUS: {
      std::set<int>& known = loop_first[&n];
      std::set<int> a = after;
      a.insert(known.begin(), known.end());
      std::set<int> f = build(n.kids[0], a, fresh);
      if (!fresh) known.insert(f.begin(), f.end());
      if (recording) loops += n.kind == GNode::STAR ? 2 : 1;
      if (n.kind == GNode::STAR) f.insert(after.begin(), after.end());
      return f;
    }
    case GNode::OPT: {
      std::set<int> f = build(n.kids[0], after, fresh);
      f.insert(after.begin(), after.end());
      if (recording) loops++;
      return f;
    }
    case GNode::LIT: case GNode::RE: {
      int w = whitespace ? position("W", fresh) : 0;
      int p = position(name(n), fresh);
      follow[p] = after;
      if (w) { follow[w] = {p}; return {w}; }
      return {p};
    }
    case GNode::REF: {
      int p = position(name(n), fresh);
      follow[p] = after;
      return {p};
    }
    }
    return {};
  }
  int count(const GNode& n) const
  {
    int c = 0;
    for (auto& k : n.kids) c += count(k);
    if (n.kind == GNode::LIT || n.kind == GNode::RE) c += whitespace ? 2 : 1;
    if (n.kind == GNode::REF) c += 1;
    return c;
  }
};
