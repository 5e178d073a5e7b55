// The meaning of the regular-expression notation, written from the notation alone (see DESIGN.md):
//   regex  = selection*                     (sequence; '|' binds tighter than sequence)
//   select = unit ('|' unit)*
//   unit   = atom quantifier?               quantifier: + ++ +? +* * *+ *? ** ? ?? ?*
//   atom   = character | escape | '.' | class | '(' regex ')'
// The model is a position (Glushkov) automaton, simulated on sets of positions.
#pragma once

#include "class_model.hpp"
#include <bitset>
#include <memory>
#include <cstdint>

struct RegexModel
{
  enum Verdict { OK, MALFORMED, UNSPECIFIED };
  static const int MAXPOS = 192;
  typedef std::bitset<MAXPOS> Set;       // bit 0 = start, bit i = position i

  struct Frag { bool nullable = true; Set first, last; };
  std::vector<ClassModel> pos;           // pos[i-1] = characters of position i
  std::vector<Set> follow;
  Verdict verdict = OK;
  Frag whole;
  mutable std::vector<Set> match;        // positions that take a character
  size_t end = 0;                        // where the expression ended in the text

  explicit RegexModel(const std::string& text, size_t from = 0) : text(text), i(from)
  {
    follow.resize(1);
    whole = regex(0);
    end = i;
    if (pos.size() + 1 >= MAXPOS) verdict = UNSPECIFIED;
  }
  Set start() const { Set s; s[0] = true; return s; }
  bool accepts(const Set& s) const { return (s[0] && whole.nullable) || (s & whole.last).any(); }
  Set step(const Set& s, int ch) const
  {
    Set cand;
    if (s[0]) cand |= whole.first;
    for (size_t p = 1; p <= pos.size(); p++) if (s[p]) cand |= follow[p];
    if (match.empty()) {
      match.resize(256);
      for (int c = 0; c < 256; c++) for (size_t p = 1; p <= pos.size(); p++) if (pos[p - 1].contains(c)) match[c][p] = true;
    }
    return cand & match[ch];
  }
  bool accepts(const std::string& str) const
  {
    Set s = start();
    for (unsigned char c : str) s = step(s, c);
    return accepts(s);
  }
  // One character of every class of characters the expression can tell apart, and one of the rest
  std::string alphabet(size_t max) const
  {
    std::string r;
    std::set<std::vector<bool>> seen;
    for (int pass = 0; pass < 2; pass++)
      for (int ch = pass ? 1 : 'a'; ch < (pass ? 255 : '{'); ch++) {
        std::vector<bool> sig;
        for (auto& p : pos) sig.push_back(p.contains(ch));
        if (seen.insert(sig).second && r.size() < max) r += (char)ch;
      }
    return r;
  }

private:
  const std::string& text;
  size_t i;
  int peek() const { return i < text.size() ? (unsigned char)text[i] : 0; }
  void worse(Verdict v) { if (verdict == OK || (verdict == UNSPECIFIED && v == MALFORMED)) verdict = v; }

  Frag leaf(const ClassModel& c)
  {
    Frag f;
    if (pos.size() + 2 >= MAXPOS) { worse(UNSPECIFIED); return f; }
    pos.push_back(c);
    follow.push_back(Set());
    f.nullable = false;
    f.first[pos.size()] = f.last[pos.size()] = true;
    return f;
  }
  Frag single(int ch) { ClassModel c; c.items.emplace_back(ch, ch); return leaf(c); }
  void connect(const Set& from, const Set& to)
  {
    for (size_t p = 1; p <= pos.size(); p++) if (from[p]) follow[p] |= to;
  }
  Frag regex(int depth)
  {
    Frag r;
    bool empty = true;
    while (verdict != MALFORMED) {
      int ch = peek();
      if (ch == 0 || ch == '/') { if (depth) worse(UNSPECIFIED); break; }
      if (ch == ')') { if (!depth) worse(UNSPECIFIED); break; }
      Frag f = selection(depth);
      empty = false;
      connect(r.last, f.first);
      if (r.nullable) r.first |= f.first;
      if (f.nullable) r.last |= f.last; else r.last = f.last;
      r.nullable = r.nullable && f.nullable;
    }
    if (empty && depth) worse(UNSPECIFIED);
    return r;
  }
  Frag selection(int depth)
  {
    Frag r = unit(depth);
    while (verdict != MALFORMED && peek() == '|') {
      i++;
      Frag f = unit(depth);
      r.first |= f.first;
      r.last |= f.last;
      r.nullable = r.nullable || f.nullable;
    }
    return r;
  }
  Frag unit(int depth)
  {
    Frag r = atom(depth);
    int q = peek();
    if (q != '+' && q != '*' && q != '?') return r;
    i++;
    int m = peek();
    if (m == '+' || m == '*' || m == '?') { if (q == '?' && m == '+') worse(UNSPECIFIED); i++; }
    int n = peek();
    if (n == '+' || n == '*' || n == '?') worse(UNSPECIFIED);
    if (q != '?') connect(r.last, r.first);
    if (q != '+') r.nullable = true;
    return r;
  }
  Frag atom(int depth)
  {
    int ch = peek();
    i++;
    switch (ch) {
    case 0: case '/': i--; worse(UNSPECIFIED); return Frag();
    case '\\': {
      int e = peek();
      i++;
      if (e && std::string("[]+*{}?\\|().").find((char)e) != std::string::npos) return single(e);
      worse(MALFORMED);
      return Frag();
    }
    case '[': {
      ClassModel c;
      size_t used = 0;
      std::string rest = text.substr(i - 1);
      ClassModel::Verdict v = c.parse(rest, used);
      if (v == ClassModel::MALFORMED) { worse(MALFORMED); return Frag(); }
      if (v == ClassModel::UNSPECIFIED) worse(UNSPECIFIED);
      bool any = false;
      for (int k = 1; k < 255 && !any; k++) any = c.contains(k);
      if (!any) worse(UNSPECIFIED);      // a class without characters
      i += used - 1;
      return leaf(c);
    }
    case '.': {
      ClassModel c;
      c.negated = true;
      return leaf(c);
    }
    case '(': {
      Frag f = regex(depth + 1);
      if (peek() == ')') i++;
      return f;
    }
    case ')': case '|': case '*': case '+': case '?': case ']': case '{': case '}':
      worse(UNSPECIFIED);                // an operator where an atom is expected
      return single(ch);
    default:
      return single(ch);
    }
  }
};

// Every pattern of up to `len` tokens from the given atoms and quantifiers, with groups and selections.
inline void for_each_pattern(int len, const std::vector<std::string>& atoms, const std::vector<std::string>& quants,
                             const std::function<void(const std::string&)>& f)
{
  // last: 0 = an atom must come (after '(' or '|'), 1 = after an atom, 2 = after a quantifier
  std::function<void(const std::string&, int, int, int)> rec = [&](const std::string& text, int left, int depth, int last) {
    if (depth == 0 && last > 0) f(text);
    if (left <= depth) {
      if (left > 0 && depth > 0 && last > 0) rec(text + ")", left - 1, depth - 1, 1);
      return;
    }
    for (auto& a : atoms) rec(text + a, left - 1, depth, 1);
    if (left >= 3 + depth) rec(text + "(", left - 1, depth + 1, 0);
    if (last > 0) {
      if (depth > 0) rec(text + ")", left - 1, depth - 1, 1);
      if (left >= 2 + depth) rec(text + "|", left - 1, depth, 0);
      if (last == 1) for (auto& q : quants) rec(text + q, left - 1, depth, 2);
    }
  };
  rec("", len, 0, 0);
}

// Every string over the alphabet of length up to `len`, shortest first
inline void for_each_string(const std::string& alphabet, int len, const std::function<bool(const std::string&)>& f)
{
  std::vector<std::string> layer{""};
  for (int l = 0; l <= len; l++) {
    std::vector<std::string> next;
    for (auto& s : layer) {
      if (!f(s)) return;
      if (l < len) for (char c : alphabet) next.push_back(s + c);
    }
    layer.swap(next);
  }
}
