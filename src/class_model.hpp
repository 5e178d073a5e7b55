// The meaning of the text of a character class, written from the notation alone: '[' '^'? item* ']',
// item = character | character '-' character, with the escapes \\ \- \[ \] \t \r \n (the last three in either case).
// A '-' that does not stand between two characters of a range, an unknown escape and a missing ']' are errors.
#pragma once

#include <set>
#include <string>
#include <vector>
#include <functional>

struct ClassModel
{
  enum Verdict { OK, MALFORMED, UNSPECIFIED };
  bool negated = false;
  std::vector<std::pair<int, int>> items;   // inclusive

  bool contains(int ch) const
  {
    bool in = false;
    for (auto& p : items) if (p.first <= ch && ch <= p.second) in = true;
    return negated ? (ch != 0 && !in) : in;
  }
  // text[0] is '['; used = number of characters the class takes
  Verdict parse(const std::string& text, size_t& used)
  {
    struct Tok { int ch; bool dash; };
    std::vector<Tok> toks;
    size_t i = 1;
    if (i < text.size() && text[i] == '^') { negated = true; i++; }
    for (;; i++) {
      if (i >= text.size() || text[i] == 0) return MALFORMED;
      if (text[i] == ']') { i++; break; }
      if (text[i] == '\\') {
        i++;
        if (i >= text.size()) return MALFORMED;
        switch (text[i]) {
        case '\\': case '-': case '[': case ']': toks.push_back({text[i], false}); break;
        case 't': case 'T': toks.push_back({'\t', false}); break;
        case 'r': case 'R': toks.push_back({'\r', false}); break;
        case 'n': case 'N': toks.push_back({'\n', false}); break;
        default: return MALFORMED;
        }
      } else
        toks.push_back({(unsigned char)text[i], text[i] == '-'});
    }
    used = i;
    Verdict v = OK;
    for (size_t k = 0; k < toks.size();) {
      if (toks[k].dash) return MALFORMED;
      if (k + 1 < toks.size() && toks[k + 1].dash) {
        if (k + 2 >= toks.size() || toks[k + 2].dash) return MALFORMED;
        if (toks[k].ch > toks[k + 2].ch) v = UNSPECIFIED;      // a reversed range
        items.emplace_back(toks[k].ch, toks[k + 2].ch);
        k += 3;
      } else {
        items.emplace_back(toks[k].ch, toks[k].ch);
        k++;
      }
    }
    return v;
  }
};

// Every class text of up to `depth` pieces, closed by ']'. The pieces cover neighbouring, nested and distant
// characters, both kinds of '-', every escape, and the special characters that need none.
inline void for_each_class_text(int depth, const std::function<void(const std::string&, bool)>& f)
{
  static const std::vector<std::string> small{"a", "b", "c", "e", "-", "a-c", "b-e", "^", "\\-", "\\n", "\\]"};
  static const std::vector<std::string> wide{"\\t", "\\r", "\\T", "\\R", "\\N", "\\\\", "\\[", "[", ".", "(", "*", " ", "0-9", "A-Z", "\\t-\\r", "!-~", "\\[-\\]", "/", "\\x", "\\0", "\\^", "d-a"};
  std::vector<std::string> first(small);
  first.insert(first.end(), wide.begin(), wide.end());
  std::function<void(const std::string&, int)> rec = [&](const std::string& prefix, int left) {
    f(prefix + "]", left == 0);
    if (left == 0) return;
    // all pieces while the text is short, the small set further on
    for (auto& p : (depth - left < 2 ? first : small)) rec(prefix + p, left - 1);
  };
  rec("[", depth);
  rec("[^", depth);
}
