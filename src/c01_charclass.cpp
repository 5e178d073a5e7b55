// C01: explicit-state exploration of the character-class algebra.
//
// The alphabet of a character type is cut into cells (a window of single characters at some place of the range, the
// single characters 0 and 1, and the rest below and above). A model state is a set of cells; the state of the
// implementation is the list of ranges it iterates over. The closure of the empty class under every operation
// is explored on the real class: every transition must lead to the canonical representation of the model's set, so the
// 2^n states found are all states there are, however a class was built. Then every observer is
// compared with the model in every state and for every pair of states.
#include "CharClass.hpp"
#include "mc.hpp"
#include "class_model.hpp"

#include <algorithm>
#include <memory>
#include <limits>

using namespace Centaurus;
using namespace mc;

typedef uint32_t Mask;

template<typename T> struct Explorer
{
  std::string tname;
  long base;
  int width;
  std::vector<long> cut;      // cell i = [cut[i], cut[i+1])
  int n;

  Explorer(const std::string& tname, long base, int width) : tname(tname), base(base), width(width)
  {
    long max = (long)std::numeric_limits<T>::max();
    std::set<long> c{0, 1, max};
    for (int i = 0; i <= width; i++) if (base + i <= max) c.insert(base + i);
    cut.assign(c.begin(), c.end());
    n = (int)cut.size() - 1;
  }
  typedef std::vector<std::pair<long, long>> Ranges;
  Ranges canonical(Mask m) const
  {
    Ranges r;
    for (int i = 0; i < n; i++)
      if (m >> i & 1) {
        if (!r.empty() && r.back().second == cut[i]) r.back().second = cut[i + 1];
        else r.emplace_back(cut[i], cut[i + 1]);
      }
    return r;
  }
  Ranges ranges(const CharClass<T>& c) const
  {
    Ranges r;
    for (auto& x : c) r.emplace_back((long)x.start(), (long)x.end());
    return r;
  }
  std::string show(const Ranges& r) const
  {
    std::ostringstream os;
    for (auto& p : r) os << "[" << p.first << "," << p.second << ")";
    return r.empty() ? "{}" : os.str();
  }
  void expect(const CharClass<T>& c, Mask m, const std::string& what) const
  {
    S().transitions++;
    if (ranges(c) != canonical(m))
      violation(what + " gives " + show(ranges(c)) + ", the set is " + show(canonical(m)));
  }
  void expect(bool ok, const std::string& what) const { S().transitions++; if (!ok) violation(what); }
  Mask between(int i, int j) const { return ((1u << j) - 1) & ~((1u << i) - 1); }   // cells i .. j-1
  T at(int i) const { return (T)cut[i]; }
  std::string s(Mask m) const { return show(canonical(m)); }

  // The closure of the empty class. One transition per range added and per complement taken.
  void closure(std::vector<CharClass<T>>& reps)
  {
    std::vector<char> seen(1u << n, 0);
    std::vector<Mask> todo{0};
    reps.assign(1u << n, CharClass<T>());
    seen[0] = 1;
    expect(CharClass<T>(), 0, "the default constructor");
    size_t head = 0;
    auto reach = [&](Mask m, const CharClass<T>& c, const std::string& what) {
      expect(c, m, what);
      if (!seen[m]) { seen[m] = 1; reps[m] = c; todo.push_back(m); S().states++; }
    };
    while (head < todo.size()) {
      Mask m = todo[head++];
      for (int i = 0; i < n; i++)
        for (int j = i + 1; j <= n; j++) {
          Range<T> r(at(i), at(j));
          std::string rs = "[" + std::to_string(cut[i]) + "," + std::to_string(cut[j]) + ")";
          CharClass<T> c = reps[m];
          c |= r;
          reach(m | between(i, j), c, s(m) + " |= " + rs);
          expect(reps[m] | r, m | between(i, j), s(m) + " | " + rs);
        }
      // complement within [1, max)
      reach(((1u << n) - 1) & ~m & ~1u, ~reps[m], "~" + s(m));
    }
    S().states++;
    if (std::count(seen.begin(), seen.end(), 1) != (1 << n)) violation("the closure does not reach every set");
  }

  void observers(const CharClass<T>& c, Mask m)
  {
    Ranges cr = canonical(m);
    std::string me = s(m);
    expect((int)cr.size() == c.size(), me + ": size() is " + std::to_string(c.size()));
    expect(c.is_epsilon() == (m == 0), me + ": is_epsilon()");
    expect((bool)c == (m != 0), me + ": operator bool");
    for (int i = 0; i < (int)cr.size(); i++)
      expect((long)c[i].start() == cr[i].first && (long)c[i].end() == cr[i].second, me + ": operator[]");
    expect(c[-1].empty() && c[(int)cr.size()].empty(), me + ": operator[] outside");
    std::set<T> b, want;
    std::set<int> bi, wanti;
    for (auto& p : cr) { want.insert((T)p.first); want.insert((T)p.second); wanti.insert((int)(T)p.first); wanti.insert((int)(T)p.second); }
    c.collect_borders(b);
    expect(b == want, me + ": collect_borders(set)");
    IndexVector iv = c.collect_borders();
    bi.insert(iv.begin(), iv.end());
    expect(bi == wanti && iv.size() == 2 * cr.size(), me + ": collect_borders()");
    std::set<T> b2{(T)cut[n]};
    c.collect_borders(b2);
    want.insert((T)cut[n]);
    expect(b2 == want, me + ": collect_borders(set) drops what the set held");
    for (int i = 0; i < n; i++) {
      bool in = m >> i & 1;
      expect(c.includes((T)cut[i]) == in, me + ": includes(" + std::to_string(cut[i]) + ")");
      expect(c.includes((T)(cut[i + 1] - 1)) == in, me + ": includes(" + std::to_string(cut[i + 1] - 1) + ")");
      for (int j = i + 1; j <= n; j++) {
        Mask r = between(i, j);
        expect(c.includes(Range<T>(at(i), at(j))) == ((m & r) == r), me + ": includes [" + std::to_string(cut[i]) + "," + std::to_string(cut[j]) + ")");
      }
    }
    CharClass<T> copy(c), assigned(CharClass<T>(Range<T>(at(0), at(1))));
    expect(copy, m, "copy of " + me);
    assigned = c;
    expect(assigned, m, "assignment of " + me);
    CharClass<T> moved(Range<T>(at(0), at(1)));
    moved = std::move(copy);
    expect(moved, m, "move assignment of " + me);
    // ranges appended in ascending order behind what is there
    int top = n;
    while (top > 0 && !(m >> (top - 1) & 1)) top--;
    for (int i = top; i < n; i++)
      for (int j = i + 1; j <= n; j++) {
        CharClass<T> a(c);
        a.append(Range<T>(at(i), at(j)));
        expect(a, m | between(i, j), "append to " + me);
      }
  }
  void pair(const CharClass<T>& a, Mask ma, const CharClass<T>& b, Mask mb)
  {
    std::string ab = s(ma) + " and " + s(mb) + ": ";
    expect(a | b, ma | mb, ab + "|");
    CharClass<T> u(a);
    u |= b;
    expect(u, ma | mb, ab + "|=");
    expect(a & b, ma & mb, ab + "&");
    auto d = a.diff_and_int(b);
    expect(d[0], ma & ~mb, ab + "diff_and_int[0]");
    expect(d[1], mb & ~ma, ab + "diff_and_int[1]");
    expect(d[2], ma & mb, ab + "diff_and_int[2]");
    expect((a == b) == (ma == mb), ab + "==");
    expect(std::equal_to<CharClass<T>>()(a, b) == (ma == mb), ab + "equal_to");
    if (ma == mb) expect(std::hash<CharClass<T>>()(a) == std::hash<CharClass<T>>()(b) && a.hash() == b.hash(), ab + "hash");
    expect(a.overlaps(b) == ((ma & mb) != 0), ab + "overlaps");
  }
  void run()
  {
    std::vector<CharClass<T>> reps;
    std::string where = tname + " at " + std::to_string(base) + " width " + std::to_string(width);
    if (!S().replaying || S().replay_text == "closure " + where) {
      if (S().replaying || mine()) { begin_case("closure " + where); closure(reps); constructors(); }
      if (S().replaying) return;
    }
    reps.clear();
    for (Mask m = 0; m < (1u << n); m++) {
      CharClass<T> c;
      for (auto& p : canonical(m)) c |= Range<T>((T)p.first, (T)p.second);
      reps.push_back(c);
    }
    for (Mask m = 0; m < (1u << n); m++) {
      std::string text = "pairs " + where + " class " + std::to_string(m);
      if (S().replaying ? S().replay_text != text : !mine()) continue;
      begin_case(text);
      observers(reps[m], m);
      for (Mask k = 0; k < (1u << n); k++) pair(reps[m], m, reps[k], k);
      if (m == (1u << n) / 3) sample(text + " = " + s(m) + " with each of " + std::to_string(1u << n) + " classes");
    }
  }
  // constructors: from a character, from a pair, from a range, from every permutation of up to 3 window characters
  void constructors()
  {
    long max = (long)std::numeric_limits<T>::max();
    std::vector<std::pair<long, int>> single;      // character, cell
    for (int i = 0; i < n; i++) if (cut[i + 1] == cut[i] + 1 && cut[i] < max) single.emplace_back(cut[i], i);
    for (auto& a : single) {
      expect(CharClass<T>((wchar_t)a.first), 1u << a.second, "constructor from a character");
      for (auto& b : single) {
        expect(CharClass<T>({(wchar_t)a.first, (wchar_t)b.first, (wchar_t)a.first}), 1u << a.second | 1u << b.second, "constructor from a list");
        for (auto& c : single)
          for (auto& d : single)
            expect(CharClass<T>({(wchar_t)a.first, (wchar_t)b.first, (wchar_t)c.first, (wchar_t)d.first}),
                   1u << a.second | 1u << b.second | 1u << c.second | 1u << d.second, "constructor from a list");
      }
    }
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j <= n; j++) {
        expect(CharClass<T>((wchar_t)cut[i], (wchar_t)cut[j]), between(i, j), "constructor from two characters");
        expect(CharClass<T>(Range<T>(at(i), at(j))), between(i, j), "constructor from a range");
        expect(CharClass<T>(Range<T>::make_from_wide((wchar_t)cut[i], (wchar_t)cut[j])), between(i, j), "make_from_wide");
      }
    expect(CharClass<T>::make_star(), ((1u << n) - 1) & ~1u, "make_star");
  }
};

// Classes built from their text, in every order of up to `depth` items
template<typename T> void texts(const std::string& tname, int depth)
{
  for_each_class_text(depth, [&](const std::string& text, bool last_of_group) {
    std::string ct = "text " + tname + " " + enc(text);
    if (S().replaying ? S().replay_text != ct : !mine()) return;
    ClassModel m;
    size_t used = 0;
    if (m.parse(text, used) != ClassModel::OK || used != text.size()) return;   // malformed texts are C02's
    begin_case(ct);
    S().transitions++;
    CharClass<T> c;
    try {
      Stream stream(std::wstring(text.begin() + 1, text.end()));
      c = CharClass<T>(stream);
      if (stream.get() != 0) violation("text is left over");
    } catch (const std::exception& e) { violation(std::string("a well-formed class is rejected: ") + e.what()); return; }
    for (int ch = 0; ch < 0x100 && ch < (long)std::numeric_limits<T>::max(); ch++)
      if (c.includes((T)ch) != m.contains(ch)) { violation("character " + std::to_string(ch) + (m.contains(ch) ? " is missing" : " is wrongly in the class")); return; }
    long prev = -1;
    for (auto& r : c) {
      if (!((long)r.start() > prev && r.start() < r.end())) { violation("ranges out of order"); return; }
      prev = (long)r.end();
    }
  });
}

template<typename T> void all(const std::string& tname, const std::vector<long>& bases, int width, int depth)
{
  for (long b : bases) {
    std::string where = tname + " at " + std::to_string(b) + " width " + std::to_string(width);
    if (S().replaying && S().replay_text.find(where + " ") == std::string::npos && S().replay_text != "closure " + where) continue;
    Explorer<T>(tname, b, width).run();
  }
  if (!S().replaying || S().replay_text.compare(0, 5 + tname.size() + 1, "text " + tname + " ") == 0) texts<T>(tname, depth);
}

int main(int argc, char **argv)
{
  init(argc, argv);
  for (int width : {5, 7}) {
    if (!S().replaying && (width == 7) != S().thorough) continue;
    int depth = S().thorough ? 5 : 4;
    all<char>("char", {0, 1, 2, 'a', 126, 248, 250}, width, depth);
    all<unsigned char>("uchar", {0, 1, 2, 'a', 126, 248, 250}, width, depth);
    long wmax = (long)std::numeric_limits<wchar_t>::max();
    all<wchar_t>("wchar", {0, 1, 0xFD, 0x3040, 0x10FFF0, wmax - 6}, width, depth);
  }
  return finish();
}
