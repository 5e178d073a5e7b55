// C21: the command line tool. Every command line within the bounds runs through the real main() in a process of its own; what it
// prints, and where, and its exit status are compared with a model of the usage text and with what the library prints.
//
// A case is a list of words: the text of the grammar file (or - for none), then the arguments, in which <g> stands for the
// grammar file, <n> for a file that is not there and <o> for an output file.
#include "grammar_impl.hpp"
#include "grammar_text.hpp"
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
#include "DFA.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>

int tool_main(int argc, char *argv[]);  // main() of /repo/src/tool/main.cpp
using namespace gi;
typedef std::vector<std::string> Words;

static std::string slurp(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}
static std::string sorted(const std::string& text)
{
  std::multiset<std::string> lines;
  std::istringstream in(text);
  for (std::string l; std::getline(in, l);) lines.insert(l);
  std::string r;
  for (auto& l : lines) r += l + "\n";
  return r;
}

struct Expect { bool ok = false, help = false, file = false; int status = 0; std::string output; };

// What the usage text promises
static Expect model(const Words& args)
{
  Expect x;
  std::string out, command, file, path, machine, pattern, depth;
  bool g = false, p = false, m = false, e = false, d = false, o = false, f = false;
  for (size_t i = 0; i < args.size(); i++) {
    const std::string& a = args[i];
    auto value = [&](bool& seen, std::string& v) {
      if (seen || i + 1 >= args.size() || args[i + 1].empty()) return false;
      seen = true;
      v = args[++i];
      return true;
    };
    if (a == "-f" || a == "--outfile") { if (!value(f, out)) return x; }
    else if (a == "-h" || a == "--help") { if (x.help) return x; x.help = true; }
    else if (command.empty()) command = a;
    else if (a == "-g" || a == "--grammar-file") { if (!value(g, file)) return x; }
    else if (a == "-p" || a == "--path") { if (!value(p, path)) return x; }
    else if (a == "-m" || a == "--machine") { if (!value(m, machine)) return x; }
    else if (a == "-d" || a == "--max-depth") { if (!value(d, depth)) return x; }
    else if (a == "-e") { if (!value(e, pattern)) return x; }
    else if (a == "--optimize") { if (o) return x; o = true; }
    else return x;
  }
  std::string has = std::string(g ? "g" : "") + (p ? "p" : "") + (m ? "m" : "") + (d ? "d" : "") + (e ? "e" : "");
  if (command == "generate-atn") { if (has != "gd") return x; }
  else if (command == "generate-catn") { if (has != "gm" || o) return x; }
  else if (command == "generate-nfa") { if ((has != "gp" && has != "e") || o) return x; }
  else if (command == "generate-dfa") { if (has != "gp" && has != "e") return x; }
  else if (command == "generate-ldfa") { if (has != "gp" || o) return x; }
  else if (command == "verify-grammar") { if (has != "g" || o) return x; }
  else return x;
  x.ok = true;
  x.file = f;
  if (x.help) return x;
  if (f && out.find("/nowhere/") != out.npos) { x.status = 255; return x; }  // cannot be opened
  std::wostringstream os;
  try {
    if (e) {
      Stream s(widen(pattern));
      NFA<char> n(s);
      if (command == "generate-nfa") n.print(os, L"NFA");
      else DFA<char>(n, o).print(os, L"DFA");
    } else {
      Grammar<char> gr(file.c_str());
      if (command == "verify-grammar") x.status = gr.verify() ? 0 : 1;
      else if (command == "generate-atn") {
        if (o) gr.optimize();
        gr.print(os, gr.get_root_id(), atoi(depth.c_str()));
      } else if (command == "generate-catn") {
        Identifier id(widen(machine));
        CompositeATN<char> catn(gr);
        catn[id].print(os, id.str());
      } else {
        ATNPath place(widen(path));
        const ATNMachine<char>& a = gr[place.leaf_id()];
        if (place.leaf_index() < 0 || a.get_node_num() <= place.leaf_index()) throw SimpleException("no such node");
        const ATNNode<char>& node = a.get_node(place.leaf_index());
        if (command == "generate-ldfa") {
          CompositeATN<char> catn(gr);
          LookaheadDFA<char>(catn, catn.convert_atn_path(place)).print(os, place.leaf_id().str());
        } else if (node.type() != ATNNodeType::RegularTerminal) throw SimpleException("not a pattern");
        else if (command == "generate-nfa") node.get_nfa().print(os, place.leaf_id().str());
        else DFA<char>(node.get_nfa(), o).print(os, place.leaf_id().str());
      }
    }
    x.output = narrow(os.str());
  } catch (const std::exception&) { x.status = 255; }
  return x;
}

static std::wstreambuf *g_wcerr;
static std::string run(const std::string& grammar, Words args)
{
  std::string dir = scratch(), out = dir + "/out", err = dir + "/err", file = dir + "/file", g = dir + "/g.cgr";
  unlink(file.c_str());
  if (grammar != "-") { std::ofstream w(g, std::ios::binary); w << grammar; }
  for (auto& a : args) a = a == "<g>" ? g : a == "<n>" ? dir + "/missing.cgr" : a == "<o>" ? file : a == "<d>" ? dir + "/nowhere/file" : a;
  int parent = getpid(), status = 0;
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(9);
    int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(o, 1);
    dup2(e, 2);
    std::wcerr.rdbuf(g_wcerr);
    std::vector<char *> argv{(char *)"centaurus"};
    for (auto& a : args) argv.push_back((char *)a.c_str());
    argv.push_back(nullptr);
    int r = tool_main((int)argv.size() - 1, argv.data());
    std::wcout.flush();
    std::cout.flush();
    fflush(stdout);
    _exit(r & 255);
  }
  if (pid < 0 || waitpid(pid, &status, 0) != pid) abort();
  S().transitions++;
  if (WIFSIGNALED(status)) return std::string("ends with signal ") + std::to_string(WTERMSIG(status)) + " (" + strsignal(WTERMSIG(status)) + ")";
  status = WEXITSTATUS(status);
  Expect x = model(args);
  std::string printed = slurp(out), told = slurp(err), written = slurp(file);
  if (!x.ok) {
    S().extra["refused"]++;
    if (status == 0 && !(std::count(args.begin(), args.end(), "-h") + std::count(args.begin(), args.end(), "--help"))) return "a command line that is not in the usage text is taken for success";
  } else if (x.help) {
    S().extra["help"]++;
    if (status) return "help exits with " + std::to_string(status);
    if (told.empty() && printed.empty()) return "no help";
    return "";
  } else if (x.status) {
    S().extra["failures"]++;
    if (status == 0) return "exits with 0 in spite of an error";
  } else {
    S().extra["successes"]++;
    if (status) return "exits with " + std::to_string(status) + ": " + told;
    const std::string& where = x.file ? written : printed;
    if (sorted(where) != sorted(x.output)) return "prints\n" + where + "\ninstead of\n" + x.output;
    if (x.file && !printed.empty()) return "prints to standard output in spite of an output file";
    return "";
  }
  if (told.empty()) return "exits with " + std::to_string(status) + " without a message";
  return "";
}

static void go(const std::string& grammar, const Words& args)
{
  std::string ct = enc(grammar);
  for (auto& a : args) ct += " " + (a.empty() ? std::string("<e>") : enc(a));
  if (S().replaying ? S().replay_text != ct : !mine()) return;
  begin_case(ct);
  S().states++;
  std::string e = run(grammar, args);
  if (!e.empty()) violation(e);
  sample(ct);
}

// The arguments in another order and spelling, by turn
static Words vary(const std::string& command, std::vector<Words> options, size_t turn, bool& file)
{
  static const std::map<std::string, std::string> longer{{"-g", "--grammar-file"}, {"-p", "--path"}, {"-m", "--machine"}, {"-d", "--max-depth"}};
  Words r;
  file = turn % 3 == 1;
  if (file) r = {turn % 2 ? "-f" : "--outfile", "<o>"};
  r.push_back(command);
  size_t n = 1;
  for (size_t i = 2; i <= options.size(); i++) n *= i;
  std::sort(options.begin(), options.end());
  for (size_t k = turn % n; k--;) std::next_permutation(options.begin(), options.end());
  for (auto& o : options) {
    if (turn / 2 % 2 && longer.count(o[0])) o[0] = longer.at(o[0]);
    r.insert(r.end(), o.begin(), o.end());
  }
  return r;
}

static const char *const GRAMMARS[] = {
  "R : 'a' ';' ;",
  "R : S* ';' ; S : 'a' ;",
  "R : S T ';' ; S : 'a'* ; T : /b+/ | /[c-f]*x/ ;",
  "R : ( S | T )* ';' ; S : 'a' T ; T : /b|c/ ;",
  "R : S ';' ; S : '(' T* ')' | /x/ ; T : '[' S ']' | /[a-z]+/ ;",
  "R : A ';' ; A : B ; B : C D ; C : /c?/ ; D : C? 'd' ;",
  "grammar N ; R : /[0-9]+/ ( '+' /[0-9]+/ )* ';' ;",
  "R : R 'a' | 'b' ;",
  "R : S ; S : S 'a' | 'b' ;",
  "R : S T ';' ; S : 'a' ;",
  "R : 'a' | 'a' ;",
  "R : 'a' 'b' | 'a' 'c' ;",
};
static const char *const BAD[] = {"", "R", "R :", "R : 'a'", "R : 'a ;", "R : /[/ ;", "R : ( 'a' ;", "R : 'a' ;\x80", "?", "include \"nowhere.cgr\" ; R : 'a' ;", "R : @ ;", "R : 'a' ; S", "R : 'a' ; R 'b' ;"};

int main(int argc, char **argv)
{
  init(argc, argv);
  g_wcerr = std::wcerr.rdbuf(nullptr);  // what the library prints while the model runs must not give stderr an orientation
  bool more = S().thorough || S().replaying;
  size_t turn = 0;
  auto each = [&](const std::string& text, const std::string& command, std::vector<Words> options) {
    bool file;
    if (more) for (size_t k = 0; k < 12; k++) { Words w = vary(command, options, k, file); go(text, w); }
    else { turn++; for (size_t k : {turn % 12, (turn * 5 + 7) % 12}) go(text, vary(command, options, k, file)); }
  };
  std::vector<std::string> texts(std::begin(GRAMMARS), std::end(GRAMMARS));
  for (const char *f : {"calc", "json", "dblp", "xml", "citylots", "lua"}) texts.push_back(slurp(std::string(getenv("MC_REPO")) + "/grammars/" + f + ".cgr"));
  for (const char *b : BAD) texts.push_back(b);
  for (auto& t : texts) {
    Words names{"R", "X", "r", "1", "R.0"}, places;
    bool big = t.size() > 400;
    std::vector<std::pair<std::string, int>> nodes;
    try {
      std::string p = write_file(t);
      Grammar<char> g(p.c_str());
      names.clear();
      for (int i = 1; i <= g.get_machine_num(); i++) for (auto& m : g.get_machines()) if (m.second.get_unique_id() == i) names.push_back(narrow(m.first.str()));
      for (auto& n : names) for (int i = 0; i < g[Identifier(widen(n))].get_node_num(); i++) nodes.emplace_back(n, i);
      for (auto& n : names) for (long k : {(long)g[Identifier(widen(n))].get_node_num(), (long)g[Identifier(widen(n))].get_node_num() + 1, 100L, 100000L, 2147483647L, 99999999999L}) places.push_back(n + "." + std::to_string(k));
    } catch (const std::exception&) { nodes = {{"R", 0}, {"R", 1}}; }
    Words bad{"R", "R.", ".", ".1", "R.1/", "/R.1", "R.x", "R.1.1", "X.0", "R.1/X.0", "R.1/R.100000", "R.-1", "R 1", ""};
    places.insert(places.end(), bad.begin(), bad.end());
    size_t k = 0;
    for (auto& n : nodes) if (!big || more || k++ % 7 == 0) { places.push_back(n.first + "." + std::to_string(n.second)); if (!big) for (auto& m : nodes) if (m.second == 1) places.push_back(m.first + ".1/" + n.first + "." + std::to_string(n.second)); }
    names.insert(names.end(), {"X", "r", "1", "R.0", ""});
    for (const char *file : {"<g>", "<n>"}) {
      each(t, "verify-grammar", {{"-g", file}});
      for (const char *d : {"0", "1", "2", "3", "7"}) { each(t, "generate-atn", {{"-g", file}, {"-d", d}}); each(t, "generate-atn", {{"-g", file}, {"-d", d}, {"--optimize"}}); }
      for (auto& n : names) each(t, "generate-catn", {{"-g", file}, {"-m", n}});
      for (auto& p : places) {
        each(t, "generate-nfa", {{"-g", file}, {"-p", p}});
        each(t, "generate-dfa", {{"-g", file}, {"-p", p}});
        each(t, "generate-dfa", {{"-g", file}, {"-p", p}, {"--optimize"}});
        each(t, "generate-ldfa", {{"-g", file}, {"-p", p}});
        if (*(file + 1) == 'n') break;
      }
    }
  }
  // every set of options with every command
  const std::vector<Words> options{{"-g", "<g>"}, {"-p", "S.3"}, {"-m", "S"}, {"-d", "2"}, {"-e", "a|b*"}, {"--optimize"}, {"-h"}, {"--help"}, {"-g"}, {"-x"}, {"more"}};
  for (const char *c : {"generate-atn", "generate-catn", "generate-nfa", "generate-dfa", "generate-ldfa", "verify-grammar", "generate", "", "generate-ATN"})
    for (size_t set = 0; set < 1u << options.size(); set++) {
      std::vector<Words> chosen;
      for (size_t i = 0; i < options.size(); i++) if (set >> i & 1) chosen.push_back(options[i]);
      if (chosen.size() > (more ? 5 : 4) || (set >> 8 & 1 && (chosen.back() != options[8] || set & 1))) continue;
      Words w;
      if (*c) w.push_back(c);
      for (auto& o : chosen) w.insert(w.end(), o.begin(), o.end());
      go("R : S* ';' ; S : /[ab]+/ ;", w);
      w.insert(w.begin(), {"-f", set % 5 ? "<o>" : "<d>"});
      go("R : S* ';' ; S : /[ab]+/ ;", w);
    }
  // the output file behind the command, where the usage text has it
  const std::string ab = "R : S* ';' ; S : /[ab]+/ ;";
  for (const Words& w : std::vector<Words>{{"generate-atn", "-g", "<g>", "-d", "2"}, {"generate-catn", "-g", "<g>", "-m", "S"}, {"generate-nfa", "-g", "<g>", "-p", "S.3"}, {"generate-nfa", "-e", "a"},
                                           {"generate-ldfa", "-g", "<g>", "-p", "R.0"}, {"generate-dfa", "-g", "<g>", "-p", "S.3"}, {"generate-dfa", "-e", "a"}, {"verify-grammar", "-g", "<g>"}}) {
    Words v = w;
    v.insert(v.end(), {"-f", "<o>"});
    go(ab, v);
  }
  // patterns
  Words patterns;
  const std::string tokens = "ab|*+?().[^]\\d";
  std::function<void(std::string, size_t)> rec = [&](std::string p, size_t left) {
    patterns.push_back(p);
    if (left) for (char c : tokens) rec(p + c, left - 1);
  };
  rec("", more ? 4 : 3);
  for (const char *p : {"[a-c]+x", "(ab|cd)*e", "a(b|c)?d", "[^a-z]", "\\w+\\s*=", "(a|b)*abb", "a*+b", "[a-z_][a-z0-9_]*", "0|[1-9][0-9]*", "\"[^\"]*\"", "<!--", "(a|ab)(c|bcd)"}) patterns.push_back(p);
  for (auto& p : patterns) {
    each("-", "generate-nfa", {{"-e", p}});
    each("-", "generate-dfa", {{"-e", p}});
    each("-", "generate-dfa", {{"-e", p}, {"--optimize"}});
  }
  return finish();
}
