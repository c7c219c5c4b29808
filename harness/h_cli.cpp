#include "hh.hpp"
#include "Omega_h_library.hpp"
#include "Omega_h_cmdline.hpp"
#include "Omega_h_filesystem.hpp"
#include "osym_io.hpp"
#include <algorithm>
#include <set>
namespace fs = Omega_h::filesystem;
// ---- C34: command lines and paths
static int choose(char const* n, int lo, int hi) { return (int)osym_choose(n, lo, hi); }
static char letter() { return (char)osym_i32("ch", -128, 127); }
static std::string token() { if (choose("help", 0, 1)) return "--help"; std::string t(choose("long", 1, 2), 0); for (auto& c : t) { c = letter(); osym_assume(c != 0); } return t; }
H(cli_parse) {
  Library lib; int nf = choose("flags", 0, param("F", 3)), np = choose("args", 0, param("A", 2)), n = choose("n", 0, param("N", 3)); static int const takes[] = {0, 1, 2}; static char const* const nm[] = {"-a", "-b", "-c"}; CmdLine cl; int rot = nf > 1 ? choose("order", 0, nf - 1) : 0;
  for (int k = 0; k < nf; ++k) { int f = (k + rot) % nf; auto& fl = cl.add_flag(nm[f], "a flag"); for (int j = 0; j < takes[f]; ++j) fl.add_arg<std::string>(j ? "second" : "first", "default"); }
  static char const* const an[] = {"x", "y"}; for (int k = 0; k < np; ++k) cl.add_arg<std::string>(an[k], "default"); std::vector<std::string> t(n + 1); t[0] = "prog"; for (int i = 1; i <= n; ++i) t[i] = token(); std::vector<char*> av; for (auto& s : t) av.push_back(&s[0]); av.push_back(nullptr); int ac = n + 1; bool final = choose("final", 0, 1);
  // what the command line says
  bool ok = true, help = false, seen[3] = {}; int pos = 0; std::string fv[3][2], pv[2]; std::vector<std::string> left;
  for (int i = 1; i <= n && ok;) { int f = -1; for (int k = 0; k < nf; ++k) if (t[i] == nm[k]) f = k; if (f >= 0) { if (seen[f] || n - i < takes[f]) { ok = false; break; } seen[f] = true; for (int j = 0; j < takes[f]; ++j) fv[f][j] = t[i + 1 + j]; i += 1 + takes[f]; } else { if (t[i] == "--help") { help = true; left.push_back(t[i]); } else if (pos < np) pv[pos++] = t[i]; else left.push_back(t[i]); ++i; } }
  if (pos < np) ok = false; std::vector<std::string> orig = t;
  bool got = final ? cl.parse_final(lib.world(), &ac, av.data()) : cl.parse(lib.world(), &ac, av.data()); ASSERT(got == (final ? ok && !help && left.empty() : ok)); if (!ok) { REACH("rejected"); return; }
  ASSERT(ac == 1 + (int)left.size()); ASSERT(std::string(av[0]) == "prog"); for (size_t i = 0; i < left.size(); ++i) ASSERT(left[i] == av[1 + i]);
  for (int f = 0; f < nf; ++f) { ASSERT(cl.parsed(nm[f]) == seen[f]); for (int j = 0; j < takes[f]; ++j) { ASSERT(cl.parsed(nm[f], size_t(j)) == seen[f]); ASSERT(cl.get<std::string>(nm[f], j ? "second" : "first") == (seen[f] ? fv[f][j] : "default")); } }
  for (int k = 0; k < np; ++k) { ASSERT(cl.parsed(size_t(k))); ASSERT(cl.get<std::string>(an[k]) == pv[k]); } ASSERT(!cl.parsed("-z")); REACH("accepted");
}
// numbers: every digit string
H(cli_numbers) { Library lib; CmdLine cl; auto& f = cl.add_flag("-n", ""); f.add_arg<int>("i", 7); f.add_arg<double>("r", 0.5); cl.add_arg<int>("j"); int d = choose("digits", 1, 4), v = 0; bool neg = choose("neg", 0, 1); std::string s = neg ? "-" : ""; for (int i = 0; i < d; ++i) { int c = osym_i32("digit", 0, 9); s += char('0' + c); v = 10 * v + c; } std::string p = "prog", n = "-n", r = "-2.75e1", j = "12"; char* av[] = {&p[0], &j[0], &n[0], &s[0], &r[0], nullptr}; int ac = 5; bool ok = cl.parse_final(lib.world(), &ac, av); ASSERT(ok); ASSERT(cl.get<int>("-n", "i") == (neg ? -v : v)); ASSERT(cl.get<double>("-n", "r") == -27.5); ASSERT(cl.get<int>("j") == 12); REACH("numbers"); }
static std::string text(int n) { std::string s(n, 0); for (auto& c : s) { c = letter(); osym_assume(c != 0); } return s; }
static bool has(std::string const& s, char c) { for (char x : s) if (x == c) return true; return false; }
H(cli_split) {
  std::string s = text(choose("n", 0, param("N", 5))); fs::path p(s); std::string file = p.filename().native(), dir = p.parent_path().native(), stem = p.stem().native(), ext = p.extension().native(); ASSERT(p.native() == s && p.string() == s && std::string(p.c_str()) == s);
  ASSERT(!has(file, '/')); ASSERT(s.size() >= file.size() && s.substr(s.size() - file.size()) == file); ASSERT(stem + ext == file); if (!ext.empty()) { ASSERT(ext[0] == '.'); ASSERT(!has(ext.substr(1), '.')); ASSERT(!stem.empty()); } else if (file != "..") ASSERT(!has(file, '.') || file.find_last_of('.') == 0);
  // the parent and the file name joined again name the same thing
  std::string back = (p.parent_path() / p.filename()).native(); bool dbl = false; for (size_t i = 1; i < s.size(); ++i) if (s[i] == '/' && s[i - 1] == '/') dbl = true; if (!dbl) ASSERT(back == s); if (!has(s, '/')) ASSERT(dir.empty()); REACH("split");
}
H(cli_join) { std::string a = text(choose("na", 1, 3)), b = text(choose("nb", 1, 3)), c = a; osym_assume(!has(b, '/')); osym_assume(a.back() != '/'); fs::path j = fs::path(a) / fs::path(b); ASSERT(j.native() == a + "/" + b); ASSERT(j.parent_path().native() == a); ASSERT(j.filename().native() == b); fs::path k(a); k /= b; ASSERT(k.native() == j.native()); fs::path l(a); l /= b.c_str(); ASSERT(l.native() == j.native()); fs::path m(a); m += b; ASSERT(m.native() == a + b); fs::path q(a); q += fs::path(b); ASSERT(q.native() == a + b); fs::path r(a); r += b[0]; ASSERT(r.native() == a + b[0]); ASSERT((fs::path() / fs::path(b)).native() == b); ASSERT((fs::path("/") / fs::path(b)).native() == "/" + b); REACH("join"); }
// directory trees: entry k has a symbolic kind and parent
H(cli_tree) {
  int n = choose("n", 0, param("N", 4)); std::vector<std::string> path(n); std::vector<int> kind(n), up(n); fs::create_directory("out"); osymfs::create("out/keep", false); fs::create_directory("top"); osymfs::create("aside", false);
  for (int i = 0; i < n; ++i) { kind[i] = choose("kind", 0, 4); up[i] = -1; int k = choose("parent", 0, i); if (k < i && kind[k] == 1) { up[i] = k; } path[i] = (up[i] < 0 ? "top" : path[up[i]]) + "/" + char('a' + i); // 0 file 1 directory 2 link to a directory elsewhere 3 dangling link 4 link to a file
    if (kind[i] == 0) ASSERT(osymfs::create(path[i].c_str(), false)); else if (kind[i] == 1) { ASSERT(fs::create_directory(path[i])); ASSERT(!fs::create_directory(path[i])); } else osymfs::symlink(kind[i] == 2 ? "out" : kind[i] == 3 ? "gone" : "aside", path[i].c_str()); }
  // listing
  std::set<std::string> want, got; for (int i = 0; i < n; ++i) if (up[i] < 0) want.insert(path[i]); int cnt = 0; fs::directory_iterator end; for (fs::directory_iterator it("top"); it != end; ++it) { got.insert(it->path().native()); ++cnt; } ASSERT(got == want && cnt == (int)want.size()); fs::directory_iterator it("top"), same("top"); ASSERT(it == same); fs::directory_iterator moved(std::move(it)); ASSERT((moved == end) == want.empty()); if (cnt) { ASSERT((*moved).path().native() == same->path().native()); ++same; ASSERT(moved != same); }
  for (int i = 0; i < n; ++i) if (kind[i] != 3) { fs::directory_entry e{fs::path(path[i])}; ASSERT(e.is_directory() == (kind[i] == 1 || kind[i] == 2)); ASSERT(e.is_regular_file() == (kind[i] == 0 || kind[i] == 4)); ASSERT(e.is_symlink() == (kind[i] >= 2)); ASSERT(fs::exists(path[i])); }
  auto c = fs::remove_all("top"); ASSERT(c == (std::uintmax_t)n + 1); ASSERT(!fs::exists("top")); for (int i = 0; i < n; ++i) ASSERT(!fs::exists(path[i])); ASSERT(fs::exists("out") && fs::exists("out/keep") && fs::exists("aside")); REACH("tree");
}
