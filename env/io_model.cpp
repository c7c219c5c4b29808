// In-memory file system behind the replacement streams, the POSIX calls the library makes, and
// the zlib model.  Used under the engine and in the native replay: nothing touches the real disk.
#include <fstream>
#include <iostream>
#include <string>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <zlib.h>
#include "osym.h"
namespace std { inline namespace osym_io { ostream cout, cerr, clog; istream cin; } }
namespace osymfs {
enum { MAXN = 256 };
static Node* nodes[MAXN]; static int nn = 0;
static std::string norm(char const* p) { std::string s(p); while (s.size() > 1 && s.back() == '/') s.pop_back(); if (s.size() > 2 && s[0] == '.' && s[1] == '/') s = s.substr(2); return s; }
static bool isRoot(std::string const& s) { return s.empty() || s == "." || s == "/"; }
static Node* exact(std::string const& p) { for (int i = 0; i < nn; ++i) if (nodes[i] && nodes[i]->path == p) return nodes[i]; return nullptr; }
static bool anyLink = false;
// replaces symbolic links among the leading components (and the last one when asked) by their targets
static std::string resolve(std::string p, bool last) {
  if (!anyLink) return p;
  for (int hops = 0; hops < 8; ++hops) { bool again = false; for (size_t k = 1; k <= p.size() && !again; ++k) if (k == p.size() ? last : p[k] == '/') { Node* n = exact(p.substr(0, k)); if (n && n->link) { p = n->data + p.substr(k); again = true; } } if (!again) return p; }
  return std::string("?loop");
}
Node* find(char const* path) { return exact(resolve(norm(path), true)); }
static bool parentExists(std::string const& p) { size_t k = p.find_last_of('/'); if (k == std::string::npos || k == 0) return true; std::string par = p.substr(0, k); if (isRoot(par)) return true; Node* n = find(par.c_str()); return n && n->dir; }
Node* create(char const* path, bool dir) {
  std::string p = resolve(norm(path), true); if (!parentExists(p) || isRoot(p)) return nullptr;
  int i = 0; while (i < nn && nodes[i]) ++i; if (i == MAXN) abort(); if (i == nn) ++nn;
  nodes[i] = new Node; nodes[i]->path = p; nodes[i]->dir = dir; nodes[i]->link = false; return nodes[i];
}
Node* symlink(char const* target, char const* path) { Node* n = create(path, false); if (n) { n->link = true; n->data = target; anyLink = true; } return n; }
}
using namespace osymfs;
struct OsymDir { std::string prefix; int i; struct dirent e; };
extern "C" {
int __wrap_mkdir(char const* p, mode_t) { if (isRoot(norm(p)) || find(p)) { errno = EEXIST; return -1; } if (!create(p, true)) { errno = ENOENT; return -1; } return 0; }
int __wrap_access(char const* p, int) { if (isRoot(norm(p)) || find(p)) return 0; errno = ENOENT; return -1; }
int __wrap_stat(char const* p, struct stat* st) { memset(st, 0, sizeof *st); if (isRoot(norm(p))) { st->st_mode = S_IFDIR | 0755; return 0; } Node* n = find(p); if (!n) { errno = ENOENT; return -1; } st->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = (off_t)n->data.size(); return 0; }
int __wrap_lstat(char const* p, struct stat* st) { std::string s = norm(p); Node* n = isRoot(s) ? nullptr : exact(resolve(s, false)); if (n && n->link) { memset(st, 0, sizeof *st); st->st_mode = S_IFLNK | 0777; return 0; } return __wrap_stat(p, st); }
int __wrap_remove(char const* p) {
  std::string s = resolve(norm(p), false); for (int i = 0; i < nn; ++i) if (nodes[i] && nodes[i]->path == s) {
    if (nodes[i]->dir) for (int j = 0; j < nn; ++j) if (nodes[j] && nodes[j]->path.size() > s.size() && nodes[j]->path.compare(0, s.size(), s) == 0 && nodes[j]->path[s.size()] == '/') { errno = ENOTEMPTY; return -1; }
    delete nodes[i]; nodes[i] = nullptr; return 0; }
  errno = ENOENT; return -1;
}
int __wrap_rmdir(char const* p) { return __wrap_remove(p); }
int __wrap_unlink(char const* p) { return __wrap_remove(p); }
char* __wrap_getcwd(char* b, size_t n) { if (n < 5) { errno = ERANGE; return nullptr; } strcpy(b, "/cwd"); return b; }
DIR* __wrap_opendir(char const* p) { std::string s = resolve(norm(p), true); if (!isRoot(s)) { Node* n = find(p); if (!n || !n->dir) { errno = ENOENT; return nullptr; } } OsymDir* d = new OsymDir; d->prefix = isRoot(s) ? std::string() : s + "/"; d->i = -2; return (DIR*)d; }
struct dirent* __wrap_readdir(DIR* q) {
  OsymDir* d = (OsymDir*)q; memset(&d->e, 0, sizeof d->e);
  for (;;) {
    int i = d->i++; if (i == -2) { strcpy(d->e.d_name, "."); return &d->e; } if (i == -1) { strcpy(d->e.d_name, ".."); return &d->e; }
    if (i >= nn) { --d->i; return nullptr; } if (!nodes[i]) continue;
    std::string const& s = nodes[i]->path; if (s.size() <= d->prefix.size() || s.compare(0, d->prefix.size(), d->prefix) != 0) continue;
    std::string r = s.substr(d->prefix.size()); if (r.find('/') != std::string::npos) continue;
    strcpy(d->e.d_name, r.c_str()); return &d->e;
  }
}
int __wrap_closedir(DIR* q) { delete (OsymDir*)q; return 0; }
int __wrap_system(char const*) { osym_assert(0, "the program runs a shell command"); return -1; }
uLong compressBound(uLong n) { return n + 9; }
int compress2(Bytef* d, uLongf* dn, const Bytef* s, uLong n, int) {
  if (*dn < n + 9) return Z_BUF_ERROR;
  for (int i = 0; i < 8; ++i) d[i] = (Bytef)(n >> (8 * i)); d[8] = 0x78; if (n) memcpy(d + 9, s, n); *dn = n + 9; return Z_OK;
}
int compress(Bytef* d, uLongf* dn, const Bytef* s, uLong n) { return compress2(d, dn, s, n, 1); }
int uncompress(Bytef* d, uLongf* dn, const Bytef* s, uLong n) {
  if (n < 9 || s[8] != 0x78) return Z_DATA_ERROR;
  uLong m = 0; for (int i = 0; i < 8; ++i) m |= (uLong)s[i] << (8 * i);
  if (m > n - 9) return Z_DATA_ERROR; if (*dn < m) return Z_BUF_ERROR; if (m) memcpy(d, s + 9, m); *dn = m; return Z_OK;
}
}
