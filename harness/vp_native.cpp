// Native implementation of the harness interface: replays one recorded input
// vector against the real library compiled by g++.
#include "vp.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// ---- heap accounting
namespace {
struct Ent { void *p; int kind; };
Ent *tab = nullptr;
size_t cap = 0, used = 0;
long live = 0;
size_t slot(void *p) { return ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull; }
void put(void *p, int k) {
  if (used * 2 >= cap) {
    size_t nc = cap ? cap * 2 : 1 << 16;
    Ent *n = (Ent *)calloc(nc, sizeof(Ent));
    for (size_t i = 0; i < cap; i++)
      if (tab[i].p && tab[i].p != (void *)1) { size_t j = slot(tab[i].p) & (nc - 1); while (n[j].p) j = (j + 1) & (nc - 1); n[j] = tab[i]; }
    free(tab); tab = n; cap = nc; used = 0;
    for (size_t i = 0; i < cap; i++) used += tab[i].p != nullptr;
  }
  size_t j = slot(p) & (cap - 1);
  while (tab[j].p && tab[j].p != (void *)1) j = (j + 1) & (cap - 1);
  if (!tab[j].p) used++;
  tab[j] = {p, k}; live++;
}
int take(void *p) {
  if (!cap) return -1;
  size_t j = slot(p) & (cap - 1);
  while (tab[j].p) { if (tab[j].p == p) { tab[j].p = (void *)1; live--; return tab[j].kind; } j = (j + 1) & (cap - 1); }
  return -1;
}
void die(const char *m) { write(2, m, strlen(m)); _exit(3); }
void *get(size_t n, int k) {
  if (n > (1ull << 40)) throw std::bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  put(p, k); return p;
}
void rel(void *p, int k) {
  if (!p) return;
  int r = take(p);
  if (r < 0) { die("HEAP: free of a pointer that is not allocated\n"); }
  if (r != k) die("HEAP: new/delete mismatch\n");
  free(p);
}
} // namespace
void *operator new(size_t n) { return get(n, 1); }
void *operator new[](size_t n) { return get(n, 2); }
void operator delete(void *p) noexcept { rel(p, 1); }
void operator delete(void *p, size_t) noexcept { rel(p, 1); }
void operator delete[](void *p) noexcept { rel(p, 2); }
void operator delete[](void *p, size_t) noexcept { rel(p, 2); }

// ---- inputs
static std::vector<std::string> in;
static size_t pos = 0;
static std::string obs;
static bool failed = false;
static void addObs(const std::string &s) { if (!obs.empty()) obs += ","; obs += s; }
static std::string dstr(double v) {
  if (v != v) return "nan";
  uint64_t b; memcpy(&b, &v, 8);
  char s[32]; snprintf(s, 32, "x%016llx", (unsigned long long)b); return s;
}
static const std::string &next() {
  if (pos >= in.size()) { fprintf(stderr, "INPUT exhausted\n"); _exit(failed ? 1 : 78); /* the path ended at the failed check */ }
  return in[pos++];
}
static void fail(const char *id, const std::string &d) { fprintf(stderr, "FAIL %s %s\n", id, d.c_str()); failed = true; }
static double dval(const std::string &s) {
  if (s[0] == 'x') { uint64_t b = strtoull(s.c_str() + 1, nullptr, 16); double d; memcpy(&d, &b, 8); return d; }
  return atof(s.c_str());
}
struct Tok { bool num; double v; std::string s; };
static std::vector<Tok> toks;
static std::ostringstream *cap_os = nullptr;
static std::streambuf *old = nullptr;
extern "C" {
int vp_int(int lo, int hi) { int v = (int)atoll(next().c_str()); if (v < lo || v > hi) _exit(failed ? 1 : 77); return v; }
double vp_double(void) { return dval(next()); }
double vp_frac(int lo, int hi) { double v = dval(next()); if (!(v > lo - 1.0 && v < hi + 1.0)) _exit(failed ? 1 : 77); return v; }
double vp_real(double lo, double hi) { double v = dval(next()); if (!(v >= lo && v <= hi)) _exit(failed ? 1 : 77); return v; }
bool vp_bool(void) { return atoi(next().c_str()) != 0; }
int vp_pick(int v) { return v; }
void vp_assume(bool c) { if (!c) _exit(failed ? 1 : 77); }
void vp_check(bool c, const char *id) { addObs(c ? "1" : "0"); if (!c) fail(id, ""); }
void vp_eq(double g, double w, const char *id) {
  addObs(dstr(g));
  if (!(g == w || (g != g && w != w))) { char b[96]; snprintf(b, 96, "got %.17g want %.17g", g, w); fail(id, b); }
}
void vp_eqi(long g, long w, const char *id) {
  addObs(std::to_string(g));
  if (g != w) fail(id, "got " + std::to_string(g) + " want " + std::to_string(w));
}
void vp_close(double g, double w, const char *id) {
  addObs(dstr(g));
  if (g == w || (g != g && w != w)) return;
  double sc = fabs(w) > 1 ? fabs(w) : 1;
  if (fabs(g - w) <= 1e-7 * sc) return;
  char b[96]; snprintf(b, 96, "got %.17g want %.17g", g, w); fail(id, b);
}
void vp_obs(double v) { addObs(dstr(v)); }
void vp_reach(const char *) {}
long vp_heap_live(void) { return live; }
void vp_out_begin(void) {
  cap_os = new std::ostringstream; old = std::cout.rdbuf(cap_os->rdbuf());
}
int vp_out_end(void) {
  std::cout.rdbuf(old);
  std::string t = cap_os->str();
  delete cap_os;
  toks.clear();
  size_t i = 0;
  while (i < t.size()) {
    size_t j = t.find_first_of(" \t\n", i);
    if (j == std::string::npos) j = t.size();
    if (j > i) {
      std::string w = t.substr(i, j - i);
      char *e; double v = strtod(w.c_str(), &e);
      toks.push_back({*e == 0, v, w});
    }
    if (j < t.size() && t[j] == '\n') toks.push_back({false, 0, "\n"});
    i = j + 1;
  }
  return (int)toks.size();
}
int vp_out_isnum(int i) { return i >= 0 && i < (int)toks.size() && toks[i].num; }
double vp_out_num(int i) { return i >= 0 && i < (int)toks.size() && toks[i].num ? toks[i].v : -987654.0; }
bool vp_out_text_is(int i, const char *s) { return i >= 0 && i < (int)toks.size() && !toks[i].num && toks[i].s == s; }
}

static void onTerm() { fprintf(stderr, "FAIL terminate (uncaught exception?)\n"); _exit(4); }
typedef void (*Fn)();
static int runOne(const char *entry, const char *inputs) {
  std::string n = std::string("vph_") + entry;
  Fn f = (Fn)dlsym(RTLD_DEFAULT, n.c_str());
  if (!f) { fprintf(stderr, "no entry %s\n", entry); return 79; }
  in.clear(); pos = 0; obs.clear(); obs.reserve(1 << 22); failed = false;
  std::string s = inputs;
  if (s != "-") {
    size_t i = 0;
    while (i <= s.size()) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); in.push_back(s.substr(i, j - i)); i = j + 1; }
  }
  std::string ending = "done";
  in.reserve(in.size() + 1);
  try { f(); } catch (std::exception &e) { ending = "uncaught"; fail("uncaught-exception", e.what()); } catch (...) { ending = "uncaught"; fail("uncaught-exception", ""); }
  printf("%s;%s\n", ending.c_str(), obs.c_str());
  fflush(stdout);
  return failed ? 1 : 0;
}
int main(int argc, char **argv) {
  std::set_terminate(onTerm);
  if (argc >= 4 && !strcmp(argv[1], "--one")) return runOne(argv[2], argv[3]);
  if (argc >= 3 && !strcmp(argv[1], "--batch")) {
    FILE *f = fopen(argv[2], "r");
    char *line = nullptr; size_t n = 0; ssize_t k;
    while ((k = getline(&line, &n, f)) > 0) {
      if (line[k - 1] == '\n') line[k - 1] = 0;
      char *p = strchr(line, ';'); if (!p) continue; *p = 0;
      char *q = strchr(p + 1, ';'); if (q) *q = 0;
      fflush(stdout);
      int fd[2]; if (pipe(fd)) return 9;
      pid_t pid = fork();
      if (pid == 0) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); alarm(20); int r = runOne(line, p + 1); fflush(stdout); _exit(r); }
      close(fd[1]);
      std::string o; char b[4096]; ssize_t m;
      while ((m = read(fd[0], b, sizeof b)) > 0) o.append(b, m);
      close(fd[0]);
      int st = 0; waitpid(pid, &st, 0);
      // the library may print on stdout as well: our record is the last line
      while (!o.empty() && o.back() == '\n') o.pop_back();
      size_t nl = o.rfind('\n');
      std::string last = nl == std::string::npos ? o : o.substr(nl + 1);
      size_t d = last.rfind("done;"), u = last.rfind("uncaught;");
      if (d != std::string::npos) last = last.substr(d); else if (u != std::string::npos) last = last.substr(u); else last = ";";
      printf("%d %s\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st), last.c_str());
    }
    return 0;
  }
  return 79;
}
