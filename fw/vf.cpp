// Driver: generation (random + coverage-guided mutation of choice streams), crash isolation,
// confirmation by replay, shrinking, replay files, evidence summary.
#include "vf.h"
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf {

std::string strf(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); char b[4096]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
void fail(const char* file, int line, const std::string& msg) {
  const char* base = strrchr(file, '/'); base = base ? base + 1 : file;
  throw Violation{strf("%s:%d: ", base, line) + msg};
}
static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed) { for (auto& v : s) v = splitmix(seed); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Rng::next() {
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r;
}

// ------------------------------------------------------------------ Src
uint8_t Src::byte() {
  uint8_t b;
  if (pos_ < pn_) b = pre_[pos_]; else b = rng_ ? (uint8_t)(rng_->next() >> 33) : 0;
  pos_++; rec1(b); return b;
}
uint64_t Src::raw(int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)byte() << (8 * i); return v; }
uint64_t Src::put(int n, uint64_t v) {
  for (int i = 0; i < n; i++) { pos_++; rec1((uint8_t)(v >> (8 * i))); }
  return n >= 8 ? v : v & ((1ULL << (8 * n)) - 1);
}
uint64_t Src::below(uint64_t n) {
  if (n <= 1) return 0;
  int w = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32) ? 4 : 8;
  if (generating()) return put(w, rng_->below(n));
  return raw(w) % n;
}
uint64_t Src::u64(int nb) {
  if (!generating()) return raw(nb);
  Rng& r = *rng_; uint64_t v; bool ok = false;
  switch (r.below(8)) {
    case 0: v = r.below(4); break;
    case 1: v = r.below(300); break;
    case 2: v = r.next(); break;
    case 3: v = r.next() >> r.below(64); break;
    case 4: { int k = (int)r.below(65); v = (k == 64 ? 0 : 1ULL << k) + r.below(5) - 2; break; }
    case 5: v = ~(r.next() >> r.below(64)); break;
    case 6: { static const uint64_t ten[] = {10,100,1000,10000,20000,30000,40000,65536,1000000,1000000000,1700000000,9007199254740992ULL,1000000000000000ULL};
              v = ten[r.below(13)] + r.below(5) - 2; break; }
    default: v = dict_const(r, &ok); if (!ok) v = r.next(); else v += r.below(3) - 1; break;
  }
  return put(nb, v);
}
size_t Src::size(size_t max) {
  int w = max < 256 ? 1 : max < 65536 ? 2 : 4;
  if (!generating()) { uint64_t v = raw(w); return v % (max + 1); }
  Rng& r = *rng_; uint64_t v; bool ok = false;
  switch (r.below(8)) {
    case 0: v = r.below(3); break;
    case 1: case 2: v = r.below(std::min<size_t>(max, 8) + 1); break;
    case 3: v = r.below(std::min<size_t>(max, 40) + 1); break;
    case 4: v = r.below(max + 1); break;
    case 5: { int k = (int)r.below(18); v = (1ULL << k) + r.below(3) - 1; break; }
    case 6: v = max - r.below(std::min<size_t>(max, 3) + 1); break;
    default: v = dict_const(r, &ok); if (!ok || v > max + 1) v = r.below(std::min<size_t>(max, 20) + 1); else v += r.below(3) - 1; break;
  }
  if (v > max) v = r.below(max + 1);
  return put(w, v);
}
std::string Src::bulk(size_t n) {
  Rng r(raw(8)); std::string o(n, 0);
  for (size_t i = 0; i < n; i++) o[i] = (char)(r.next() >> 24);
  return o;
}
size_t Src::weighted(std::initializer_list<unsigned> w) {
  unsigned t = 0; for (auto x : w) t += x;
  uint64_t v = below(t); size_t i = 0;
  for (auto x : w) { if (v < x) return i; v -= x; i++; }
  return 0;
}
void Ctx::note(const char* fmt, ...) {
  if (!verbose) return;
  va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); fflush(stdout);
}
std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
Reg::Reg(const char* id, const char* name, unsigned weight, PropFn fn) { props().push_back({id, name, weight, fn}); }
void (*before_case)() = nullptr;
void (*after_case)() = nullptr;

// ------------------------------------------------------------------ coverage + dictionary
static uint8_t *cov_begin = nullptr, *cov_end = nullptr;
static std::vector<uint8_t> virgin;
static bool dict_on = false;
static uint64_t dict_tab[4096]; static uint16_t dict_list[2048]; static unsigned dict_n = 0;
static std::vector<std::string> sdict; static std::unordered_set<std::string>* sdict_set;
static inline void dict_add(uint64_t v) {
  if (!dict_on || v < 4 || dict_n >= 2048) return;
  unsigned h = (unsigned)((v * 0x9e3779b97f4a7c15ULL) >> 52);
  for (unsigned k = 0; k < 8; k++) { unsigned i = (h + k) & 4095; if (dict_tab[i] == v) return; if (!dict_tab[i]) { dict_tab[i] = v; dict_list[dict_n++] = (uint16_t)i; return; } }
}
uint64_t dict_const(Rng& r, bool* ok) { *ok = dict_n > 0; return dict_n ? dict_tab[dict_list[r.below(dict_n)]] : 0; }
std::string dict_string(Rng& r, bool* ok) { *ok = !sdict.empty(); return *ok ? sdict[r.below(sdict.size())] : std::string(); }
static void sdict_add(const char* p, size_t max) {
  if (!dict_on || !p) return;
  size_t n = strnlen(p, max < 25 ? max : 25); if (n < 1 || n > 24) return;
  if (sdict.size() >= 600) return;
  bool was = dict_on; dict_on = false;
  std::string v(p, n);
  if (!sdict_set) sdict_set = new std::unordered_set<std::string>();
  if (sdict_set->insert(v).second) sdict.push_back(v);
  dict_on = was;
}
// Only constants are harvested: comparing two runtime strings is noise.
static bool is_static(const void* p);

// ------------------------------------------------------------------ shared state
struct Shm {
  volatile uint64_t case_no;        // heartbeat
  volatile size_t rec_len;
  volatile int status;              // 0 running, 1 violation, 2 done
  volatile int racy;                // the outcome of this case depends on the schedule
  char msg[8192];
  uint8_t rec[1 << 20];
};
static const size_t REC_CAP = 1 << 20;

static Shm* g_sh = nullptr;
void racy() { if (g_sh) g_sh->racy = 1; }
static std::string g_prop; static std::string g_only;
static std::vector<Prop> g_sel; static unsigned g_wsum;

enum Res { OK = 0, DISC = 1, VIOL = 2 };
static Res run_case(Src& s, Ctx& c, std::string* msg) {
  Res res = OK;
  if (before_case) before_case();
  dict_on = s.generating();
  try {
    unsigned v = (unsigned)s.below(g_wsum); size_t k = 0;
    while (k + 1 < g_sel.size() && v >= g_sel[k].weight) { v -= g_sel[k].weight; k++; }
    c.label(std::string("sub:") + g_sel[k].name);
    g_sel[k].fn(s, c);
    dict_on = false;
  } catch (Violation& v) { dict_on = false; *msg = v.msg; res = VIOL; }
  catch (Discard&) { dict_on = false; res = DISC; }
  if (after_case) { try { after_case(); } catch (Violation& v) { if (res != VIOL) { *msg = v.msg; res = VIOL; } } }
  return res;
}

static uint64_t hash_bytes(const uint8_t* p, size_t n) {
  uint64_t h = 0xcbf29ce484222325ULL ^ n; for (size_t i = 0; i < n; i++) { h = (h ^ p[i]) * 0x100000001b3ULL; h ^= h >> 29; } return h;
}
static std::string jesc(const std::string& s) {
  std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if (ch < 0x20 || ch > 0x7e) o += strf("\\u%04x", ch); else o += (char)ch; } return o;
}
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static inline uint8_t bucket(uint8_t c) { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
static bool cov_update() {
  bool nw = false; size_t n = cov_end - cov_begin;
  for (size_t i = 0; i < n;) {
    if (i + 8 <= n) { uint64_t w; memcpy(&w, cov_begin + i, 8); if (!w) { i += 8; continue; } }
    uint8_t b = bucket(cov_begin[i]); if (b & ~virgin[i]) { virgin[i] |= b; nw = true; } i++;
  }
  return nw;
}

static std::vector<uint8_t> mutate(const std::vector<std::vector<uint8_t>>& corpus, Rng& r) {
  std::vector<uint8_t> v = corpus[r.below(4) ? r.below(corpus.size()) : corpus.size() - 1 - r.below(std::min<size_t>(corpus.size(), 16))];
  unsigned k = 1 + (unsigned)r.below(4);
  while (k--) {
    if (v.empty()) break;
    size_t p = 1 + r.below(v.size()); if (p >= v.size()) p = v.size() - 1;   // mostly keep the sub-property selector
    switch (r.below(9)) {
      case 0: v[p] ^= (uint8_t)(1 << r.below(8)); break;
      case 1: v[p] = (uint8_t)r.next(); break;
      case 2: v[p] = (uint8_t)(v[p] + r.below(9) - 4); break;
      case 3: v[p] = r.below(2) ? 0 : 255; break;
      case 4: { size_t n = 1 + r.below(8); n = std::min(n, v.size() - p); v.erase(v.begin() + p, v.begin() + p + n); break; }
      case 5: { size_t n = 1 + r.below(8); std::vector<uint8_t> ins(n); for (auto& b : ins) b = (uint8_t)r.next(); v.insert(v.begin() + p, ins.begin(), ins.end()); break; }
      case 6: v.resize(p); break;                                          // truncate; random tail follows
      case 7: { const auto& o = corpus[r.below(corpus.size())]; if (o.size() > 1) { size_t a = 1 + r.below(o.size() - 1), n = 1 + r.below(o.size() - a); v.resize(p); v.insert(v.end(), o.begin() + a, o.begin() + a + n); } break; }
      default: { bool ok; uint64_t d = dict_const(r, &ok); if (ok) for (int i = 0; i < (1 << r.below(4)) && p + i < v.size(); i++) v[p + i] = (uint8_t)(d >> (8 * i)); break; }
    }
  }
  if (v.size() > 16384) v.resize(16384);
  return v;
}

struct Stats {
  uint64_t evals = 0, disc = 0, nontriv = 0; std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels; std::vector<std::pair<std::string, std::string>> samples;
};

static void worker(int w, uint64_t seed, uint64_t ncases, uint64_t stop_at, double deadline, Shm* sh, const std::string& out, bool guided) {
  Rng r(seed * 0x1000003ULL + w * 7919 + 17);
  virgin.assign(cov_end - cov_begin, 0);
  std::vector<std::vector<uint8_t>> corpus; Stats st; std::map<std::string, int> per_label;
  bool timed_out = false; uint64_t i = 0;
  for (; i < ncases; i++) {
    if ((i & 15) == 0 && stop_at == 0 && now_s() > deadline) { timed_out = true; break; }
    std::vector<uint8_t> pre;
    if (guided && !corpus.empty() && r.below(100) < 40) pre = mutate(corpus, r);
    Rng cr(r.next());
    if (cov_begin) memset(cov_begin, 0, cov_end - cov_begin);
    sh->case_no = i + 1; sh->rec_len = 0; sh->racy = 0; g_sh = sh;
    Src s(pre.data(), pre.size(), &cr, sh->rec, &sh->rec_len, REC_CAP);
    Ctx c; std::string msg;
    Res res = run_case(s, c, &msg);
    if (res == VIOL) { snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str()); sh->status = 1; _exit(77); }
    st.evals++;
    if (res == DISC) { st.disc++; continue; }
    if (cov_begin && guided && sh->rec_len < 16384 && cov_update() && corpus.size() < 4000) corpus.emplace_back(sh->rec, sh->rec + sh->rec_len);
    for (auto& l : c.labels) st.labels[l]++;
    if (c.is_nontrivial) {
      st.nontriv++; if (st.hashes.size() < 400000) st.hashes.insert(hash_bytes(sh->rec, sh->rec_len));
      if (!c.sample_text.empty() && st.samples.size() < 12) { std::string k = c.labels.empty() ? "" : c.labels[0]; if (per_label[k]++ < 2) st.samples.push_back({k, c.sample_text}); }
    }
  }
  size_t cov = 0; for (auto b : virgin) if (b) cov++;
  FILE* f = fopen((out + "/w" + std::to_string(w) + ".txt").c_str(), "w");
  if (f) {
    fprintf(f, "evals %llu\ndisc %llu\nnontriv %llu\ncorpus %zu\ncov %zu\ncovtotal %zu\ntimedout %d\n", (unsigned long long)st.evals, (unsigned long long)st.disc, (unsigned long long)st.nontriv, corpus.size(), cov, virgin.size(), timed_out);
    for (auto& l : st.labels) fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
    for (auto& s : st.samples) fprintf(f, "S {\"class\":\"%s\",\"case\":\"%s\"}\n", jesc(s.first).c_str(), jesc(s.second).c_str());
    fclose(f);
  }
  f = fopen((out + "/w" + std::to_string(w) + ".hash").c_str(), "wb");
  if (f) { for (auto h : st.hashes) fwrite(&h, 8, 1, f); fclose(f); }
  sh->status = 2; _exit(0);
}

// run one stream in a fresh child. returns 0 ok/discard, 1 violation, 2 crash, 3 hang
static double g_wall = 40, g_wall_shrink = 4, g_fork_wall = 0;     // a case that neither progresses nor uses CPU for this long is blocked
static double cpu_of(pid_t p) { clockid_t cid; timespec ts; return clock_getcpuclockid(p, &cid) == 0 && clock_gettime(cid, &ts) == 0 ? ts.tv_sec + ts.tv_nsec * 1e-9 : 0; }
static int wait_child(pid_t p, double wall, bool* blocked) {
  *blocked = false; int st; double t = now_s(), lc = 0; useconds_t nap = 200;
  while (waitpid(p, &st, WNOHANG) != p) { usleep(nap); if (nap < 5000) nap *= 2; double c = cpu_of(p); if (c > lc + 0.02) { lc = c; t = now_s(); } if (now_s() - t > wall) { kill(p, SIGKILL); waitpid(p, &st, 0); *blocked = true; break; } }
  return st;
}
static bool g_racy = false; static int g_tries = 1;     // cases whose outcome depends on the schedule: tried several times, one failure counts
static int try_once(const std::vector<uint8_t>& b, Shm* sh, std::string* msg, bool verbose, int cpu_limit, double wall = 0) {
  sh->status = 0; sh->msg[0] = 0; sh->racy = 0; g_sh = sh;
  char errp[] = "/tmp/vf_err_XXXXXX"; int efd = mkstemp(errp); unlink(errp);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    if (wall > 0) g_fork_wall = 2;
    if (!verbose) { dup2(efd, 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); }
    rlimit rl{(rlim_t)cpu_limit, (rlim_t)cpu_limit + 2}; setrlimit(RLIMIT_CPU, &rl);
    virgin.assign(cov_end - cov_begin, 0);
    std::vector<uint8_t> scratch(REC_CAP); volatile size_t rl2 = 0;
    Src s(b.data(), b.size(), nullptr, scratch.data(), &rl2, REC_CAP);
    Ctx c; c.verbose = verbose; std::string m; Res r = run_case(s, c, &m);
    if (verbose && !c.sample_text.empty()) { printf("case: %s\n", c.sample_text.c_str()); }
    if (r == VIOL) { snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); sh->status = 1; if (verbose) { printf("violated: %s\n", m.c_str()); } fflush(stdout); _exit(77); }
    sh->status = 2; fflush(stdout); _exit(0);
  }
  bool blocked; int st = wait_child(p, wall > 0 ? wall : g_wall, &blocked);
  int res = 0;
  if (blocked) { res = 3; *msg = "hang: the case is blocked (no progress, no CPU use)"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status == 2) res = 0;
  else if (sh->status == 1) { res = 1; *msg = sh->msg; }
  else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { res = 3; *msg = "hang: the case used more than " + std::to_string(cpu_limit) + " s of CPU"; }
  else {
    res = 2; std::string e; char buf[4096]; lseek(efd, 0, SEEK_SET); ssize_t n = read(efd, buf, sizeof buf - 1); if (n > 0) e.assign(buf, n);
    *msg = strf("crash (wait status 0x%x): ", st) + e.substr(0, 3500);
  }
  close(efd); return res;
}
static int try_bytes(const std::vector<uint8_t>& b, Shm* sh, std::string* msg, bool verbose, int cpu_limit, double wall = 0) {
  for (int k = 0; k < (g_racy || (k && sh->racy) ? g_tries : 1); k++) { int r = try_once(b, sh, msg, verbose && !k, cpu_limit, wall); if (r) return r; }
  return 0;
}
static std::string first_line(const std::string& m) {
  size_t p = m.find("SUMMARY:"); std::string l = p != std::string::npos ? m.substr(p) : m;
  p = m.find("runtime error:"); if (p != std::string::npos) { size_t b = m.rfind('\n', p); l = m.substr(b == std::string::npos ? 0 : b + 1); }
  else { p = m.find("ERROR: AddressSanitizer"); if (p != std::string::npos) l = m.substr(p); }
  return l.substr(0, l.find('\n'));
}
static std::vector<uint8_t> shrink(std::vector<uint8_t> b, Shm* sh, double budget, int cls, int cpu_limit) {
  double end = now_s() + budget; std::string m;
  auto bad = [&](const std::vector<uint8_t>& x) { return now_s() < end && try_bytes(x, sh, &m, false, cpu_limit, g_wall_shrink) == cls; };
  while (!b.empty() && b.back() == 0) { auto x = b; x.pop_back(); b = x; }   // zeros are implied by replay
  bool progress = true;
  while (progress && now_s() < end) {
    progress = false;
    { std::vector<uint8_t> x; size_t lo = 0, hi = b.size();                  // truncate
      while (lo < hi && now_s() < end) { size_t mid = (lo + hi) / 2; x.assign(b.begin(), b.begin() + mid); if (bad(x)) { hi = mid; } else lo = mid + 1; }
      if (hi < b.size()) { x.assign(b.begin(), b.begin() + hi); if (bad(x)) { b = x; progress = true; } } }
    for (size_t k = b.size() / 2; k >= 1; k /= 2) {                           // delete chunks
      for (size_t i = 0; i + k <= b.size() && now_s() < end;) { auto x = b; x.erase(x.begin() + i, x.begin() + i + k); if (bad(x)) { b = x; progress = true; } else i += k; }
      if (now_s() >= end) break;
    }
    for (size_t k = std::min<size_t>(b.size(), 64); k >= 2; k /= 2)           // zero chunks
      for (size_t i = 0; i + k <= b.size() && now_s() < end; i += k) { bool z = true; for (size_t j = 0; j < k; j++) z &= b[i + j] == 0; if (z) continue; auto x = b; std::fill(x.begin() + i, x.begin() + i + k, 0); if (bad(x)) { b = x; progress = true; } }
    for (size_t i = 0; i < b.size() && now_s() < end; i++) {                  // lower bytes
      if (!b[i]) continue;
      for (uint8_t v : {(uint8_t)0, (uint8_t)1, (uint8_t)(b[i] / 2), (uint8_t)(b[i] - 1)}) { if (v >= b[i]) continue; auto x = b; x[i] = v; if (bad(x)) { b = x; progress = true; break; } }
    }
  }
  while (!b.empty() && b.back() == 0) b.pop_back();
  return b;
}
static bool is_static(const void*) { return true; }

// Runs fn in a child process of its own, so that state the library never gives back (initialised
// configuration, threads) does not outlive the case. Coverage is carried back.
void forked(const std::function<void()>& fn, double wall) {
  static char* box = nullptr; size_t n = cov_end - cov_begin; static const size_t MSG = 8192;
  if (!box) box = (char*)mmap(nullptr, MSG + n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static int efd = -1; if (efd < 0) { char errp[] = "/tmp/vf_fk_XXXXXX"; efd = mkstemp(errp); unlink(errp); }
  box[0] = 0; if (ftruncate(efd, 0)) {} lseek(efd, 0, SEEK_SET); bool d = dict_on; dict_on = false; fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(efd, 2); rlimit rl{25, 27}; setrlimit(RLIMIT_CPU, &rl); int code = 0;
    try { fn(); } catch (Violation& v) { snprintf(box + 1, MSG - 2, "%s", v.msg.c_str()); box[0] = 1; code = 77; } catch (Discard&) { box[0] = 2; code = 78; }
    if (n) memcpy(box + MSG, cov_begin, n);
    _exit(code);
  }
  bool blocked; int st = wait_child(p, g_fork_wall > 0 ? std::min(wall, g_fork_wall) : wall, &blocked); dict_on = d;
  if (blocked) fail("forked", 0, "the case is blocked (deadlock): no progress and no CPU use");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && box[0] == 1) throw Violation{box + 1};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78 && box[0] == 2) throw Discard();
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { std::string e(6000, 0); lseek(efd, 0, SEEK_SET); ssize_t k = read(efd, &e[0], e.size()); e.resize(k > 0 ? k : 0); fail("forked", 0, strf("crash (wait status 0x%x): ", st) + e); }
  for (size_t i = 0; i < n; i++) if (box[MSG + i]) cov_begin[i] = (uint8_t)box[MSG + i];
}

static std::string hex(const std::vector<uint8_t>& b) { std::string o; for (auto x : b) o += strf("%02x", x); return o; }
static std::vector<uint8_t> unhex(const std::string& h) { std::vector<uint8_t> o; for (size_t i = 0; i + 1 < h.size(); i += 2) o.push_back((uint8_t)strtoul(h.substr(i, 2).c_str(), nullptr, 16)); return o; }

}  // namespace vf

using namespace vf;
extern "C" {
#ifndef VF_NO_COV
void __sanitizer_cov_8bit_counters_init(char* b, char* e) { cov_begin = (uint8_t*)b; cov_end = (uint8_t*)e; }
void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
#define CC(n, t) void __sanitizer_cov_trace_const_cmp##n(t a, t) { dict_add((uint64_t)a); } void __sanitizer_cov_trace_cmp##n(t, t) {}
CC(1, uint8_t) CC(2, uint16_t) CC(4, uint32_t) CC(8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t, uint64_t* c) { for (uint64_t i = 0; i < c[0] && i < 64; i++) dict_add(c[2 + i]); }
void __sanitizer_cov_trace_div4(uint32_t) {}
void __sanitizer_cov_trace_div8(uint64_t) {}
void __sanitizer_cov_trace_gep(uintptr_t) {}
void __sanitizer_weak_hook_strcmp(void*, const char* a, const char* b, int) { sdict_add(a, 64); sdict_add(b, 64); }
void __sanitizer_weak_hook_strncmp(void*, const char* a, const char* b, size_t n, int) { sdict_add(a, n); sdict_add(b, n); }
void __sanitizer_weak_hook_strcasecmp(void*, const char* a, const char* b, int) { sdict_add(a, 64); sdict_add(b, 64); }
void __sanitizer_weak_hook_strstr(void*, const char*, const char* b, char*) { sdict_add(b, 64); }
#endif
const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:handle_abort=1:detect_stack_use_after_return=1:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=16:handle_segv=1"; }
const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
const char* __tsan_default_options() { return "exitcode=98:halt_on_error=1:second_deadlock_stack=1"; }
}

static const char* arg(int argc, char** argv, const char* k, const char* d) { for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1]; return d; }

int main(int argc, char** argv) {
  g_prop = arg(argc, argv, "--prop", ""); g_only = arg(argc, argv, "--only", "");
  const char* variant = arg(argc, argv, "--variant", "openssl");
  for (auto& p : props()) if (g_prop == p.id) { if (g_only.empty() || g_only == p.name) g_sel.push_back(p); }
  std::sort(g_sel.begin(), g_sel.end(), [](const Prop& a, const Prop& b) { return strcmp(a.name, b.name) < 0; });
  for (auto& p : g_sel) g_wsum += p.weight;
  if (g_sel.empty()) { fprintf(stderr, "no such property %s\n", g_prop.c_str()); return 2; }
  int cpu_limit = atoi(arg(argc, argv, "--hang", "25"));
  Shm* rs = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_racy = atoi(arg(argc, argv, "--racy", "0"));
  const char* rf = arg(argc, argv, "--replay", nullptr);
  if (rf) {
    FILE* f = fopen(rf, "r"); if (!f) { perror(rf); return 2; }
    std::string t; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) t.append(buf, n); fclose(f);
    size_t p = t.find("\nbytes="); if (p == std::string::npos) { fprintf(stderr, "bad replay file\n"); return 2; }
    size_t e = t.find('\n', p + 7); std::vector<uint8_t> b = unhex(t.substr(p + 7, e - p - 7));
    g_tries = 100; std::string m; int r = try_bytes(b, rs, &m, true, cpu_limit);
    printf("replay result: %s %s\n", r == 0 ? "property held" : r == 1 ? "VIOLATED" : r == 2 ? "CRASHED" : "HUNG", m.c_str());
    return r ? 1 : 0;
  }
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10), cases = strtoull(arg(argc, argv, "--cases", "1000"), nullptr, 10);
  int nw = atoi(arg(argc, argv, "--workers", "4")), wbase = atoi(arg(argc, argv, "--wbase", "0"));
  double cap = atof(arg(argc, argv, "--timecap", "120")), shr = atof(arg(argc, argv, "--shrink", "15"));
  bool guided = atoi(arg(argc, argv, "--guided", "1"));
  std::string out = arg(argc, argv, "--out", "/tmp/vf_out"); mkdir(out.c_str(), 0777);
  struct W { pid_t pid; Shm* sh; uint64_t last_case; double last_cpu; bool done; double t_cpu, seen_cpu; };
  std::vector<W> ws;
  double deadline = now_s() + cap;
  auto spawn = [&](int w, Shm* sh, uint64_t ncases, uint64_t stop_at) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      int fd = open((out + "/w" + std::to_string(w) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(fd, 2);
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
      worker(w, seed, ncases, stop_at, deadline, sh, out, guided);
    }
    return p;
  };
  for (int i = 0; i < nw; i++) {
    Shm* sh = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    W w{0, sh, 0, 0, false, now_s(), 0}; w.pid = spawn(wbase + i, sh, cases, 0); ws.push_back(w);
  }
  int rc = 0; std::set<std::string> seen; int left = nw;
  auto handle = [&](int i, bool hang) {
    Shm* sh = ws[i].sh; std::vector<uint8_t> b(sh->rec, sh->rec + sh->rec_len);
    uint64_t at = sh->case_no;
    int cls = -1; std::string m; int confirmed = 0;
    if (g_racy || sh->racy) {
      int st0 = sh->status; std::string m0 = sh->msg; g_tries = 40; int r = try_bytes(b, rs, &m, false, cpu_limit); if (r) { cls = r; confirmed = 3; g_tries = 4; }
      else {
        std::string e; if (FILE* f = fopen((out + "/w" + std::to_string(wbase + i) + ".err").c_str(), "r")) { char buf[6000]; size_t n = fread(buf, 1, sizeof buf, f); e.assign(buf, n); fclose(f); }
        if (st0 == 1) { cls = 1; m = m0; confirmed = 4; } else if (!hang && e.find("ThreadSanitizer") != std::string::npos) { cls = 2; m = "seen once: " + e.substr(0, 3500); confirmed = 4; }
      }
    }
    if (confirmed < 3) for (int k = 0; k < 3; k++) { std::string mm; int r = try_bytes(b, rs, &mm, false, cpu_limit); if (r) { if (cls < 0) { cls = r; m = mm; } if (r == cls) confirmed++; } }
    std::string spec;
    if (confirmed < 3) {
      // Not a function of this case alone: rerun the same worker deterministically up to the same case.
      (void)hang; memset((void*)sh, 0, offsetof(Shm, rec)); 
      pid_t p = spawn(wbase + i, sh, at, at); int st; waitpid(p, &st, 0);
      if ((sh->status == 1 || sh->status == 0) && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && sh->case_no == at) { spec = strf("history of worker %d, seed %llu, cases 1..%llu", wbase + i, (unsigned long long)seed, (unsigned long long)at); m = sh->msg[0] ? sh->msg : "crash (see worker log)"; cls = 4; }
      else { fprintf(stderr, "note: unconfirmed failure of worker %d at case %llu (replays held)\n", i, (unsigned long long)at); printf("UNCONFIRMED worker=%d case=%llu\n", i, (unsigned long long)at); return; }
    } else if (confirmed == 3) { b = shrink(b, rs, shr, cls, cpu_limit); std::string mm; if (try_bytes(b, rs, &mm, false, cpu_limit) == cls) m = mm; }
    if (confirmed == 4) spec = "depends on the schedule: seen once, not in 40 replays";
    std::string key = first_line(m).substr(0, 60);
    if (!seen.insert(key).second) { rc = 1; return; }
    std::string path = out + "/replay_" + g_prop + "_" + variant + "_" + std::to_string(seen.size()) + ".txt";
    FILE* f = fopen(path.c_str(), "w");
    fprintf(f, "property=%s\nvariant=%s\nclass=%s\nseed=%llu\nbytes=%s\n%s\nmessage:\n%s\n", g_prop.c_str(), variant, cls == 1 ? "violation" : cls == 2 ? "crash" : cls == 3 ? "hang" : "history", (unsigned long long)seed, hex(b).c_str(), spec.c_str(), m.c_str());
    fclose(f);
    printf("VIOLATION property=%s replay=%s\n  %s\n", g_prop.c_str(), path.c_str(), m.substr(0, 1500).c_str()); fflush(stdout);
    rc = 1;
  };
  while (left) {
    usleep(20000);
    for (size_t i = 0; i < ws.size(); i++) {
      W& w = ws[i]; if (w.done) continue;
      int st; pid_t r = waitpid(w.pid, &st, WNOHANG);
      if (r == w.pid) { w.done = true; left--; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.sh->status == 2)) { if (rc == 0) { for (auto& o : ws) if (!o.done) kill(o.pid, SIGSTOP); handle((int)i, false); for (auto& o : ws) if (!o.done) { kill(o.pid, SIGCONT); o.t_cpu = now_s(); } } } continue; }
      double cpu = cpu_of(w.pid); if (w.sh->case_no != w.last_case || cpu > w.seen_cpu + 0.02) { w.t_cpu = now_s(); w.seen_cpu = cpu; }
      if (w.sh->case_no != w.last_case) { w.last_case = w.sh->case_no; w.last_cpu = cpu; }
      else if (now_s() - w.t_cpu > g_wall + 10) { kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); w.done = true; left--; if (rc == 0) handle((int)i, true); }
      else if (cpu - w.last_cpu > cpu_limit) { kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); w.done = true; left--; if (rc == 0) handle((int)i, true); }
    }
    if (rc) { for (auto& w : ws) if (!w.done) { kill(w.pid, SIGKILL); waitpid(w.pid, nullptr, 0); w.done = true; } break; }
    if (now_s() > deadline + 200) { printf("STUCK\n"); for (auto& w : ws) if (!w.done) { kill(w.pid, SIGKILL); waitpid(w.pid, nullptr, 0); } return 2; }
  }
  return rc;
}
