// Property-based testing framework: choice-stream source, checks, registration.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <string>
#include <vector>
#include <functional>

namespace vf {

struct Violation { std::string msg; };
struct Discard {};            // case rejected by the generator (counted, never a failure)

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* file, int line, const std::string& msg);

#define CHECK(c, ...) do { if (!(c)) ::vf::fail(__FILE__, __LINE__, std::string(#c) + " -- " + ::vf::strf(__VA_ARGS__)); } while (0)
#define REQUIRE_CASE(c) do { if (!(c)) throw ::vf::Discard(); } while (0)

struct Rng {                  // xoshiro256**
  uint64_t s[4];
  explicit Rng(uint64_t seed);
  uint64_t next();
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

// The source of every random choice. It reads a byte stream; when the prefix is exhausted it
// continues with the PRNG (generation) or with zeros (replay). All consumed bytes are recorded, so
// every case is a pure function of its recorded stream.
class Src {
 public:
  Src(const uint8_t* prefix, size_t n, Rng* rng, uint8_t* rec, volatile size_t* rec_len, size_t cap)
      : pre_(prefix), pn_(n), rng_(rng), rec_(rec), rlen_(rec_len), cap_(cap) { *rlen_ = 0; }
  bool generating() const { return rng_ && pos_ >= pn_; }
  Rng& rng() { return *rng_; }
  uint64_t raw(int nbytes);                       // uniform bytes
  uint64_t put(int nbytes, uint64_t v);           // generation only: record a chosen value
  uint64_t below(uint64_t n);                     // [0,n)
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // 0 => false
  bool flip() { return raw(1) & 1; }
  uint8_t u8() { return (uint8_t)raw(1); }
  uint64_t u64(int nbytes = 8);                   // biased: boundaries, small, dictionary constants
  // size: biased small, sometimes dictionary constants +-1, <= max
  size_t size(size_t max);
  std::string bulk(size_t n);                     // n pseudo-random bytes from an 8-byte seed
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
  size_t weighted(std::initializer_list<unsigned> w);
  size_t consumed() const { return pos_; }
  size_t remaining_prefix() const { return pn_ > pos_ ? pn_ - pos_ : 0; }
 private:
  uint8_t byte();
  void rec1(uint8_t b) { if (*rlen_ < cap_) { rec_[*rlen_] = b; *rlen_ = *rlen_ + 1; } }
  const uint8_t* pre_; size_t pn_; size_t pos_ = 0; Rng* rng_;
  uint8_t* rec_; volatile size_t* rlen_; size_t cap_;
};

// Per-case context
struct Ctx {
  bool verbose = false;
  bool is_nontrivial = false;
  std::vector<std::string> labels;
  std::string sample_text;
  void label(const std::string& l) { labels.push_back(l); }
  void nontrivial() { is_nontrivial = true; }
  void nontrivial(const char* l) { is_nontrivial = true; labels.push_back(l); }
  void sample(const std::string& s) { if (sample_text.size() < 600) { if (!sample_text.empty()) sample_text += " | "; sample_text += s.substr(0, 600); } }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

typedef void (*PropFn)(Src&, Ctx&);
struct Prop { const char* id; const char* name; unsigned weight; PropFn fn; };
struct Reg { Reg(const char* id, const char* name, unsigned weight, PropFn fn); };
std::vector<Prop>& props();
#define PROP(ID, NAME, W) static void ID##_##NAME(::vf::Src&, ::vf::Ctx&); \
  static ::vf::Reg reg_##ID##_##NAME(#ID, #NAME, W, ID##_##NAME); \
  static void ID##_##NAME(::vf::Src& s, ::vf::Ctx& c)

// Optional hook run before every case (reset of global state).
extern void (*before_case)();
extern void (*after_case)();

// Run fn in a child process of its own; violations, crashes and deadlocks come back as violations.
void forked(const std::function<void()>& fn, double wall = 12);

// ---- library-side instrumentation (symbols the library's malloc/time/... are redirected to)
void heap_reset();                 // forget bookkeeping, disarm faults
size_t heap_live();                // allocations made by library/cJSON and not yet freed since heap_reset
void heap_fail_at(long n);         // the n-th (0-based) allocation from now returns NULL; -1: never
void heap_fail_from(long n);       // as fail_at, but every later one fails too
long heap_count();                 // number of allocations since last arm/reset
bool heap_fault_fired();
std::string heap_live_desc();
void racy();                         // the outcome of the case that calls this depends on the schedule: several tries when it fails, and one failure counts
extern std::atomic<uint32_t> sched_noise;   // if not 0, threads inside the library give way at generated points: locks, unlocks, allocations, the clock
void give_way_now();   // perhaps let another thread run
inline void noise(Src& s) { uint32_t v = s.chance(1, 4) ? 0 : 1 + (uint32_t)s.below(1 << 20); sched_noise.store(v, std::memory_order_relaxed); }
extern bool clock_virtual;         // if set, time()/gettimeofday()/clock_gettime() in the library read these
extern int64_t clock_now;
extern int clock_every;            // if positive, the virtual time() is a second later after every so many calls
extern std::atomic<int64_t> clock_calls;
extern thread_local int rand_mode; // per thread; 0: real, 1: deterministic stream, 2: fail, 3: scripted bytes first, 4: one call fails
extern thread_local long rand_fail_after;       // rand_mode==2: number of calls that succeed first
extern thread_local std::string rand_script;    // rand_mode==3
extern thread_local long rand_calls;
extern std::vector<std::string>* rand_log;      // receives what was drawn
extern void (*freeing)(const void*, size_t);    // called before the library releases a block
void rand_seed(uint64_t s);
extern bool scrypt_stub;            // EVP_PBE_scrypt in the library becomes scrypt_stub_key (cheap, same inputs)
extern long scrypt_calls;
extern bool ctx_fail, ctx_slow;    // secp256k1_context_create in the library fails, or takes its time
extern std::atomic<long> ctx_live;  // contexts the library holds
extern bool fail_thread;            // pthread_create in the library fails
extern std::atomic<long> fail_thread_after;   // if not negative: this many succeed and the next one fails
extern void (*thread_started)();    // called after each thread the library creates
std::string scrypt_stub_key(const std::string& pass, const std::string& salt, uint64_t N, uint64_t r, uint64_t p, size_t n);


// interesting constants seen in comparisons of the library under test
uint64_t dict_const(Rng& r, bool* ok);
std::string dict_string(Rng& r, bool* ok);

}  // namespace vf
