// Symbols the library's allocation, time and randomness calls are redirected to.
#include "vf.h"
#include <atomic>
#include <mutex>
#include <unordered_map>
#include <ctime>
#include <cerrno>
#include <pthread.h>
#include <sched.h>
#include <malloc.h>
#include <sys/time.h>
#include <unistd.h>
#include <secp256k1.h>
#include <openssl/rand.h>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <cjson/cJSON.h>

namespace vf {
static std::mutex g_m; 
static std::unordered_map<void*, size_t>* live() { static auto* m = new std::unordered_map<void*, size_t>(); return m; }
static long fail_at = -1; static bool fail_sticky = false; static long counter = 0; static bool fired = false;
void heap_reset() { std::lock_guard<std::mutex> l(g_m); live()->clear(); fail_at = -1; fail_sticky = false; counter = 0; fired = false; }
size_t heap_live() { std::lock_guard<std::mutex> l(g_m); return live()->size(); }
void heap_fail_at(long n) { std::lock_guard<std::mutex> l(g_m); fail_at = n; fail_sticky = false; counter = 0; fired = false; }
void heap_fail_from(long n) { std::lock_guard<std::mutex> l(g_m); fail_at = n; fail_sticky = true; counter = 0; fired = false; }
long heap_count() { return counter; }
bool heap_fault_fired() { return fired; }
std::string heap_live_desc() { std::string o; int k = 0; for (auto& p : *live()) { o += strf("%zu ", p.second); if (++k > 12) break; } return "sizes: " + o; }
static bool should_fail() { long c = counter++; if (fail_at >= 0 && (c == fail_at || (fail_sticky && c >= fail_at))) { fired = true; return true; } return false; }
bool clock_virtual = false; int64_t clock_now = 1700000000; int clock_every = 0; std::atomic<int64_t> clock_calls{0};
thread_local int rand_mode = 0; thread_local long rand_fail_after = 0; thread_local std::string rand_script; thread_local long rand_calls = 0; static thread_local Rng rr(1);
std::vector<std::string>* rand_log = nullptr; void (*freeing)(const void*, size_t) = nullptr;
bool scrypt_stub = false; long scrypt_calls = 0;
std::string scrypt_stub_key(const std::string& pass, const std::string& salt, uint64_t N, uint64_t r, uint64_t p, size_t n) {
  std::string in = salt + strf("|%zu|%llu|%llu|%llu|", salt.size(), (unsigned long long)N, (unsigned long long)r, (unsigned long long)p) + pass, o(32, 0); SHA256((const uint8_t*)in.data(), in.size(), (uint8_t*)&o[0]); while (o.size() < n) o += o; o.resize(n); return o;
}
bool ctx_fail = false, ctx_slow = false; std::atomic<long> ctx_live{0};
bool fail_thread = false; std::atomic<long> fail_thread_after{-1}; void (*thread_started)() = nullptr;
std::atomic<uint32_t> sched_noise{0}; static std::atomic<uint32_t> noisy_threads{0};
static void give_way() {   // relaxed atomics only: they order nothing between the threads
  uint32_t n = sched_noise.load(std::memory_order_relaxed); if (!n) return;
  static thread_local uint32_t x = 0; if (!x) x = (noisy_threads.fetch_add(1, std::memory_order_relaxed) + 1) * 2654435761u ^ n * 40503u; if (!x) x = 1;
  x ^= x << 13; x ^= x >> 17; x ^= x << 5; if (x % 64 == 0) usleep(20 + x / 64 % 200); else if (x % 7 == 0) sched_yield();
}
void give_way_now() { give_way(); }
void rand_seed(uint64_t s) { rr = Rng(s); rand_calls = 0; }
}
using namespace vf;
extern "C" {
#if defined(__has_feature) && __has_feature(thread_sanitizer)   // bookkeeping of our own would order the threads and hide races
#define VF_TSAN 1
void __tsan_write_range(void*, unsigned long);
void* vf_malloc(size_t n) { give_way(); return malloc(n); }
void* vf_calloc(size_t a, size_t b) { return calloc(a, b); }
void* vf_realloc(void* q, size_t n) { return realloc(q, n); }
void vf_free(void* p) { give_way(); free(p); }
#else
void* vf_malloc(size_t n) { std::lock_guard<std::mutex> l(g_m); if (should_fail()) return nullptr; void* p = malloc(n); if (p) { if (freeing) memset(p, 0xa5, n); (*live())[p] = n; } return p; }
void* vf_calloc(size_t a, size_t b) { std::lock_guard<std::mutex> l(g_m); if (should_fail()) return nullptr; void* p = calloc(a, b); if (p) (*live())[p] = a * b; return p; }
void* vf_realloc(void* q, size_t n) {
  std::lock_guard<std::mutex> l(g_m); if (should_fail()) return nullptr; size_t had = 0; if (q) { auto it = live()->find(q); if (it != live()->end()) { had = it->second; live()->erase(it); } }
  std::string old; if (q && freeing) old.assign((char*)q, had); void* p = realloc(q, n); if (p && q && freeing && p != q) freeing(old.data(), old.size()); if (p && freeing && n > had) memset((char*)p + had, 0xa5, n - had); if (p) (*live())[p] = n; return p;
}
void vf_free(void* p) { size_t n = 0; { std::lock_guard<std::mutex> l(g_m); if (p) { auto it = live()->find(p); if (it != live()->end()) { n = it->second; if (freeing) freeing(p, n); live()->erase(it); } } } free(p); }
#endif
char* vf_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)vf_malloc(n); if (p) memcpy(p, s, n); return p; }
char* vf_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)vf_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int vf_mutex_lock(pthread_mutex_t* m) { give_way(); return pthread_mutex_lock(m); }
int vf_mutex_unlock(pthread_mutex_t* m) { int r = pthread_mutex_unlock(m); give_way(); return r; }
time_t vf_time(time_t* t) { give_way(); time_t v = clock_virtual ? (time_t)(clock_now + (clock_every > 0 ? clock_calls++ / clock_every : 0)) : time(nullptr); if (t) *t = v; return v; }
int vf_gettimeofday(struct timeval* tv, void*) { if (!clock_virtual) return gettimeofday(tv, nullptr); if (tv) { tv->tv_sec = clock_now; tv->tv_usec = 0; } return 0; }
int vf_clock_gettime(clockid_t c, struct timespec* ts) { if (!clock_virtual) return clock_gettime(c, ts); ts->tv_sec = clock_now; ts->tv_nsec = 0; return 0; }
int vf_EVP_PBE_scrypt(const char* pw, size_t pl, const unsigned char* salt, size_t sl, uint64_t N, uint64_t r, uint64_t p, uint64_t mem, unsigned char* key, size_t kl) {
#ifndef VF_TSAN
  scrypt_calls++;
#else
  __tsan_write_range(key, kl);
#endif
  if (!scrypt_stub) return EVP_PBE_scrypt(pw, pl, salt, sl, N, r, p, mem, key, kl);
  if (N < 2 || (N & (N - 1)) || (mem && mem < 128 * r * (N + p + 2))) return 0;
  std::string k = scrypt_stub_key(std::string(pw, pl), std::string((const char*)salt, sl), N, r, p, kl); if (key) memcpy(key, k.data(), kl); return 1;
}
// Library contexts of secp256k1: counted, can fail, can take their time
secp256k1_context* vf_secp256k1_context_create(unsigned f) { if (ctx_fail) return nullptr; if (ctx_slow) usleep(300); secp256k1_context* c = secp256k1_context_create(f); if (c) ctx_live++; return c; }
void vf_secp256k1_context_destroy(secp256k1_context* c) { if (c) ctx_live--; secp256k1_context_destroy(c); }
int vf_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { if (fail_thread || (fail_thread_after >= 0 && fail_thread_after-- == 0)) return EAGAIN; int r = pthread_create(t, a, f, x); if (!r && thread_started) thread_started(); return r; }
static int vf_rand(unsigned char* b, int n) {
  long k = rand_calls++;
  switch (rand_mode) {
    case 1: for (int i = 0; i < n; i++) b[i] = (unsigned char)(rr.next() >> 20); return 1;
    case 2: if (k >= rand_fail_after) return 0; for (int i = 0; i < n; i++) b[i] = (unsigned char)(rr.next() >> 20); return 1;
    case 3: for (int i = 0; i < n; i++) { if (!rand_script.empty()) { b[i] = (unsigned char)rand_script[0]; rand_script.erase(0, 1); } else b[i] = (unsigned char)(rr.next() >> 20); } return 1;
    case 5: if (k >= rand_fail_after) return 0; for (int i = 0; i < n; i++) { if (!rand_script.empty()) { b[i] = (unsigned char)rand_script[0]; rand_script.erase(0, 1); } else b[i] = (unsigned char)(rr.next() >> 20); } return 1;   // scripted, then failing
    case 4: if (k == rand_fail_after) return 0; for (int i = 0; i < n; i++) b[i] = (unsigned char)(rr.next() >> 20); return 1;   // one failure, then well again
    default: return RAND_bytes(b, n);
  }
}
int vf_RAND_bytes(unsigned char* b, int n) {
#ifdef VF_TSAN
  __tsan_write_range(b, (unsigned long)n); give_way();
#endif
  int r = vf_rand(b, n);
#ifndef VF_TSAN
  if (r == 1 && rand_log) rand_log->emplace_back((const char*)b, (size_t)n);
#endif
  return r;
}
}
#ifdef VF_MBEDTLS
// A generator without a lock of its own (MBEDTLS_THREADING_C off): whoever draws must hold a lock. The plain
// counter stands for the state the draw changes, which the sanitizer cannot see inside the library.
#include <mbedtls/ctr_drbg.h>
long vf_drbg_draws = 0;
extern "C" int vf_mbedtls_ctr_drbg_random(void* g, unsigned char* b, size_t n) { vf_drbg_draws++;
#ifdef VF_TSAN
  __tsan_write_range(b, n);
#endif
  int r = 0; if (rand_mode == 1) for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(rr.next() >> 20); else r = mbedtls_ctr_drbg_random(g, b, n); vf_drbg_draws++; return r; }
#endif
static struct Hooks { Hooks() { cJSON_Hooks h{vf_malloc, vf_free}; cJSON_InitHooks(&h); } } hooks_;
extern "C" char* vf___strdup(const char* s) { return vf_strdup(s); }
extern "C" char* vf___strndup(const char* s, size_t m) { return vf_strndup(s, m); }
