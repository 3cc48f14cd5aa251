// P31 untrusted input: whatever the text, the library neither crashes, hangs nor leaks, and answers the same each time.
#include "readers.h"

static int inited = (before_case = [] { nostr_init(); }, 0);
static const char* EN[] = {"event text", "event bytes", "filter", "client message", "identifier response", "uri", "bech32", "identifier", "mnemonic", "path", "plain text"};
PROP(P31, texts, 5) {
  int k = (int)s.weighted({6, 6, 4, 6, 3, 4, 4, 1, 1, 1, 2}); string t = g_text_for(s, k); size_t bs = s.pick(vector<size_t>{4096, 1024, 256, 65, 64, 20, 1, 2}); clock_virtual = true; clock_now = 1700000000; scrypt_stub = true; auto un = defer([] { clock_virtual = false; scrypt_stub = false; });
  Ev pe = g_ev(s); pe.seal(privkey_n(1)); EvPtr probe(lib_event(pe)); c.label(EN[k]); if (t.size() > 1) c.nontrivial(); c.sample(string(EN[k]) + ": " + vo::show(t, 100)); size_t l0 = heap_live();
  string a = eat(k, t, bs, probe.e); CHECK(heap_live() == l0, "%s: memory leaked: %s\n  text %s", EN[k], heap_live_desc().c_str(), vo::show(t, 400).c_str()); { string fill(1 + t.size() % 4096, 'Z'); CStr junk(fill); } string b = eat(k, t, bs, probe.e);
  if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; CHECK(a == b, "%s: two readings differ at ..%s vs ..%s\n  text %s", EN[k], vo::show(a.substr(i > 30 ? i - 30 : 0, 80)).c_str(), vo::show(b.substr(i > 30 ? i - 30 : 0, 80)).c_str(), vo::show(t, 400).c_str()); }
}
PROP(P31, events, 3) {   // events with arbitrary tags, through every reader
  Ev e = g_hostile(s); if (s.chance(1, 4)) { for (auto& t : e.tags) for (auto& v : t) if (s.chance(1, 5)) v = g_mut(s, v, 2); } for (auto& t : e.tags) for (auto& v : t) v = v.substr(0, v.find('\0')); e.content = e.content.substr(0, e.content.find('\0')); size_t bs = s.pick(vector<size_t>{4096, 1024, 256, 65, 64, 20, 1, 2}); clock_virtual = true; clock_now = 1700000000; auto un = defer([] { clock_virtual = false; }); c.label("built event"); if (e.tags.size() > 1) c.nontrivial(); c.sample(vo::show(e).substr(0, 200));
  string r[2]; for (int i = 0; i < 2; i++) { size_t l0 = heap_live(); { EvPtr x(lib_event(e)); Dig d; read_event(d, x.e, bs, 0); r[i] = d.s; } CHECK(heap_live() == l0, "memory leaked: %s\n  event %s", heap_live_desc().c_str(), vo::show(e).c_str()); } CHECK(r[0] == r[1], "two readings differ\n  %s", vo::show(e).c_str());
}

// ---------------------------------------------------------------- P32
static string from_diff(const string& a, const string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return a.substr(i > 40 ? i - 40 : 0); }
PROP(P32, fail_at, 1) {
  string name; Scn sc = scenario(s, &name); clock_virtual = true; clock_now = 1700000000; scrypt_stub = true; auto un = defer([] { clock_virtual = false; scrypt_stub = false; rand_mode = 0; heap_fail_at(-1); }); heap_reset(); Arm b; Run base; sc(b, base); c.label(name); CHECK(heap_live() == 0, "%s leaked without any fault: %s", name.c_str(), heap_live_desc().c_str()); if (!b.n) { c.label("no allocation"); return; } c.nontrivial(); c.sample(strf("%s: %ld allocations, %s", name.c_str(), b.n, base.ok ? "succeeds" : "fails"));
  vector<long> ks; if (b.n <= 20) for (long i = 0; i < b.n; i++) ks.push_back(i); else { ks = {0, b.n - 1}; while (ks.size() < 20) ks.push_back((long)s.below((uint64_t)b.n)); }
  for (long k : ks) for (int mode = 1; mode <= 2; mode++) {
    heap_reset(); Arm a; a.mode = mode; a.k = k; Run r; sc(a, r); string how = strf("%s, allocation %ld of %ld%s failing", name.c_str(), k, b.n, mode == 2 ? " and all later ones" : "");
    CHECK(heap_live() == 0, "%s: leaked: %s", how.c_str(), heap_live_desc().c_str());
    if (r.ok) { CHECK(base.ok, "%s: succeeds, though it fails with enough memory", how.c_str()); CHECK(r.out == base.out, "%s: reports success with another result\n  with enough memory %s\n  now %s", how.c_str(), vo::show(from_diff(base.out, r.out), 300).c_str(), vo::show(from_diff(r.out, base.out), 300).c_str()); }
    else if (r.atomic && a.fired) CHECK(r.after == r.before, "%s: failed but left a change behind\n  before %s\n  after %s", how.c_str(), vo::show(r.before, 500).c_str(), vo::show(r.after, 500).c_str());
  }
}
