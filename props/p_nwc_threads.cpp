// P44 wallet sessions used by several threads, under ThreadSanitizer. Each case runs in a process of its own, so that the first use of the sessions can be concurrent too.
#include "oracle.h"
#include <atomic>
#include <thread>
#include <map>
#include <set>
using namespace vf; using namespace vo;
extern "C" void vf_conn(const struct nwc_connection*, char***, size_t*, const uint8_t**, const uint8_t**, const char**);
extern "C" void vf_free(void*);

static string uri(int n) { return "nostr+walletconnect://" + hex(pubkey_n((unsigned)n)) + "?relay=wss%3A%2F%2Fr" + strf("%d", n) + ".example&secret=" + hex(privkey_n((unsigned)n)); }
static string conn_of(const string& id) { struct nwc_connection* w = nullptr; if (nostr_nip47_session_get_connection(id.c_str(), &w) != NOSTR_OK) return "-"; if (!w) return "none"; char** r; size_t n; const uint8_t *se, *sv; const char* l; vf_conn(w, &r, &n, &se, &sv, &l); return n == 1 ? r[0] : "another number of relays"; }
static bool create(int n, string* id) { char* i = nullptr; if (nostr_nip47_session_create(uri(n).c_str(), &i) != NOSTR_OK) return false; *id = i ? i : ""; vf_free(i); return true; }
static bool spend(const string& id, const string& m, uint64_t a) { return nostr_nip47_session_check_permission(id.c_str(), m.c_str(), a) == NOSTR_OK; }
static bool permit(const string& id, const string& m, uint64_t l) { return nostr_nip47_session_add_permission(id.c_str(), m.c_str(), l, 100000) == NOSTR_OK; }
enum { SPEND, OWN, EXTEND, PERMIT, LOOK, END, VICTIM, NOBODY, GROW, NKIND };
struct Step { int kind; size_t who; uint64_t n; };
PROP(P44, sessions, 1) {
  noise(s);
  size_t nt = 2 + s.below(3), nsh = s.below(3), nv = s.below(3); uint32_t slots = (uint32_t)(nsh + nv + nt + s.below(3)); vector<vector<Step>> st(nt); static const char* nm[] = {"spend", "own", "extend", "permit", "look", "end", "victim", "nobody", "grow"}; string desc = strf("%zu threads, %zu shared, %zu to be ended: ", nt, nsh, nv);
  uint64_t unit = 1 + s.below(1000), limit = unit * s.below(30) + s.below(unit); bool warm = nsh + nv || s.flip(), same = s.chance(1, 4); int owns = 0;
  for (size_t t = 0; t < nt; t++) { if (t && same) { st[t] = st[0]; for (auto& x : st[t]) if (x.kind == OWN && owns++ >= 9) x.kind = LOOK; } else for (size_t i = 1 + s.below(7); i--;) { int k = (int)s.weighted({8, 3, 3, 4, 4, 2, 4, 1, 1}); if (k == OWN && owns++ >= 9) k = LOOK; st[t].push_back({k, s.below(16), s.below(12)}); } desc += "["; for (auto& x : st[t]) { desc += strf("%s%zu ", nm[x.kind], x.who % 3); c.label(nm[x.kind]); } desc += "] "; }
  c.sample(desc); c.note("%s", desc.c_str()); c.nontrivial(); for (unsigned i = 0; i < 17; i++) pubkey_n(i);
  forked([&] {
    clock_virtual = true; clock_now = 1700000000; nostr_config k; nostr_config_get_defaults(&k); k.max_sessions = slots; k.max_permissions = 8; CHECK(nostr_init_with_config(&k) == NOSTR_OK && nostr_init() == NOSTR_OK, "init"); vector<string> sh(nsh), vi(nv);
    if (warm) CHECK(nostr_nip47_session_init() == NOSTR_OK, "session_init"); for (size_t i = 0; i < nsh; i++) { CHECK(create((int)i, &sh[i]) && permit(sh[i], "pay", limit), "shared session"); } for (size_t i = 0; i < nv; i++) CHECK(create((int)(4 + i), &vi[i]) && permit(vi[i], "pay", limit), "session to be ended"); clock_now += 2;
    std::atomic<size_t> ready{0}; vector<std::thread> th; vector<string> bad(nt); vector<vector<string>> ids(nt); vector<std::map<size_t, uint64_t>> tried(nt), paid(nt), vpaid(nt), ended(nt), endtry(nt); vector<int> added(nt), addtry(nt), permitted(nt * nsh + 1);
    for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] {
      ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield(); std::set<size_t> gone; size_t serial = 0;
      try { for (auto& x : st[t]) switch (x.kind) {
        case SPEND: if (nsh) for (uint64_t i = 0; i <= x.n; i++) { size_t w = x.who % nsh; tried[t][w]++; if (spend(sh[w], "pay", unit)) paid[t][w]++; } break;
        case OWN: { string id; int n = 8 + (int)t; if (!create(n, &id)) fail(__FILE__, __LINE__, "a session was refused although places are free"); CHECK(id.size() == 64, "id"); ids[t].push_back(id); CHECK(!spend(id, "pay", 0), "approved without permission"); CHECK(permit(id, "pay", 100), "permission"); uint64_t sum = 0; for (uint64_t i = 0; i < x.n; i++) { uint64_t a = 7 * (i + 1); bool want = sum + a <= 100; CHECK(spend(id, "pay", a) == want, "own session: payment of %llu after %llu of 100", (unsigned long long)a, (unsigned long long)sum); if (want) sum += a; } string r = conn_of(id); CHECK(r == strf("wss://r%d.example", n), "the connection of an own session is %s", r.c_str()); CHECK(nostr_nip47_session_extend(id.c_str(), 5) == NOSTR_OK, "extend"); CHECK(nostr_nip47_session_destroy(id.c_str()) == NOSTR_OK, "destroy"); CHECK(!spend(id, "pay", 0) && conn_of(id) == "-", "an ended session is in use"); break; }
        case EXTEND: if (nsh) CHECK(nostr_nip47_session_extend(sh[x.who % nsh].c_str(), (uint32_t)x.n) == NOSTR_OK, "extend"); break;
        case PERMIT: if (nsh) { size_t w = x.who % nsh; string m = strf("m%zu_%zu", t, serial++); if (permit(sh[w], m, 10)) { permitted[t * nsh + w]++; CHECK(spend(sh[w], m, 10) && !spend(sh[w], m, 1), "own permission of a shared session"); } else CHECK(!spend(sh[w], m, 0), "a refused permission"); } break;
        case LOOK: if (nsh) { size_t w = x.who % nsh; struct nwc_connection *a = nullptr, *b = nullptr; CHECK(nostr_nip47_session_get_connection(sh[w].c_str(), &a) == NOSTR_OK && nostr_nip47_session_get_connection(sh[w].c_str(), &b) == NOSTR_OK && a == b && a, "connection of a shared session"); string r = conn_of(sh[w]); CHECK(r == strf("wss://r%zu.example", w), "the connection of session %zu is %s", w, r.c_str()); } break;
        case END: if (nv) { size_t w = x.who % nv; endtry[t][w]++; if (nostr_nip47_session_destroy(vi[w].c_str()) == NOSTR_OK) ended[t][w]++; gone.insert(w); CHECK(!spend(vi[w], "pay", 0), "approved after its end"); } break;
        case VICTIM: if (nv) { size_t w = x.who % nv; bool was = gone.count(w); if (spend(vi[w], "pay", unit)) { vpaid[t][w]++; CHECK(!was, "approved after its end"); } struct nwc_connection* p = nullptr; if (nostr_nip47_session_get_connection(vi[w].c_str(), &p) == NOSTR_OK) CHECK(p && !was, "connection of an ended session"); bool r = permit(vi[w], strf("v%zu", t), 1); CHECK(!r || !was, "permission of an ended session"); if (nostr_nip47_session_extend(vi[w].c_str(), 1) == NOSTR_OK) CHECK(!was, "extension of an ended session"); } break;
        case NOBODY: CHECK(!spend(string(64, 'a'), "pay", 0) && nostr_nip47_session_destroy(string(64, '0').c_str()) != NOSTR_OK, "unknown id"); break;
        case GROW: CHECK(nostr_nip47_session_init() == NOSTR_OK, "init"); break; } }
      catch (Violation& v) { bad[t] = v.msg; } });
    for (auto& x : th) x.join(); for (auto& b : bad) if (!b.empty()) throw Violation{"in one of several threads: " + b};
    for (size_t w = 0; w < nsh; w++) { uint64_t tr = 0, pd = 0; for (size_t t = 0; t < nt; t++) { tr += tried[t][w]; pd += paid[t][w]; } uint64_t most = limit ? limit / unit : tr; CHECK(pd == std::min(tr, most), "%llu payments of %llu approved out of %llu, limit %llu", (unsigned long long)pd, (unsigned long long)unit, (unsigned long long)tr, (unsigned long long)limit); int n = 0; for (size_t t = 0; t < nt; t++) n += permitted[t * nsh + w]; CHECK(n <= 7, "%d permissions of 7", n); }
    for (size_t w = 0; w < nv; w++) { uint64_t tr = 0, e = 0, pd = 0; for (size_t t = 0; t < nt; t++) { tr += endtry[t][w]; e += ended[t][w]; pd += vpaid[t][w]; } CHECK(e == (tr ? 1u : 0u), "a session was ended %llu times in %llu calls", (unsigned long long)e, (unsigned long long)tr); CHECK(!limit || pd <= limit / unit, "payments over the limit of a session"); CHECK((conn_of(vi[w]) == "-") == (tr > 0), "a session that was%s ended", tr ? "" : " not"); if (!tr) CHECK(nostr_nip47_session_destroy(vi[w].c_str()) == NOSTR_OK, "destroy"); }
    std::set<string> all(sh.begin(), sh.end()); all.insert(vi.begin(), vi.end()); size_t n = nsh + nv; for (auto& v : ids) for (auto& i : v) { all.insert(i); n++; } CHECK(all.size() == n, "the same session id twice"); for (auto& i : sh) CHECK(nostr_nip47_session_destroy(i.c_str()) == NOSTR_OK, "destroy"); clock_now += 2; string id; uint32_t made = 0; while (made < 10 && create(0, &id)) made++; CHECK(made == std::min(slots, 10u), "%u of %u sessions afterwards", made, slots);
  });
}
// more sessions wanted at once than there are places or than a second allows
PROP(P44, crowd, 1) {
  noise(s);
  size_t nt = 2 + s.below(3), per = 1 + s.below(8); uint32_t slots = 1 + (uint32_t)s.below(14); bool warm = s.flip(), out = s.flip(); c.nontrivial(out ? "expired sessions are replaced" : "crowd"); c.sample(strf("%zu threads of %zu creations, %u places", nt, per, slots)); for (unsigned i = 0; i < 17; i++) pubkey_n(i);
  forked([&] {
    clock_virtual = true; clock_now = 1700000000; nostr_config k; nostr_config_get_defaults(&k); k.max_sessions = slots; k.session_timeout_secs = 60; CHECK(nostr_init_with_config(&k) == NOSTR_OK && nostr_init() == NOSTR_OK, "init"); if (warm) CHECK(nostr_nip47_session_init() == NOSTR_OK, "session_init"); vector<string> old; if (out) { string id; for (uint32_t i = 0; i < std::min(slots, 10u); i++) { CHECK(create(1, &id), "create"); old.push_back(id); } clock_now += 100; }
    std::atomic<size_t> ready{0}; vector<std::thread> th; vector<string> bad(nt); vector<vector<string>> ids(nt);
    for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield(); try { for (size_t i = 0; i < per; i++) { string id; if (!old.empty()) { CHECK(!spend(old[i % old.size()], "x", 0), "an expired session approves"); CHECK(conn_of(old[(i + t) % old.size()]) == "-", "an expired session is in use"); } if (create((int)t, &id)) { ids[t].push_back(id); string r = conn_of(id); CHECK(r == strf("wss://r%zu.example", t), "connection %s", r.c_str()); } } } catch (Violation& v) { bad[t] = v.msg; } });
    for (auto& x : th) x.join(); for (auto& b : bad) if (!b.empty()) throw Violation{"in one of several threads: " + b}; size_t n = 0; std::set<string> all; for (size_t t = 0; t < nt; t++) for (auto& i : ids[t]) { n++; all.insert(i); string r = conn_of(i); CHECK(r == strf("wss://r%zu.example", t), "connection %s of thread %zu", r.c_str(), t); } CHECK(all.size() == n, "an id twice"); size_t most = std::min<size_t>(10, slots); CHECK(n <= most && (nt * per > 10 || n == std::min(nt * per, most)), "%zu sessions of %zu creations with %u places", n, nt * per, slots);
  });
}
// a session that ends while others use it, its place taken at once by another session: none of their uses touches the other
PROP(P44, succession, 1) {
  noise(s); size_t nt = 1 + s.below(3), nv = 1 + s.below(4); uint64_t unit = 1 + s.below(3), limit = 3 + s.below(60); bool exact = s.flip(); c.nontrivial("succession"); c.sample(strf("%zu sessions replaced while %zu threads use them", nv, nt)); for (unsigned i = 0; i < 17; i++) pubkey_n(i);
  vector<vector<int>> plan(nt); for (auto& v : plan) { size_t k = 1 + s.below(3); while (k--) v.push_back((int)s.below(4)); }
  forked([&] {
    clock_virtual = true; clock_now = 1700000000; nostr_config k; nostr_config_get_defaults(&k); k.max_sessions = (uint32_t)(nv + (exact ? 0 : 1)); k.max_permissions = 3; k.session_timeout_secs = 600; CHECK(nostr_init_with_config(&k) == NOSTR_OK && nostr_init() == NOSTR_OK, "init"); vector<string> vi(nv), own(nv); for (size_t i = 0; i < nv; i++) CHECK(create((int)i, &vi[i]) && permit(vi[i], "pay", 100000), "session"); clock_now += 2;
    std::atomic<size_t> ready{0}, at{0}; std::atomic<bool> over{false}; vector<std::thread> th; string bad; auto meet = [&] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt + 1) std::this_thread::yield(); };
    for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] { meet(); for (size_t r = 0; !over.load(std::memory_order_relaxed) && r < 3000; r++) { const string& v = vi[at.load(std::memory_order_relaxed)]; switch (plan[t][r % plan[t].size()]) { case 0: case 1: spend(v, "pay", 1); break; case 2: nostr_nip47_session_extend(v.c_str(), 100000); break; default: permit(v, "more", 7); } } });
    meet(); try { for (size_t i = 0; i < nv; i++) { at.store(i, std::memory_order_relaxed); std::this_thread::yield(); CHECK(nostr_nip47_session_destroy(vi[i].c_str()) == NOSTR_OK, "destroy"); CHECK(create(8 + (int)i, &own[i]), "no place for another session"); CHECK(permit(own[i], "pay", limit), "permission"); uint64_t ok = 0, tries = limit / unit + 2; for (uint64_t q = 0; q < tries; q++) ok += spend(own[i], "pay", unit); CHECK(ok == limit / unit, "%llu payments of %llu approved, limit %llu, while others use the session that had the place before", (unsigned long long)ok, (unsigned long long)unit, (unsigned long long)limit); } } catch (Violation& v) { bad = v.msg; }
    over.store(true, std::memory_order_relaxed); for (auto& x : th) x.join(); if (!bad.empty()) throw Violation{bad};
    for (size_t i = 0; i < nv; i++) { CHECK(!spend(own[i], "more", 0), "a permission given to the session before is one of its successor"); int more = 0; while (more < 9 && permit(own[i], strf("x%d", more), 1)) more++; CHECK(more == 2, "%d more permissions instead of 2", more); CHECK(!spend(own[i], "pay", unit), "approved beyond the limit"); } clock_now += 700; for (auto& o : own) CHECK(conn_of(o) == "-", "a session lives on: the extension of the one before");
  });
}
