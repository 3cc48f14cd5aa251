// P50: builds with generated selections of features. Each case builds the library from the current sources with one
// selection (the sources CMakeLists.txt picks for it), links a probe with it, and compares what the probe says with
// what the full build answers to the same questions.
#include "vf.h"
#include "oracle.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <map>
#include <regex>
#include <set>
using namespace vf; using namespace vo; using std::vector; using std::set; using std::map;

static string slurp(const string& p) { string o; if (FILE* f = fopen(p.c_str(), "rb")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); } return o; }
static string repo() { const char* r = getenv("VF_REPO"); return r && *r ? r : "/repo"; }
static string verif() { string f = __FILE__; return f.substr(0, f.rfind("/props/")); }
static string dir() { static string d = [] { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); string e(b, n > 0 ? n : 0); e = e.substr(0, e.rfind('/')) + "/feat"; mkdir(e.c_str(), 0777); return e; }(); return d; }   // the harness lies in a folder named after the sources' digest
static int sh(const string& cmd, string* out) { string f = dir() + strf("/out-%d", (int)getpid()); int r = system(("(" + cmd + ") >" + f + " 2>&1 </dev/null").c_str()); *out = slurp(f); unlink(f.c_str()); return WIFEXITED(r) ? WEXITSTATUS(r) : 256 + r; }
static string short_of(string t) { return t.size() > 900 ? t.substr(0, 600) + " ... " + t.substr(t.size() - 250) : t; }

static const vector<string> FEATURE = {"NIP04", "NIP05", "NIP10", "NIP13", "NIP17", "NIP18", "NIP25", "NIP26", "NIP44", "NIP46", "NIP47", "NIP49", "NIP51", "NIP57", "NIP59", "NIP65", "RELAY", "RELAY_PROTOCOL", "HD_KEYS", "JSON_ENHANCED", "THREADING"};
static const set<string> SEALED = {"NIP04", "NIP17", "NIP44", "NIP46", "NIP47", "NIP59"};   // need noscrypt
static const map<string, vector<string>> SOURCE = {{"RELAY", {"relay"}}, {"NIP05", {"nip05"}}, {"NIP10", {"nip10"}}, {"NIP13", {"nip13"}}, {"NIP17", {"nip17"}}, {"NIP18", {"nip18"}}, {"NIP25", {"nip25"}}, {"NIP26", {"nip26"}}, {"NIP04", {"nip44"}}, {"NIP44", {"nip44"}}, {"NIP46", {"nip46"}}, {"NIP47", {"nip47", "nip47_session", "nip47_commands"}}, {"NIP49", {"nip49"}}, {"NIP51", {"nip51"}}, {"NIP57", {"zap"}}, {"NIP59", {"nip59"}}, {"NIP65", {"nip65"}}, {"HD_KEYS", {"hd_key"}}, {"RELAY_PROTOCOL", {"relay_protocol", "relay_filter", "relay_message", "relay_nip11"}}};
// sources the build system names that are not in the lists above: each with the feature it stands under, or none
static const map<string, string>& more() { static map<string, string> m = [] { map<string, string> o; set<string> known = {"event", "key", "utils", "config", "features", "bech32", "nip21"}; for (auto& x : SOURCE) known.insert(x.second.begin(), x.second.end()); string t = slurp(repo() + "/CMakeLists.txt"), under; size_t at = t.find("# Conditional Source Compilation"); if (at == string::npos) at = t.find("NOSTR_CORE_SOURCES"); if (at == string::npos) return o;
  static const std::regex L("(^|[^A-Za-z_])((else|end)?if)[ ]*\\(([^)]*)\\)|src/(\\w+)\\.c"); for (std::sregex_iterator k(t.begin() + (long)at, t.end(), L), e; k != e; ++k) { if ((*k)[5].matched) { string n = (*k)[5]; if (!known.count(n) && access((repo() + "/src/" + n + ".c").c_str(), R_OK) == 0) o[n] = under; } else { string w = (*k)[2], c = (*k)[4]; under = w == "if" && c.compare(0, 14, "NOSTR_FEATURE_") == 0 ? c.substr(14) : ""; } } return o; }(); return m; }
struct Sel { set<string> on; bool nos = false, secp = true, mbed = false;
  bool has(const string& f) const { return on.count(f) > 0; }
  set<string> macros() const { set<string> m = {"HAVE_UTF8PROC"}; for (auto& f : on) m.insert("NOSTR_FEATURE_" + f); if (has("JSON_ENHANCED")) m.insert("HAVE_CJSON"); if (has("RELAY")) m.insert("HAVE_LIBWEBSOCKETS"); if (mbed) m.insert("HAVE_MBEDTLS"); if (nos) m.insert({"HAVE_NOSCRYPT", "NOSTR_FEATURE_CRYPTO_NOSCRYPT"}); if (secp) m.insert({"HAVE_SECP256K1", "HAVE_SCHNORRSIG_SIGN32", "NOSTR_FEATURE_CRYPTO_SECP256K1"}); return m; }
  set<string> sources() const { set<string> s = {"event", "key", "utils", "config", "features", "bech32", "nip21"}; for (auto& f : on) { auto i = SOURCE.find(f); if (i != SOURCE.end()) s.insert(i->second.begin(), i->second.end()); } for (auto& x : more()) if (x.second.empty() || x.second == "ENCODING" || on.count(x.second)) s.insert(x.first); return s; }
  string text() const { string o = string(nos ? secp ? "both backends" : "noscrypt only" : "secp256k1 only") + (mbed ? ", mbedTLS:" : ":"); for (auto& f : on) o += " " + f; return o; } };

// the macros a source's text, or that of a header of the repository it includes, can depend on
static const set<string>& uses(const string& path) { static map<string, set<string>> memo; auto i = memo.find(path); if (i != memo.end()) return i->second; set<string>& m = memo[path]; string t = slurp(path);
  static const std::regex W("(NOSTR_FEATURE|HAVE)_[A-Z0-9_]+"), I("#[ \t]*include[ \t]*[\"<]([^\">]+)[\">]"); for (std::sregex_iterator k(t.begin(), t.end(), W), e; k != e; ++k) m.insert(k->str());
  for (std::sregex_iterator k(t.begin(), t.end(), I), e; k != e; ++k) { string n = (*k)[1]; if (n == "nostr_features.h" || n.substr(0, 6) == "compat") continue; for (auto& d : {repo() + "/src/", repo() + "/include/"}) if (access((d + n).c_str(), R_OK) == 0) { set<string> u = uses(d + n); m.insert(u.begin(), u.end()); break; } } return m; }
static const string FLAGS = "clang -std=gnu99 -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment ";
static vector<string> once;   // objects no other selection shares
static string object(const string& path, const Sel& sel, const string& extra, bool all) {   // compiled once for each set of macros that matter to it
  set<string> m = sel.macros(), k; if (all) k = m; else for (auto& x : uses(path)) if (m.count(x)) k.insert(x);
  string key = path + "\n" + extra + "\n"; for (auto& x : k) key += x + " "; if (path.find(repo()) != 0) key += slurp(path) + slurp(verif() + "/standin/noscrypt.h"); string id = hex(sha256(key)).substr(0, 20), base = path.substr(path.rfind('/') + 1), o = dir() + "/" + base + "-" + id + ".o"; if (access(o.c_str(), R_OK) == 0) return o;
  string inc = dir() + "/inc-" + id + strf("-%d", (int)getpid()), t = slurp(repo() + "/include/nostr_features.h.in"), h; mkdir(inc.c_str(), 0777); static const std::regex D("#cmakedefine[ \t]+(\\w+)"); size_t at = 0; for (std::sregex_iterator i(t.begin(), t.end(), D), e; i != e; ++i) { h += t.substr(at, i->position() - at) + (k.count((*i)[1]) ? "#define " + (*i)[1].str() : "/* no " + (*i)[1].str() + " */"); at = i->position() + i->length(); } h += t.substr(at); size_t q = h.find("@NOSTR_FEATURE_ENCODING@"); if (q != string::npos) h.replace(q, 24, "ON");
  FILE* f = fopen((inc + "/nostr_features.h").c_str(), "wb"); CHECK(f, "cannot write in %s", inc.c_str()); fwrite(h.data(), 1, h.size(), f); fclose(f);
  string def, out; for (auto& x : k) if (x.compare(0, 5, "HAVE_") == 0) def += " -D" + x; string tmp = o + strf(".%d", (int)getpid()); bool cpp = base.find(".cpp") != string::npos;
  int r = sh((cpp ? "clang++ -std=gnu++17 -O1 -w " : FLAGS) + extra + " -I" + inc + " -I" + verif() + "/standin -I" + repo() + "/include -I" + repo() + "/src" + def + " -c " + path + " -o " + tmp, &out); unlink((inc + "/nostr_features.h").c_str()); rmdir(inc.c_str());
  CHECK(r == 0, "with %s, %s does not compile: %s", sel.text().c_str(), base.c_str(), short_of(out).c_str()); if ((all && !cpp) || base == "features.c") { once.push_back(tmp); return tmp; } rename(tmp.c_str(), o.c_str()); return o; }
static string build(const Sel& sel) { struct Drop { ~Drop() { for (auto& o : once) unlink(o.c_str()); once.clear(); } } drop; string objs; for (auto& s : sel.sources()) objs += " " + object(repo() + "/src/" + s + ".c", sel, "", false); objs += " " + object(verif() + "/props/feat_probe.c", sel, "", true); if (sel.nos) objs += " " + object(verif() + "/standin/noscrypt_impl.cpp", Sel(), "", true);
  string exe = dir() + strf("/probe-%d", (int)getpid()), out; int r = sh("clang++ -fsanitize=address,undefined" + objs + " -o " + exe + " -lwebsockets -lcap -lcjson -lutf8proc -lsecp256k1 -lssl -lcrypto -lmbedcrypto -lpthread -lm", &out); CHECK(r == 0, "with %s, the library does not link: %s", sel.text().c_str(), short_of(out).c_str()); return exe; }
static string ask(const string& exe, uint32_t seed, const Sel& sel) { string out; int r = sh("ASAN_OPTIONS=detect_leaks=0 timeout 40 " + exe + strf(" %u", seed), &out); CHECK(r == 0, "with %s, the program ended with %d: %s", sel.text().c_str(), r, short_of(out.size() > 3000 ? out.substr(out.size() - 3000) : out).c_str()); return out; }
static map<string, vector<string>> answers(const string& t) { map<string, vector<string>> m; size_t a = 0; while (a < t.size()) { size_t e = t.find('\n', a); if (e == string::npos) e = t.size(); string l = t.substr(a, e - a); size_t q = l.find('\t'); if (q != string::npos) m[l.substr(0, q)].push_back(l.substr(q + 1)); a = e + 1; } return m; }
static set<string> split(const string& t, char c) { set<string> o; string w; for (char x : t + c) if (x == c) { if (!w.empty()) o.insert(w); w.clear(); } else w += x; return o; }

static Sel full() { Sel f; f.nos = true; f.on.insert(FEATURE.begin(), FEATURE.end()); return f; }
static string full_probe() { static string p = [] { string e = build(full()), q = dir() + strf("/full-%d", (int)getpid()); rename(e.c_str(), q.c_str()); static string keep = q; atexit([] { unlink(keep.c_str()); }); return q; }(); return p; }
static string joined(const vector<string>& v) { string o; for (auto& x : v) o += (o.empty() ? "" : " / ") + x; return o; }

static string sorted_json(JV v) { std::function<void(JV&)> f = [&](JV& x) { for (auto& a : x.a) f(a); for (auto& a : x.o) f(a.second); std::stable_sort(x.o.begin(), x.o.end(), [](auto& p, auto& q) { return p.first < q.first; }); }; f(v); return json_compact(v); }

PROP(P50, selection, 1) {
  Sel sel; switch (s.weighted({4, 5, 2})) { case 1: sel.nos = true; break; case 2: sel.nos = true; sel.secp = false; break; default: break; } sel.mbed = s.chance(1, 3);
  unsigned dense = (unsigned)s.pick(vector<int>{3, 1, 6, 7, 5}); for (auto& f : FEATURE) if (s.chance(dense, 8) && (sel.nos || !SEALED.count(f))) sel.on.insert(f);
  if (sel.has("NIP17") || sel.has("NIP46") || sel.has("NIP47") || sel.has("NIP59")) sel.on.insert("NIP44"); if (sel.has("RELAY")) sel.on.insert("JSON_ENHANCED"); if (!sel.secp) sel.on.erase("HD_KEYS");   // hd_key.c computes with libsecp256k1
  uint32_t seed = (uint32_t)s.raw(4); c.nontrivial(); c.label(sel.nos ? sel.secp ? "both backends" : "noscrypt only" : "secp256k1 only"); if (sel.mbed) c.label("mbedTLS"); c.label(sel.on.size() < 6 ? "few features" : sel.on.size() < 14 ? "some features" : "most features"); c.sample(sel.text());
  string exe = build(sel), mine; try { mine = ask(exe, seed, sel); } catch (...) { unlink(exe.c_str()); throw; } unlink(exe.c_str());
  auto a = answers(mine), want = answers(ask(full_probe(), seed, full())); CHECK(a.count("end"), "the program stopped early");
  set<string> names = {"std", "events", "keys", "encoding"}, nips; for (auto& f : sel.on) { string n; for (char x : f) n += x == '_' ? '-' : (char)tolower(x); names.insert(n); if (f.compare(0, 3, "NIP") == 0) nips.insert(strf("%d", atoi(f.c_str() + 3))); }
  for (auto& l : a) { const string &k = l.first, got = joined(l.second);
    if (k == "says list") { set<string> g = split(got, ','); for (auto& n : names) CHECK(g.count(n), "with %s, the list of features \"%s\" lacks %s", sel.text().c_str(), got.c_str(), n.c_str()); for (auto& n : g) CHECK(names.count(n), "with %s, the list of features \"%s\" names %s", sel.text().c_str(), got.c_str(), n.c_str()); }
    else if (k == "says nips") CHECK(split(got, ' ') == nips, "with %s, the library supports the NIPs \"%s\"", sel.text().c_str(), got.c_str());
    else if (k == "says parts") CHECK(got == strf("%d%d%d%d", sel.has("RELAY"), sel.has("HD_KEYS"), sel.has("JSON_ENHANCED"), sel.has("RELAY_PROTOCOL")), "with %s, relay/HD keys/JSON/relay protocol are said to be %s", sel.text().c_str(), got.c_str());
    else if (k == "says crypto") CHECK((got.find(sel.nos ? "noscrypt" : "secp256k1") == 0), "with %s, the library says it uses %s", sel.text().c_str(), got.c_str());
    else if (k.compare(0, 4, "off ") == 0) { for (auto& v : l.second) CHECK(v == "1", "with %s, what was left out does not answer that it is not supported (%s)", sel.text().c_str(), k.c_str()); }
    else { auto w = want.find(k); string ref = w == want.end() ? "(no answer)" : joined(w->second); JV x, y; if (got != ref && json_parse(got, &x) && json_parse(ref, &y) && sorted_json(x) == sorted_json(y)) continue; CHECK(got == ref, "with %s, \"%s\" is \"%s\"; in the full build it is \"%s\" (seed %u)", sel.text().c_str(), k.c_str(), got.c_str(), ref.c_str(), seed); } }
  for (auto& w : want) { string area = w.first.substr(0, w.first.find(' ')); bool here = area == "core" || area == "enc" || area == "config"; if (here) CHECK(a.count(w.first), "with %s, \"%s\" is not answered", sel.text().c_str(), w.first.c_str()); }
}
