// Independent oracles and generators (none of this calls the library under test unless named lib_*).
#pragma once
#include "vf.h"
#include <map>
#include <memory>
extern "C" {
#include "nostr.h"
#include "nostr_relay_protocol.h"
}
struct secp256k1_context_struct;

namespace vo {
using vf::Src; using vf::Ctx; using std::string; using std::vector;

// ---- bytes / hex / hash
string hex(const void* p, size_t n); inline string hex(const string& s) { return hex(s.data(), s.size()); }
string upper(string s); string lower(string s);
bool strict_hex(const string& s, size_t nbytes, string* out);   // exactly 2*nbytes hex digits, any case
string unhex(const string& s);
string sha256(const string& s); string sha512(const string& s);
string hmac(const char* md, const string& key, const string& data);
string b64(const string& s); bool unb64(const string& s, string* out);
string show(const string& s, size_t max = 120);                 // printable rendering

// ---- UTF-8 / JSON
bool utf8_valid(const string& s);
string utf8(uint32_t cp);
struct JV {
  enum T { Null, False, True, Num, Str, Arr, Obj } t = Null;
  string s;                       // Str: decoded value; Num: source text
  vector<JV> a; vector<std::pair<string, JV>> o;
  const JV* get(const string& k) const { const JV* r = nullptr; for (auto& p : o) if (p.first == k) { r = &p.second; break; } return r; }
  bool is_int(int64_t* v) const;  // Num whose text is an integer literal that fits
};
bool json_parse(const string& s, JV* out, string* err = nullptr);   // strict RFC 8259, whole input
JV jstr(const string& s); JV jint(int64_t v); JV jraw(const string& numtext); JV jarr(vector<JV> a); JV jobj(vector<std::pair<string, JV>> o); JV jbool(bool b); JV jnull();
string json_compact(const JV& v);                                // minimal escaping (NIP-01)
bool put_nul(JV& v, vf::Src& s, bool names = false);   // U+0000 into some string of v (values, or names of members)
string json_variant(const JV& v, Src& s, bool ws = true);                        // equivalent text: whitespace, escapes
string nip01_escape(const string& s);
string nip01_serial(const string& pubkey_hex, int64_t created_at, uint32_t kind, const vector<vector<string>>& tags, const string& content);

// ---- secp256k1
secp256k1_context_struct* secp();
bool pub_of(const string& priv32, string* pub32);                // x-only
string schnorr_sign(const string& priv32, const string& msg32, const string& aux32);
bool schnorr_verify(const string& pub32, const string& msg32, const string& sig64);
string privkey_n(unsigned i);                                    // i-th key of a deterministic pool
string pubkey_n(unsigned i);

// ---- bech32 (BIP-173)
string bech32_encode(const string& hrp, const string& bytes, uint32_t constant = 1);
string bech32_encode_raw(const string& hrp, const string& bytes);   // prefix taken as it is
string bech32_encode5(const string& hrp, const vector<uint8_t>& d5, uint32_t constant = 1);
bool bech32_decode5(const string& s, string* hrp, vector<uint8_t>* d5, uint32_t constant = 1);  // no length limit
bool bech32_decode(const string& s, string* hrp, string* bytes);
vector<uint8_t> to5(const string& bytes);

// ---- generators
string g_text(Src& s, size_t max);                               // valid UTF-8 without NUL
string g_ascii(Src& s, size_t max, const char* alphabet);
string g_bytes(Src& s, size_t max);                              // arbitrary bytes, NUL possible
string g_cstr(Src& s, size_t max);                               // arbitrary bytes without NUL (may be invalid UTF-8)
string g_hexid(Src& s);                                          // 64 lower-case hex (small pool or random)
string g_bin32(Src& s);
string g_ws(Src& s);
string g_mut(Src& s, string v, unsigned edits = 3);              // byte-level edits
string g_url(Src& s);
int64_t g_ts(Src& s);                                            // plausible timestamps with boundaries
struct Key { string priv, pub; };
Key g_key(Src& s);

// ---- event model
struct Ev {
  string id, pubkey, sig;   // raw bytes 32/32/64
  int64_t created_at = 0; uint32_t kind = 1;
  vector<vector<string>> tags; string content;
  string serial() const { return nip01_serial(hex(pubkey), created_at, kind, tags, content); }
  void seal(const string& priv);     // fill pubkey, id, sig
  JV json() const; string json_text() const { return json_compact(json()); }
};
vector<string> g_tag(Src& s, size_t maxvals = 5);
Ev g_ev(Src& s);                     // arbitrary fields (unsigned)
nostr_event* lib_event(const Ev& e, bool via_api = true);   // build via nostr_event_create/add_tag/set_content
Ev from_lib(const nostr_event* e);
bool same(const Ev& a, const Ev& b, string* why, bool check_ids = true);
string show(const Ev& e);

// C string with an exact-size heap block (ASan catches over-reads)
struct CBuf { char* p; size_t n; explicit CBuf(size_t n_) : p((char*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, 0x5a, n_ ? n_ : 1); } ~CBuf() { free(p); } CBuf(const CBuf&) = delete; };
struct CStr { char* p; explicit CStr(const string& s) : p((char*)malloc(s.size() + 1)) { memcpy(p, s.data(), s.size()); p[s.size()] = 0; } ~CStr() { free(p); } CStr(const CStr&) = delete; operator const char*() const { return p; } };
struct Raw { char* p; size_t n; explicit Raw(const string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), s.size()); } ~Raw() { free(p); } Raw(const Raw&) = delete; };  // not NUL-terminated

struct EvPtr { nostr_event* e; explicit EvPtr(nostr_event* x = nullptr) : e(x) {} ~EvPtr() { if (e) nostr_event_destroy(e); } EvPtr(const EvPtr&) = delete; nostr_event* operator->() { return e; } };
template <class F> struct Defer { F f; ~Defer() { f(); } };
template <class F> Defer<F> defer(F f) { return Defer<F>{f}; }
}  // namespace vo
