#include "oracle.h"
#include <algorithm>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
using namespace vf;
namespace vo {

string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; string o; o.reserve(2 * n); for (size_t i = 0; i < n; i++) { uint8_t b = ((const uint8_t*)p)[i]; o += d[b >> 4]; o += d[b & 15]; } return o; }
string upper(string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
string lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bool strict_hex(const string& s, size_t nb, string* out) {
  if (s.size() != 2 * nb) return false; string o;
  for (size_t i = 0; i < nb; i++) { int a = hv(s[2 * i]), b = hv(s[2 * i + 1]); if (a < 0 || b < 0) return false; o += (char)(a * 16 + b); }
  if (out) *out = o; return true;
}
string unhex(const string& s) { string o; if (!strict_hex(s, s.size() / 2, &o)) abort(); return o; }
static string digest(const EVP_MD* md, const string& s) { unsigned char b[64]; unsigned n = 0; EVP_Digest(s.data(), s.size(), b, &n, md, nullptr); return string((char*)b, n); }
string sha256(const string& s) { return digest(EVP_sha256(), s); }
string sha512(const string& s) { return digest(EVP_sha512(), s); }
string hmac(const char* md, const string& key, const string& data) { unsigned char b[64]; unsigned n = 0; HMAC(EVP_get_digestbyname(md), key.data(), (int)key.size(), (const unsigned char*)data.data(), data.size(), b, &n); return string((char*)b, n); }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
string b64(const string& s) { string o; size_t i = 0; for (; i + 2 < s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2]; for (int k = 18; k >= 0; k -= 6) o += B64[v >> k & 63]; }
  if (i + 1 == s.size()) { uint32_t v = (uint8_t)s[i] << 16; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += "=="; } else if (i + 2 == s.size()) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += '='; } return o; }
bool unb64(const string& s, string* out) { if (s.size() % 4) return false; string o; for (size_t i = 0; i < s.size(); i += 4) { uint32_t v = 0; int pad = 0; for (int k = 0; k < 4; k++) { char c = s[i + k]; const char* p = c ? strchr(B64, c) : nullptr; if (c == '=' && i + 4 == s.size() && k >= 2) { pad++; v <<= 6; } else { if (!p || pad) return false; v = v << 6 | (uint32_t)(p - B64); } } o += (char)(v >> 16); if (pad < 2) o += (char)(v >> 8); if (pad < 1) o += (char)v; } *out = o; return true; }
string show(const string& s, size_t max) { string o; for (unsigned char c : s) { if (o.size() > max) { o += strf("...(%zu)", s.size()); break; } if (c >= 0x20 && c < 0x7f && c != '\\') o += (char)c; else o += strf("\\x%02x", c); } return o; }

bool utf8_valid(const string& s) {
  size_t i = 0, n = s.size();
  while (i < n) {
    unsigned char c = s[i]; int k; uint32_t cp;
    if (c < 0x80) { i++; continue; } else if (c >= 0xc2 && c <= 0xdf) { k = 1; cp = c & 31; } else if ((c & 0xf0) == 0xe0) { k = 2; cp = c & 15; } else if (c >= 0xf0 && c <= 0xf4) { k = 3; cp = c & 7; } else return false;
    if (i + k >= n) return false;
    for (int j = 1; j <= k; j++) { unsigned char d = s[i + j]; if ((d & 0xc0) != 0x80) return false; cp = cp << 6 | (d & 63); }
    if ((k == 2 && cp < 0x800) || (k == 3 && (cp < 0x10000 || cp > 0x10ffff)) || (cp >= 0xd800 && cp <= 0xdfff)) return false;
    i += k + 1;
  }
  return true;
}
string utf8(uint32_t c) { string o; if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } return o; }

bool JV::is_int(int64_t* v) const {
  if (t != Num) return false; size_t i = s[0] == '-' ? 1 : 0; if (i == s.size() || s.size() > 20) return false;
  for (size_t k = i; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false;
  errno = 0; long long x = strtoll(s.c_str(), nullptr, 10); if (errno) return false; *v = x; return true;
}
namespace { struct P { const string& s; size_t i = 0; string err; int depth = 0;
  bool bad(const char* m) { if (err.empty()) err = strf("%s at %zu", m, i); return false; }
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
  bool lit(const char* l) { size_t n = strlen(l); if (s.compare(i, n, l)) return bad("literal"); i += n; return true; }
  bool hex4(uint32_t* v) { if (i + 4 > s.size()) return false; *v = 0; for (int k = 0; k < 4; k++) { int h = hv(s[i++]); if (h < 0) return false; *v = *v << 4 | h; } return true; }
  bool str(string* o) { if (i >= s.size() || s[i] != '"') return bad("quote"); i++;
    while (true) { if (i >= s.size()) return bad("eos"); unsigned char c = s[i++]; if (c == '"') return true; if (c < 0x20) return bad("control character in string");
      if (c != '\\') { *o += (char)c; continue; }
      if (i >= s.size()) return bad("eos"); c = s[i++];
      switch (c) { case '"': case '\\': case '/': *o += (char)c; break; case 'b': *o += '\b'; break; case 'f': *o += '\f'; break; case 'n': *o += '\n'; break; case 'r': *o += '\r'; break; case 't': *o += '\t'; break;
        case 'u': { uint32_t u, v; if (!hex4(&u)) return bad("\\u"); if (u >= 0xdc00 && u <= 0xdfff) return bad("lone surrogate"); if (u >= 0xd800 && u <= 0xdbff) { if (i + 2 > s.size() || s[i] != '\\' || s[i + 1] != 'u') return bad("surrogate"); i += 2; if (!hex4(&v) || v < 0xdc00 || v > 0xdfff) return bad("surrogate"); u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00); } *o += utf8(u); break; }
        default: return bad("escape"); } } }
  bool val(JV* v) { if (++depth > 2000) return bad("depth"); ws(); if (i >= s.size()) return bad("eof"); char c = s[i]; bool ok = true;
    if (c == '{') { v->t = JV::Obj; i++; ws(); if (i < s.size() && s[i] == '}') i++; else while (true) { ws(); string k; if (!str(&k)) return false; ws(); if (i >= s.size() || s[i] != ':') return bad("colon"); i++; JV x; if (!val(&x)) return false; v->o.push_back({k, x}); ws(); if (i >= s.size()) return bad("eof"); if (s[i] == ',') { i++; continue; } if (s[i] == '}') { i++; break; } return bad("object"); } }
    else if (c == '[') { v->t = JV::Arr; i++; ws(); if (i < s.size() && s[i] == ']') i++; else while (true) { JV x; if (!val(&x)) return false; v->a.push_back(x); ws(); if (i >= s.size()) return bad("eof"); if (s[i] == ',') { i++; continue; } if (s[i] == ']') { i++; break; } return bad("array"); } }
    else if (c == '"') { v->t = JV::Str; ok = str(&v->s); }
    else if (c == 't') { v->t = JV::True; ok = lit("true"); } else if (c == 'f') { v->t = JV::False; ok = lit("false"); } else if (c == 'n') { v->t = JV::Null; ok = lit("null"); }
    else { v->t = JV::Num; size_t b = i; if (s[i] == '-') i++; if (i >= s.size() || s[i] < '0' || s[i] > '9') return bad("number"); if (s[i] == '0') i++; else while (i < s.size() && isdigit((unsigned char)s[i])) i++;
      if (i < s.size() && s[i] == '.') { i++; size_t k = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (k == i) return bad("fraction"); }
      if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t k = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (k == i) return bad("exponent"); }
      v->s = s.substr(b, i - b); }
    depth--; return ok; } }; }
bool json_parse(const string& s, JV* out, string* err) { P p{s}; *out = JV(); bool ok = p.val(out); if (ok) { p.ws(); if (p.i != s.size()) ok = p.bad("trailing data"); } if (ok && !utf8_valid(s)) ok = p.bad("invalid UTF-8"); if (err) *err = p.err; return ok; }
JV jstr(const string& s) { JV v; v.t = JV::Str; v.s = s; return v; }
JV jraw(const string& n) { JV v; v.t = JV::Num; v.s = n; return v; }
JV jint(int64_t x) { return jraw(std::to_string(x)); }
JV jarr(vector<JV> a) { JV v; v.t = JV::Arr; v.a = std::move(a); return v; }
JV jobj(vector<std::pair<string, JV>> o) { JV v; v.t = JV::Obj; v.o = std::move(o); return v; }
JV jbool(bool b) { JV v; v.t = b ? JV::True : JV::False; return v; }
JV jnull() { return JV(); }
string nip01_escape(const string& s) { string o; for (unsigned char c : s) switch (c) { case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; default: if (c < 0x20) o += strf("\\u%04x", c); else o += (char)c; } return o; }
string json_compact(const JV& v) { string o; switch (v.t) { case JV::Null: return "null"; case JV::True: return "true"; case JV::False: return "false"; case JV::Num: return v.s; case JV::Str: return "\"" + nip01_escape(v.s) + "\"";
  case JV::Arr: o = "["; for (size_t i = 0; i < v.a.size(); i++) { if (i) o += ','; o += json_compact(v.a[i]); } return o + "]";
  case JV::Obj: o = "{"; for (size_t i = 0; i < v.o.size(); i++) { if (i) o += ','; o += "\"" + nip01_escape(v.o[i].first) + "\":" + json_compact(v.o[i].second); } return o + "}"; } return o; }
string g_ws(Src& s) { string o; size_t n = s.weighted({8, 2, 1}); while (n--) o += " \t\n\r"[s.below(4)]; return o; }
static string esc_variant(const string& t, Src& s) {
  if (!s.chance(1, 3)) return "\"" + nip01_escape(t) + "\"";
  string o = "\""; size_t i = 0;
  while (i < t.size()) {
    unsigned char c = t[i]; int k = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    bool u = s.chance(1, 6);
    if (!u) { o += k == 1 ? nip01_escape(t.substr(i, 1)) : t.substr(i, k); if (k == 1 && c == '/' && s.flip()) { o.pop_back(); o += "\\/"; } }
    else { uint32_t cp = k == 1 ? c : k == 2 ? c & 31 : k == 3 ? c & 15 : c & 7; for (int j = 1; j < k; j++) cp = cp << 6 | (t[i + j] & 63);
      const char* f = s.flip() ? "\\u%04x" : "\\u%04X"; auto e = [&](uint32_t x) { char b[8]; snprintf(b, sizeof b, f, x); o += b; };
      if (cp == 0) o += nip01_escape(t.substr(i, 1)); else if (cp < 0x10000) e(cp); else { e(0xd800 + ((cp - 0x10000) >> 10)); e(0xdc00 + ((cp - 0x10000) & 0x3ff)); } }
    i += k;
  }
  return o + "\"";
}
string json_variant(const JV& v, Src& s, bool w) { string o; auto W = [&] { return w ? g_ws(s) : string(); }; switch (v.t) { case JV::Str: return esc_variant(v.s, s);
  case JV::Arr: o = "[" + W(); for (size_t i = 0; i < v.a.size(); i++) { if (i) o += "," + W(); o += json_variant(v.a[i], s, w) + W(); } return o + "]";
  case JV::Obj: o = "{" + W(); for (size_t i = 0; i < v.o.size(); i++) { if (i) o += "," + W(); o += "\"" + nip01_escape(v.o[i].first) + "\"" + W() + ":" + W() + json_variant(v.o[i].second, s, w) + W(); } return o + "}";
  default: return json_compact(v); } }
static void strings_of(JV& v, bool names, vector<string*>* o) { if (v.t == JV::Str && !names) o->push_back(&v.s); for (auto& x : v.a) strings_of(x, names, o); for (auto& m : v.o) { if (names) o->push_back(&m.first); strings_of(m.second, names, o); } }
bool put_nul(JV& v, Src& s, bool names) { vector<string*> o; strings_of(v, names, &o); if (o.empty()) return false; string& x = *o[s.below(o.size())]; static const char* tail[] = {"", "", "x", "\"", "\\", "0"}; string z = string(1 + s.below(2), '\0') + s.pick(tail); size_t at = s.flip() ? x.size() : s.below(x.size() + 1); while (at < x.size() && ((unsigned char)x[at] & 0xc0) == 0x80) at++; x.insert(at, z); return true; }
string nip01_serial(const string& pk, int64_t ts, uint32_t kind, const vector<vector<string>>& tags, const string& content) {
  string o = "[0,\"" + pk + "\"," + std::to_string(ts) + "," + std::to_string(kind) + ",[";
  for (size_t i = 0; i < tags.size(); i++) { if (i) o += ','; o += '['; for (size_t j = 0; j < tags[i].size(); j++) { if (j) o += ','; o += "\"" + nip01_escape(tags[i][j]) + "\""; } o += ']'; }
  return o + "],\"" + nip01_escape(content) + "\"]";
}

secp256k1_context_struct* secp() { static secp256k1_context* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY); return c; }
bool pub_of(const string& priv, string* pub) { secp256k1_keypair kp; if (!secp256k1_keypair_create(secp(), &kp, (const unsigned char*)priv.data())) return false; secp256k1_xonly_pubkey x; secp256k1_keypair_xonly_pub(secp(), &x, nullptr, &kp); unsigned char o[32]; secp256k1_xonly_pubkey_serialize(secp(), o, &x); *pub = string((char*)o, 32); return true; }
string schnorr_sign(const string& priv, const string& msg, const string& aux) { secp256k1_keypair kp; if (!secp256k1_keypair_create(secp(), &kp, (const unsigned char*)priv.data())) abort(); unsigned char sig[64]; secp256k1_schnorrsig_sign32(secp(), sig, (const unsigned char*)msg.data(), &kp, (const unsigned char*)aux.data()); return string((char*)sig, 64); }
bool schnorr_verify(const string& pub, const string& msg, const string& sig) { secp256k1_xonly_pubkey x; if (!secp256k1_xonly_pubkey_parse(secp(), &x, (const unsigned char*)pub.data())) return false; return secp256k1_schnorrsig_verify(secp(), (const unsigned char*)sig.data(), (const unsigned char*)msg.data(), 32, &x); }
string privkey_n(unsigned i) { return sha256(strf("vf key %u", i)); }
string pubkey_n(unsigned i) { static std::map<unsigned, string> m; auto it = m.find(i); if (it != m.end()) return it->second; string p; pub_of(privkey_n(i), &p); return m[i] = p; }

static const char CH[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static uint32_t polymod(const vector<uint8_t>& v) { static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}; uint32_t c = 1; for (auto x : v) { uint32_t t = c >> 25; c = (c & 0x1ffffff) << 5 ^ x; for (int i = 0; i < 5; i++) if (t >> i & 1) c ^= G[i]; } return c; }
static vector<uint8_t> hrpx(const string& h) { vector<uint8_t> v; for (unsigned char c : h) v.push_back(c >> 5); v.push_back(0); for (unsigned char c : h) v.push_back(c & 31); return v; }
vector<uint8_t> to5(const string& b) { vector<uint8_t> o; uint32_t acc = 0; int bits = 0; for (unsigned char c : b) { acc = acc << 8 | c; bits += 8; while (bits >= 5) { bits -= 5; o.push_back(acc >> bits & 31); } } if (bits) o.push_back(acc << (5 - bits) & 31); return o; }
string bech32_encode5(const string& hrp, const vector<uint8_t>& d, uint32_t k) { vector<uint8_t> v = hrpx(lower(hrp)); v.insert(v.end(), d.begin(), d.end()); for (int i = 0; i < 6; i++) v.push_back(0); uint32_t p = polymod(v) ^ k; string o = hrp + "1"; for (auto x : d) o += CH[x]; for (int i = 0; i < 6; i++) o += CH[p >> (5 * (5 - i)) & 31]; return o; }
string bech32_encode_raw(const string& hrp, const string& b) { vector<uint8_t> v; auto d = to5(b); for (char c : hrp) v.push_back((uint8_t)(c >> 5)); v.push_back(0); for (char c : hrp) v.push_back(c & 31); v.insert(v.end(), d.begin(), d.end()); for (int i = 0; i < 6; i++) v.push_back(0); uint32_t p = polymod(v) ^ 1; string o = hrp + "1"; for (auto x : d) o += CH[x]; for (int i = 0; i < 6; i++) o += CH[p >> (5 * (5 - i)) & 31]; return o; }
string bech32_encode(const string& hrp, const string& b, uint32_t k) { return bech32_encode5(hrp, to5(b), k); }
bool bech32_decode5(const string& in, string* hrp, vector<uint8_t>* d5, uint32_t k) {
  bool lo = false, up = false; for (unsigned char c : in) { if (c < 33 || c > 126) return false; if (c >= 'a' && c <= 'z') lo = true; if (c >= 'A' && c <= 'Z') up = true; } if (lo && up) return false;
  string s = lower(in); size_t p = s.rfind('1'); if (p == string::npos || p < 1 || p + 7 > s.size()) return false;
  *hrp = s.substr(0, p); vector<uint8_t> d; for (size_t i = p + 1; i < s.size(); i++) { const char* q = strchr(CH, s[i]); if (!q || !s[i]) return false; d.push_back((uint8_t)(q - CH)); }
  vector<uint8_t> v = hrpx(*hrp); v.insert(v.end(), d.begin(), d.end()); if (polymod(v) != k) return false; d.resize(d.size() - 6); *d5 = d; return true;
}
bool bech32_decode(const string& s, string* hrp, string* bytes) { vector<uint8_t> d; if (!bech32_decode5(s, hrp, &d)) return false; uint32_t acc = 0; int bits = 0; bytes->clear(); for (auto x : d) { acc = (acc << 5 | x) & 0xfff; bits += 5; if (bits >= 8) { bits -= 8; *bytes += (char)(acc >> bits); } } return bits < 5 && (acc & ((1u << bits) - 1)) == 0; }

static uint32_t g_cp(Src& s) {
  switch (s.weighted({10, 6, 4, 3, 2, 2, 2, 1})) {
    case 0: return (uint32_t)s.range('a', 'z'); case 1: return (uint32_t)s.range(0x20, 0x7e); case 2: { static const char sp[] = "\"\\/{}[],:'<>&%#=@ 0"; return (uint32_t)sp[s.below(sizeof sp - 1)]; }
    case 3: return (uint32_t)s.range(1, 0x1f); case 4: { static const uint32_t v[] = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x2028, 0x2029, 0x85, 0xa0, 0xfeff, 0x1f600}; return s.pick(v); }
    case 5: return (uint32_t)s.range(0x80, 0x7ff); case 6: { uint32_t c = (uint32_t)s.range(0x800, 0xffff); return c >= 0xd800 && c <= 0xdfff ? c - 0x1000 : c; } default: return (uint32_t)s.range(0x10000, 0x10ffff); }
}
string g_text(Src& s, size_t max) {
  string o; size_t n;
  switch (s.weighted({6, 3, 2, 1, 1})) {
    case 0: n = s.size(std::min<size_t>(max, 24)); while (n-- && o.size() + 4 <= max) o += utf8(g_cp(s)); return o;
    case 1: n = s.size(std::min<size_t>(max, 16)); while (n--) o += (char)s.range('a', 'z'); return o;
    case 2: { static const char* w[] = {"hello", "nostr", "", "0", "-1", "e", "p", "wss://relay.example", "note1xyz", "\"", "\\", "\\u0000", "null", "true", "[]", "{}", "\n", "a b", "%s%n", "\xf0\x9f\xa4\x99", "\xe2\x9d\xa4"}; o = s.pick(w); return o.substr(0, max); }
    case 3: { n = s.size(max); uint32_t c = g_cp(s); string u = utf8(c); while (o.size() + u.size() <= n) o += u; return o; }   // long runs of one character
    default: { n = s.size(max); string b = s.bulk(n); for (auto& ch : b) ch = (char)(0x20 + (unsigned char)ch % 0x5f); return b; }
  }
}
string g_ascii(Src& s, size_t max, const char* al) { size_t n = s.size(max), k = strlen(al); string o; while (n--) o += al[s.below(k)]; return o; }
string g_bytes(Src& s, size_t max) { size_t n = s.size(max); if (n > 64) return s.bulk(n); string o; while (n--) o += (char)s.u8(); return o; }
string g_cstr(Src& s, size_t max) { string b = g_bytes(s, max); for (auto& c : b) if (!c) c = 1; return b; }
string g_bin32(Src& s) { switch (s.weighted({6, 4, 1, 1})) { case 0: return sha256(strf("id %u", (unsigned)s.below(4))); case 1: { string o; for (int i = 0; i < 32; i++) o += (char)s.u8(); return o; } case 2: return string(32, (char)0); default: return string(32, (char)0xff); } }
string g_hexid(Src& s) { return hex(g_bin32(s)); }
string g_mut(Src& s, string v, unsigned edits) {
  unsigned k = 1 + (unsigned)s.below(edits);
  while (k--) {
    size_t p = v.empty() ? 0 : s.below(v.size() + 1);
    switch (s.below(6)) {
      case 0: v.insert(p, 1, (char)s.u8()); break; case 1: if (p < v.size()) v.erase(p, 1); break; case 2: if (p < v.size()) v[p] = (char)s.u8(); break;
      case 3: if (p < v.size()) v[p] ^= (char)(1 << s.below(8)); break; case 4: { size_t n = s.below(8) + 1; if (p < v.size()) v.insert(s.below(v.size() + 1), v.substr(p, n)); break; } default: if (s.chance(1, 3)) v.resize(p); else { static const char t[] = "\"\\{}[],:0-+ eE.\t'xX1"; v.insert(p, 1, t[s.below(sizeof t - 1)]); } break;
    }
  }
  return v;
}
string g_url(Src& s) { static const char* u[] = {"wss://relay.example", "wss://r.test/path", "ws://localhost", "wss://relay.damus.io", "wss://a.b:443/x?y=z", "wss://nos.lol/"}; if (s.chance(3, 4)) return s.pick(u); return string(s.flip() ? "wss://" : "ws://") + g_ascii(s, 30, "abcdefghijklmnop.-/:0123") + "h"; }
int64_t g_ts(Src& s) { switch (s.weighted({6, 2, 1, 1})) { case 0: return 1700000000 + s.range(-5, 5); case 1: return (int64_t)(uint32_t)s.u64(4); case 2: return s.range(0, 3); default: return (int64_t)(s.u64(8) & 0x1fffffffffffffULL); } }
Key g_key(Src& s) {
  if (s.chance(1, 8)) { string p; do { p.clear(); for (int i = 0; i < 32; i++) p += (char)s.u8(); } while (false); string q; if (pub_of(p, &q)) return {p, q}; }
  unsigned i = (unsigned)s.below(16); return {privkey_n(i), pubkey_n(i)};
}
void Ev::seal(const string& priv) { pub_of(priv, &pubkey); id = sha256(serial()); sig = schnorr_sign(priv, id, string(32, 7)); }
JV Ev::json() const { vector<JV> t; for (auto& x : tags) { vector<JV> a; for (auto& y : x) a.push_back(jstr(y)); t.push_back(jarr(a)); } return jobj({{"id", jstr(hex(id))}, {"pubkey", jstr(hex(pubkey))}, {"created_at", jint(created_at)}, {"kind", jint(kind)}, {"tags", jarr(t)}, {"content", jstr(content)}, {"sig", jstr(hex(sig))}}); }
vector<string> g_tag(Src& s, size_t maxv) {
  static const char* names[] = {"e", "p", "d", "a", "t", "r", "nonce", "E", "expiration", "x", "client", "subject"};
  vector<string> t; t.push_back(s.chance(4, 5) ? string(s.pick(names)) : g_text(s, 20)); size_t n = s.below(maxv);
  while (n--) t.push_back(s.chance(1, 2) ? g_hexid(s) : s.chance(1, 30) ? g_text(s, 5000) : g_text(s, 40)); return t;
}
Ev g_ev(Src& s) {
  Ev e; e.pubkey = pubkey_n((unsigned)s.below(8)); e.id = g_bin32(s); e.created_at = g_ts(s);
  static const uint32_t ks[] = {0, 1, 3, 4, 5, 6, 7, 16, 40, 1984, 9734, 9735, 10000, 10002, 20000, 22242, 30000, 30023, 39999, 40000, 65535};
  e.kind = s.chance(2, 3) ? s.pick(ks) : (uint32_t)(s.u64(2));
  size_t n = s.weighted({4, 4, 3, 2, 1, 1}); if (n == 5) n = s.size(60);
  while (n--) e.tags.push_back(g_tag(s)); e.content = s.chance(1, 12) ? g_text(s, 9000) : g_text(s, 200); e.sig = string(64, (char)s.u8()); return e;
}
nostr_event* lib_event(const Ev& e, bool) {
  nostr_event* x = nullptr; nostr_error_t r = nostr_event_create(&x); CHECK(r == NOSTR_OK && x, "nostr_event_create -> %d", r);
  memcpy(x->id, e.id.size() == 32 ? e.id.data() : string(32, 0).data(), 32); memcpy(x->pubkey.data, e.pubkey.size() == 32 ? e.pubkey.data() : string(32, 0).data(), 32); memcpy(x->sig, e.sig.size() == 64 ? e.sig.data() : string(64, 0).data(), 64);
  x->created_at = e.created_at; x->kind = (uint16_t)e.kind;
  { CStr c(e.content); r = nostr_event_set_content(x, c); CHECK(r == NOSTR_OK, "set_content -> %d", r); }
  for (auto& t : e.tags) { vector<const char*> v; for (auto& y : t) v.push_back(y.c_str()); r = nostr_event_add_tag(x, v.data(), v.size()); CHECK(r == NOSTR_OK, "add_tag(%zu values) -> %d", v.size(), r); }
  return x;
}
Ev from_lib(const nostr_event* x) {
  Ev e; e.id = string((const char*)x->id, 32); e.pubkey = string((const char*)x->pubkey.data, 32); e.sig = string((const char*)x->sig, 64); e.created_at = x->created_at; e.kind = x->kind; e.content = x->content ? x->content : "";
  for (size_t i = 0; i < x->tags_count; i++) { vector<string> t; for (size_t j = 0; j < x->tags[i].count; j++) t.push_back(x->tags[i].values[j] ? x->tags[i].values[j] : "(null)"); e.tags.push_back(t); } return e;
}
bool same(const Ev& a, const Ev& b, string* why, bool ids) {
  if (ids && a.id != b.id) { *why = "id " + hex(a.id) + " vs " + hex(b.id); return false; } if (a.pubkey != b.pubkey) { *why = "pubkey"; return false; } if (ids && a.sig != b.sig) { *why = "sig"; return false; }
  if (a.created_at != b.created_at) { *why = strf("created_at %lld vs %lld", (long long)a.created_at, (long long)b.created_at); return false; } if (a.kind != b.kind) { *why = strf("kind %u vs %u", a.kind, b.kind); return false; }
  if (a.content != b.content) { *why = "content [" + show(a.content) + "] vs [" + show(b.content) + "]"; return false; } if (a.tags.size() != b.tags.size()) { *why = strf("tag count %zu vs %zu", a.tags.size(), b.tags.size()); return false; }
  for (size_t i = 0; i < a.tags.size(); i++) if (a.tags[i] != b.tags[i]) { *why = strf("tag %zu: ", i); for (auto& v : a.tags[i]) *why += "[" + show(v, 40) + "]"; *why += " vs "; for (auto& v : b.tags[i]) *why += "[" + show(v, 40) + "]"; return false; }
  return true;
}
string show(const Ev& e) { return strf("kind=%u created_at=%lld tags=%zu content=", e.kind, (long long)e.created_at, e.tags.size()) + show(e.content, 60) + (e.tags.empty() ? "" : " tag0=" + show(e.tags[0][0], 20)); }
}  // namespace vo
