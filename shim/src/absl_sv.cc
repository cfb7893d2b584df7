// The installed Abseil was built with its own absl::string_view; the code under
// test needs absl::string_view == std::string_view (as its real Abseil has), so
// absl/base/options.h is overridden and the out-of-line functions that take a
// string_view are provided here with that signature.
#include <climits>
#include <cstring>
#include <string>
#include "absl/strings/escaping.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_split.h"
#include "absl/strings/ascii.h"
#include "absl/strings/str_cat.h"

namespace absl {
ABSL_NAMESPACE_BEGIN
std::string BytesToHexString(absl::string_view from) {
  static const char* k = "0123456789abcdef";
  std::string r;
  for (unsigned char c : from) { r.push_back(k[c >> 4]); r.push_back(k[c & 15]); }
  return r;
}
std::string HexStringToBytes(absl::string_view from) {
  auto v = [](char c) -> int { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : 0; };
  std::string r;
  for (size_t i = 0; i + 1 < from.size(); i += 2) r.push_back((char)(v(from[i]) << 4 | v(from[i + 1])));
  return r;
}
static const char kB64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string Base64Escape(absl::string_view s) {
  std::string r;
  size_t i = 0;
  for (; i + 2 < s.size(); i += 3) {
    unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2];
    r.push_back(kB64[v >> 18]); r.push_back(kB64[v >> 12 & 63]); r.push_back(kB64[v >> 6 & 63]); r.push_back(kB64[v & 63]);
  }
  if (s.size() - i == 1) {
    unsigned v = (unsigned char)s[i] << 16;
    r.push_back(kB64[v >> 18]); r.push_back(kB64[v >> 12 & 63]); r += "==";
  } else if (s.size() - i == 2) {
    unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8;
    r.push_back(kB64[v >> 18]); r.push_back(kB64[v >> 12 & 63]); r.push_back(kB64[v >> 6 & 63]); r += "=";
  }
  return r;
}
bool Base64Unescape(absl::string_view src, std::string* dest) {
  dest->clear();
  unsigned acc = 0; int bits = 0, n = 0; size_t pad = 0;
  for (char c : src) {
    if (c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\v' || c == '\f') continue;
    if (c == '=') { ++pad; continue; }
    if (pad) { dest->clear(); return false; }
    const char* p = c ? std::strchr(kB64, c) : nullptr;
    if (!p) { dest->clear(); return false; }
    acc = acc << 6 | (unsigned)(p - kB64); bits += 6; ++n;
    if (bits >= 8) { bits -= 8; dest->push_back((char)(acc >> bits)); acc &= (1u << bits) - 1; }
  }
  bool ok = (n % 4 != 1) && (acc == 0) && (pad == 0 || (n + pad) % 4 == 0);
  if (!ok) dest->clear();
  return ok;
}
namespace {
absl::string_view FindAt(absl::string_view text, absl::string_view d, size_t pos) {
  if (d.empty() && text.size() > 0) return absl::string_view(text.data() + pos + 1, 0);
  size_t f = text.find(d, pos);
  if (f == absl::string_view::npos) return absl::string_view(text.data() + text.size(), 0);
  return absl::string_view(text.data() + f, d.size());
}
}  // namespace
ByString::ByString(absl::string_view sp) : delimiter_(sp) {}
absl::string_view ByString::Find(absl::string_view text, size_t pos) const {
  if (delimiter_.size() == 1) {
    size_t f = text.find(delimiter_[0], pos);
    return f == absl::string_view::npos ? absl::string_view(text.data() + text.size(), 0) : text.substr(f, 1);
  }
  return FindAt(text, delimiter_, pos);
}
absl::string_view ByChar::Find(absl::string_view text, size_t pos) const {
  size_t f = text.find(c_, pos);
  return f == absl::string_view::npos ? absl::string_view(text.data() + text.size(), 0) : text.substr(f, 1);
}
namespace numbers_internal {
template <typename T>
static bool Parse(absl::string_view s, T* out, int base, bool is_signed) {
  *out = 0;
  while (!s.empty() && absl::ascii_isspace(s.front())) s.remove_prefix(1);
  while (!s.empty() && absl::ascii_isspace(s.back())) s.remove_suffix(1);
  if (s.empty()) return false;
  bool neg = false;
  if (s[0] == '+' || s[0] == '-') { neg = s[0] == '-'; s.remove_prefix(1); if (s.empty()) return false; }
  if (base == 0) base = 10;
  if (neg && !is_signed) return false;
  unsigned __int128 lim = is_signed ? ((unsigned __int128)std::numeric_limits<T>::max() + (neg ? 1 : 0)) : (unsigned __int128)std::numeric_limits<T>::max();
  unsigned __int128 v = 0;
  for (char c : s) {
    int d = c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'z' ? (c | 32) - 'a' + 10 : 99;
    if (d >= base) return false;
    v = v * base + d;
    if (v > lim) { *out = neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); return false; }
  }
  *out = neg ? (T)(-(__int128)v) : (T)v;
  return true;
}
bool safe_strto32_base(absl::string_view s, int32_t* v, int b) { return Parse(s, v, b, true); }
bool safe_strto64_base(absl::string_view s, int64_t* v, int b) { return Parse(s, v, b, true); }
bool safe_strtou32_base(absl::string_view s, uint32_t* v, int b) { return Parse(s, v, b, false); }
bool safe_strtou64_base(absl::string_view s, uint64_t* v, int b) { return Parse(s, v, b, false); }
}  // namespace numbers_internal
static std::string Cat(std::initializer_list<absl::string_view> l) { std::string r; for (auto v : l) r.append(v.data(), v.size()); return r; }
std::string StrCat(const AlphaNum& a, const AlphaNum& b) { return Cat({a.Piece(), b.Piece()}); }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { return Cat({a.Piece(), b.Piece(), c.Piece()}); }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) { return Cat({a.Piece(), b.Piece(), c.Piece(), d.Piece()}); }
void StrAppend(std::string* o, const AlphaNum& a) { *o += Cat({a.Piece()}); }
void StrAppend(std::string* o, const AlphaNum& a, const AlphaNum& b) { *o += Cat({a.Piece(), b.Piece()}); }
void StrAppend(std::string* o, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { *o += Cat({a.Piece(), b.Piece(), c.Piece()}); }
void StrAppend(std::string* o, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) { *o += Cat({a.Piece(), b.Piece(), c.Piece(), d.Piece()}); }
namespace strings_internal {
std::string CatPieces(std::initializer_list<absl::string_view> l) { return Cat(l); }
void AppendPieces(std::string* o, std::initializer_list<absl::string_view> l) { *o += Cat(l); }
}  // namespace strings_internal
ABSL_NAMESPACE_END
}  // namespace absl

#include "absl/strings/str_replace.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
int StrReplaceAll(std::initializer_list<std::pair<absl::string_view, absl::string_view>> rs, std::string* target) {
  auto r = StrReplaceAll(*target, rs);
  target->swap(r);
  return 1;
}
std::string StrReplaceAll(absl::string_view s, std::initializer_list<std::pair<absl::string_view, absl::string_view>> rs) {
  std::string out;
  size_t i = 0;
  while (i < s.size()) {
    size_t best = 0;
    absl::string_view to;
    for (auto& kv : rs)
      if (!kv.first.empty() && kv.first.size() > best && s.substr(i, kv.first.size()) == kv.first) { best = kv.first.size(); to = kv.second; }
    if (best) { out.append(to.data(), to.size()); i += best; } else out += s[i++];
  }
  return out;
}
ABSL_NAMESPACE_END
}  // namespace absl
