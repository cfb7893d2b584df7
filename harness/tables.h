// CSV tables, their generator, and the relational reference model.
#pragma once
#include <algorithm>
#include <fstream>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include "pbt.h"

namespace tables {
using Row = std::vector<std::string>;
struct Table {
  Row cols;
  std::vector<Row> rows;
};

// RFC-4180 writer / reader, independent of the code under test.
inline std::string Quote(const std::string& s) {
  std::string r = "\"";
  for (char ch : s) { if (ch == '"') r += '"'; r += ch; }
  return r + "\"";
}
// How a table is spelled in its file; none of it changes the table.
struct Spelling {
  int quote = 0;             // 0 where needed, 1 everywhere, 2 mixed
  bool crlf = false;
  bool blank_lines = false;  // readers of csv ignore empty lines
  bool no_final_newline = false;
};
inline void WriteCsv(const std::string& path, const Table& t, Spelling sp = {}) {
  std::string o;
  uint64_t n = 0;
  auto line = [&](const Row& r) {
    for (size_t i = 0; i < r.size(); ++i) {
      if (i) o += ',';
      bool need = r[i].find_first_of(",\"\n\r") != std::string::npos || (r.size() == 1 && r[i].empty());
      bool q = need || sp.quote == 1 || (sp.quote == 2 && pbt::mix(n++) % 2);
      o += q ? Quote(r[i]) : r[i];
    }
    o += (sp.crlf ? "\r\n" : "\n");
  };
  line(t.cols);
  size_t k = 0;
  for (auto& r : t.rows) {
    line(r);
    if (sp.blank_lines && k++ > 0 && pbt::mix(k) % 3 == 0) o += (sp.crlf ? "\r\n" : "\n");
  }
  if (sp.no_final_newline) { o.pop_back(); if (sp.crlf) o.pop_back(); }
  std::ofstream f(path, std::ios::binary);
  f << o;
}
inline void WriteCsv(const std::string& path, const Table& t, bool quote_all) { Spelling s; s.quote = quote_all; WriteCsv(path, t, s); }
inline std::vector<Row> ParseCsvText(const std::string& s) {
  std::vector<Row> out;
  size_t i = 0;
  while (i < s.size()) {
    Row r;
    bool end = false;
    while (!end) {
      std::string f;
      if (i < s.size() && s[i] == '"') {
        ++i;
        while (i < s.size()) {
          if (s[i] == '"') { if (i + 1 < s.size() && s[i + 1] == '"') { f += '"'; i += 2; } else { ++i; break; } }
          else f += s[i++];
        }
      }
      while (i < s.size() && s[i] != ',' && s[i] != '\n' && s[i] != '\r') f += s[i++];
      r.push_back(f);
      if (i >= s.size()) end = true;
      else if (s[i] == ',') { ++i; if (i >= s.size()) { r.push_back(""); end = true; } }
      else { if (s[i] == '\r') ++i; if (i < s.size() && s[i] == '\n') ++i; end = true; }
    }
    if (r.size() > 1 || !r[0].empty() || (i >= 2 && s[i - 2] == '"') || (i >= 3 && s[i - 3] == '"')) out.push_back(r);  // not an empty line
  }
  return out;
}
inline std::string Slurp(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)), {});
}
inline std::optional<Table> ReadCsv(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  if (!in) return std::nullopt;
  auto rows = ParseCsvText(Slurp(path));
  Table t;
  if (rows.empty()) return t;
  t.cols = rows[0];
  t.rows.assign(rows.begin() + 1, rows.end());
  return t;
}

inline Row KeyOf(const Table& t, const Row& r, const Row& keys) {
  Row k;
  for (auto& n : keys) k.push_back(r[std::find(t.cols.begin(), t.cols.end(), n) - t.cols.begin()]);
  return k;
}
inline std::map<Row, uint64_t> Counts(const Table& t, const Row& keys) {
  std::map<Row, uint64_t> m;
  for (auto& r : t.rows) ++m[KeyOf(t, r, keys)];
  return m;
}

// ---- value generator -------------------------------------------------------
// Key values are built from an integer so that equal integers give equal
// strings; `style` picks how the integer is spelled.
inline std::string KeyVal(int style, uint64_t i) {
  switch (style) {
    case 0: return std::to_string(i);
    case 1: { char b[32]; snprintf(b, sizeof b, "%06llu", (unsigned long long)i); return b; }
    case 2: return "user-" + std::to_string(i) + "@example.com";
    case 3: { std::string s; uint64_t v = i + 1; while (v) { s += "12"[v & 1]; v >>= 1; } return s; }  // prefixes of each other
    case 4: return std::string(20 + i * 3, 'k') + std::to_string(i);  // long, distinct lengths
    case 5: return "\xe7\x94\xa8\xe6\x88\xb7" + std::to_string(i);  // UTF-8
    case 6: return "a b " + std::to_string(i) + " ";  // blanks
    case 7: { static const char* sy = "!#$%&()*+-./:;<=>?@[]^_{|}~"; return std::string(1, sy[i % 27]) + std::to_string(i / 27); }
    case 8: return i % 2 ? "0x" + std::to_string(i) : std::to_string(i) + ".50";
    case 9: return i % 3 == 0 ? "A" + std::to_string(i / 3) : i % 3 == 1 ? "a" + std::to_string(i / 3) : "-" + std::to_string(i / 3);
    case 10: return i == 0 ? "" : i == 1 ? "null" : i == 2 ? "NaN" : i == 3 ? "true" : std::to_string(i);
    case 11: { std::string s; uint64_t v = i; do { s += "\"' \\"[v % 4]; v /= 4; } while (v); return "q" + s; }  // quotes, blanks, backslashes
    case 12: return std::string(1 + i % 3, '1') + (i < 3 ? "" : std::string(1 + i / 3 % 3, '2')) + (i < 9 ? "" : std::to_string(i / 9));  // concatenations collide
    case 13: { std::string s; uint64_t v = i + 1; while (v > 1) { s += "\x01\x02"[v & 1]; v >>= 1; } return "c" + s; }  // control characters
    case 14: { std::string s; uint64_t v = i + 1; while (v) { s += ",x"[v & 1]; v >>= 1; } return s; }  // commas; only for single keys
    default: return std::to_string(i * 2654435761u % 1000003u);
  }
}
constexpr int kStyles = 16, kCommaStyle = 14;
}  // namespace tables
