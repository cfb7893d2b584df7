// Oracle for runs limited by an intersection threshold.
#pragma once
#include "e2e.h"
namespace e2e {
inline void CheckThreshold(const Scenario& x, const Ran& r, const bool has[2], uint32_t threshold, bool aligned, const char* const names[2]) {
  std::set<Row> common, ka, kb;
  for (auto& kv : tables::Counts(x.s[0].t, x.s[0].keys)) ka.insert(kv.first);
  for (auto& kv : tables::Counts(x.s[1].t, x.s[1].keys)) { kb.insert(kv.first); if (ka.count(kv.first)) common.insert(kv.first); }
  size_t real = common.size(), fin = std::min<size_t>(threshold, real);
  for (int i = 0; i < 2; ++i) {
    if (!has[i]) {
      REQUIRE(!r.out[i].has_value(), names[i] << " was not to learn the result but has an output file");
      REQUIRE(!fs::exists(x.s[i].count), names[i] << " was not to learn the result but has a count file");
      continue;
    }
    REQUIRE(r.out[i].has_value(), names[i] << " has no output file");
    REQUIRE(r.out[i]->cols == x.s[i].t.cols, names[i] << " output header " << pbt::showv(r.out[i]->cols));
  }
  // the keys that were released
  std::set<Row> s[2];
  bool inner = x.join <= v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN;
  for (int i = 0; i < 2; ++i) {
    if (!has[i]) continue;
    if (inner) {
      for (auto& row : r.out[i]->rows) s[i].insert(tables::KeyOf(*r.out[i], row, x.s[i].keys));
    } else if (has[1 - i] && aligned) {
      auto &a = *r.out[i], &b = *r.out[1 - i];
      REQUIRE(a.rows.size() == b.rows.size(), "outputs have different lengths");
      for (size_t k = 0; k < a.rows.size(); ++k)
        if (a.rows[k] != Row(a.cols.size(), NullRep(x.s[i])) && b.rows[k] != Row(b.cols.size(), NullRep(x.s[1 - i]))) s[i].insert(tables::KeyOf(a, a.rows[k], x.s[i].keys));
    } else {
      continue;
    }
    for (auto& k : s[i]) REQUIRE(common.count(k), names[i] << " got the key " << pbt::showv(k) << " which is not common");
    REQUIRE(s[i].size() == fin, names[i] << " got " << s[i].size() << " of " << real << " common keys with threshold " << threshold);
  }
  if (has[0] && has[1] && (inner || aligned)) REQUIRE(s[0] == s[1], "the parties got different keys");
  for (int i = 0; i < 2; ++i) {
    if (!has[i]) continue;
    bool known = inner || (has[1 - i] && aligned);
    if (known) {
      // drop the common keys beyond the threshold from the peer's table
      Scenario y = x;
      y.broadcast = true;
      y.s[1 - i].t.rows.clear();
      int64_t withheld = 0;
      std::vector<Row> nulls;
      for (auto& row : x.s[1 - i].t.rows) {
        auto k = tables::KeyOf(x.s[1 - i].t, row, x.s[1 - i].keys);
        if (common.count(k) && !s[i].count(k)) { ++withheld; continue; }
        y.s[1 - i].t.rows.push_back(row);
      }
      auto e = Model(y, i);
      using J = v2::PsiConfig;
      bool left = x.left == i;
      bool keep_peer = x.join == J::ADVANCED_JOIN_TYPE_FULL_JOIN || x.join == J::ADVANCED_JOIN_TYPE_DIFFERENCE || (x.join == J::ADVANCED_JOIN_TYPE_LEFT_JOIN && !left) || (x.join == J::ADVANCED_JOIN_TYPE_RIGHT_JOIN && left);
      if (keep_peer) for (int64_t k = 0; k < withheld; ++k) e.rows.push_back(Row(x.s[i].t.cols.size(), NullRep(x.s[i])));
      auto d = DiffRows(r.out[i]->rows, e.rows);
      REQUIRE(d.empty(), names[i] << " output differs from the model for the released keys: " << d);
      REQUIRE(r.rep[i].intersection_count() == e.inter, names[i] << " intersection_count " << r.rep[i].intersection_count() << " expected " << e.inter);
    }
    REQUIRE(r.rep[i].intersection_key_count() == (int64_t)fin, names[i] << " intersection_key_count " << r.rep[i].intersection_key_count() << " expected " << fin);
    REQUIRE(r.rep[i].original_count() == (int64_t)x.s[i].t.rows.size(), names[i] << " original_count " << r.rep[i].original_count());
    if (!x.s[i].count.empty()) {
      REQUIRE(fs::exists(x.s[i].count), names[i] << " has no count file");
      auto t = tables::ReadCsv(x.s[i].count);
      REQUIRE(t && t->rows.size() == 1 && t->rows[0] == (Row{std::to_string(real), std::to_string(fin)}), names[i] << " count file says " << tables::Slurp(x.s[i].count) << " expected " << real << "," << fin);
    }
  }
  if (has[0] && has[1] && aligned) CheckAligned(x, r);
}
inline uint32_t PickThreshold(pbt::Ctx& c, const Scenario& x) {
  auto ca = tables::Counts(x.s[0].t, x.s[0].keys), cb = tables::Counts(x.s[1].t, x.s[1].keys);
  size_t real = 0;
  for (auto& kv : ca) real += cb.count(kv.first);
  uint32_t t = real > 1 && c.flip() ? 1 + (uint32_t)c.below(real - 1) : c.chance(1, 4) ? (uint32_t)(real + c.below(3)) : c.chance(1, 8) ? 4000000000u : 1 + (uint32_t)c.below(real + 2);
  if (!t) t = 1;
  c.label(t < real ? "threshold limits the result" : t == real ? "threshold equals the size" : "threshold above the size");
  c.nontrivial(t < real);
  return t;
}
}  // namespace e2e
