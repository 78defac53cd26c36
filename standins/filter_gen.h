// shared by the filter and index stand-ins: random values and filters, and an independent reading of a filter
#pragma once
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "utils/metadata_filter.hpp"
namespace fg {
using namespace alaya;
inline std::string text() {
  static const char *w[] = {"", "a", "b", "ab", "a_", "a_b", "a_1", "1", "a_b_2", "zz", "true", "a longer text value kept on the heap 0123456789"};
  return w[vc::in("s", 0, 11)];
}
inline int64_t integer() { static const int64_t v[] = {0, 1, -1, 2, -2, 9, 10, 100, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, 1LL << 32, -(1LL << 32)}; return v[vc::in("i", 0, 13)]; }
inline double real() { static const double v[] = {0.0, -0.0, 1.0, -1.0, 1.5, 2.0, -2.5, 5e-324, -5e-324, 1e300, -1e300, INFINITY, -INFINITY, 1.0000000000000002}; return v[vc::in("d", 0, 13)]; }
inline MetadataValue value() { switch (vc::in("type", 0, 3)) { case 0: return integer(); case 1: return real(); case 2: return text(); default: return vc::b("b"); } }
inline MetadataValue value(int t) { switch (t) { case 0: return integer(); case 1: return real(); case 2: return text(); default: return vc::b("b"); } }
// three-way comparison of values of one type; 2 when the types differ
inline int cmp(const MetadataValue &x, const MetadataValue &y) {
  if (x.index() != y.index()) return 2;
  if (x.index() == 0) { int64_t a = std::get<0>(x), b = std::get<0>(y); return a < b ? -1 : a == b ? 0 : 1; }
  if (x.index() == 1) { double a = std::get<1>(x), b = std::get<1>(y); return a < b ? -1 : a == b ? 0 : 1; }
  if (x.index() == 2) { const auto &a = std::get<2>(x), &b = std::get<2>(y); size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
    if (k == a.size() && k == b.size()) return 0; if (k == a.size()) return -1; if (k == b.size()) return 1; return (unsigned char)a[k] < (unsigned char)b[k] ? -1 : 1; }
  int a = std::get<3>(x), b = std::get<3>(y); return a < b ? -1 : a == b ? 0 : 1;
}
inline bool within(const std::string &h, const std::string &n) { for (size_t i = 0; i + n.size() <= h.size(); ++i) { size_t k = 0; while (k < n.size() && h[i + k] == n[k]) ++k; if (k == n.size()) return true; } return false; }
inline bool leaf(const FilterCondition &c, const MetadataMap &m) {
  const MetadataValue *v = nullptr; for (auto &[k, x] : m) if (k == c.field) v = &x;
  if (!v) return false;
  int o = cmp(*v, c.value); bool in = false; for (auto &x : c.values) if (cmp(*v, x) == 0) in = true;
  if (c.op == FilterOp::EQ) return o == 0; if (c.op == FilterOp::NE) return o != 0;
  if (c.op == FilterOp::GT) return o == 1; if (c.op == FilterOp::GE) return o == 0 || o == 1;
  if (c.op == FilterOp::LT) return o == -1; if (c.op == FilterOp::LE) return o == 0 || o == -1;
  if (c.op == FilterOp::IN_SET) return in; if (c.op == FilterOp::NOT_IN_SET) return !in;
  return v->index() == 2 && c.value.index() == 2 && within(std::get<2>(*v), std::get<2>(c.value));
}
inline bool holds(const MetadataFilter &f, const MetadataMap &m) {
  bool all = true, any = false, first = true, have = false;
  auto add = [&](bool r) { if (!have) { first = r; have = true; } all &= r; any |= r; };
  for (auto &c : f.conditions) add(leaf(c, m)); for (auto &s : f.sub_filters) add(holds(*s, m));
  if (!have) return true;
  return f.logic_op == LogicOp::AND ? all : f.logic_op == LogicOp::OR ? any : !first;
}
inline FilterCondition condition(const char *const *fields, int nf) {
  FilterCondition c; c.field = fields[vc::in("field", 0, nf - 1)]; c.op = (FilterOp)vc::in("op", 0, 8); c.value = value();
  if (c.op == FilterOp::CONTAINS && vc::b("text")) c.value = text();
  if (c.op == FilterOp::IN_SET || c.op == FilterOp::NOT_IN_SET) for (uint64_t k = vc::in("values", 0, 4); k > 0; --k) c.values.push_back(value());
  return c;
}
inline MetadataFilter filter(const char *const *fields, int nf, int depth) {
  MetadataFilter f; uint64_t lg = vc::in("logic", 0, 5); f.logic_op = lg < 3 ? LogicOp::AND : lg < 5 ? LogicOp::OR : LogicOp::NOT;
  uint64_t nc = f.logic_op == LogicOp::NOT ? vc::in("one", 0, 1) : vc::in("conds", 0, 3);
  for (uint64_t k = 0; k < nc; ++k) f.conditions.push_back(condition(fields, nf));
  if (depth > 0) for (uint64_t k = f.logic_op == LogicOp::NOT ? 1 - nc : vc::in("subs", 0, 2); k > 0; --k) f.add_sub_filter(filter(fields, nf, depth - 1));
  return f;
}
}  // namespace fg
