// bounded stand-in: whole filter trees and single conditions against an independent reading, builder functions
#include "vc.h"
// @natlibs -lspdlog -lfmt
// @flags -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL
#include "filter_gen.h"
using namespace alaya; using namespace fg;
static const char *F[] = {"a", "b", "c", "a_b"};
static MetadataMap record() { MetadataMap m; for (uint64_t k = vc::in("fields", 0, 4); k > 0; --k) m[F[vc::in("f", 0, 3)]] = value(); return m; }
VC_PROOF(filter_condition) {
  MetadataMap m = record(); FilterCondition c = condition(F, 4); if (!m.empty() && vc::b("near")) c.field = m.begin()->first;
  if (m.count(c.field) && vc::b("same")) { c.value = value((int)m[c.field].index()); for (auto &v : c.values) if (vc::b("hit")) v = m[c.field]; }
  vc::check(c.evaluate(m) == leaf(c, m), "a condition holds exactly for the values it describes");
}
VC_PROOF(filter_tree) {
  spdlog::set_level(spdlog::level::off);
  MetadataMap m = record(); MetadataFilter f = filter(F, 4, 3);
  vc::check(f.evaluate(m) == holds(f, m), "a filter tree holds exactly when its logic says so");
  vc::check(f.is_empty() == (f.conditions.empty() && f.sub_filters.empty()) && MetadataFilter::empty().evaluate(m), "the empty filter matches everything");
}
VC_PROOF(filter_build) {
  MetadataMap m = record(); MetadataFilter f; std::vector<FilterCondition> want;
  for (uint64_t k = vc::in("n", 1, 5); k > 0; --k) {
    FilterCondition c; c.field = F[vc::in("f", 0, 3)]; c.value = value(); MetadataFilter *r = nullptr;
    switch (vc::in("kind", 0, 5)) { case 0: c.op = FilterOp::EQ; r = &f.add_eq(c.field, c.value); break; case 1: c.op = FilterOp::GT; r = &f.add_gt(c.field, c.value); break; case 2: c.op = FilterOp::GE; r = &f.add_ge(c.field, c.value); break;
      case 3: c.op = FilterOp::LT; r = &f.add_lt(c.field, c.value); break; case 4: c.op = FilterOp::LE; r = &f.add_le(c.field, c.value); break;
      default: c.op = FilterOp::IN_SET; for (uint64_t j = vc::in("vals", 0, 3); j > 0; --j) c.values.push_back(value()); r = &f.add_in(c.field, c.values); }
    vc::check(r == &f, "builders chain"); want.push_back(c);
  }
  bool all = true; for (auto &c : want) all &= leaf(c, m);
  vc::check(f.evaluate(m) == all, "built filters require every added condition");
}
