// filter conditions: every operator on values of every type
// @proof * mode=bv fl=bits
// @flags -D_GLIBCXX_EXTERN_TEMPLATE=0 -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL
// @natlibs -lspdlog -lfmt
#include "vc.h"
#include "utils/metadata_filter.hpp"
using namespace alaya;
static FilterCondition cond(const char *f) { FilterCondition c; c.field = f; c.op = (FilterOp)vc::u8("op"); vc::assume((uint8_t)c.op <= 5); return c; }
static bool want(FilterOp op, bool lt, bool gt) {
  bool eq = !lt & !gt;
  return op == FilterOp::EQ ? eq : op == FilterOp::NE ? !eq : op == FilterOp::GT ? gt : op == FilterOp::GE ? gt | eq : op == FilterOp::LT ? lt : lt | eq;
}
VC_PROOF(cmp_int) {
  int64_t a = vc::i64("a"), b = vc::i64("b"); MetadataValue x = a, y = b; auto r = FilterCondition::compare(x, y);
  vc::check(r.has_value() && *r == (a < b ? -1 : a > b ? 1 : 0), "integers compare numerically");
}
VC_PROOF(cond_int) {
  int64_t a = vc::i64("a"), b = vc::i64("b"); MetadataMap m; m.emplace("f", a); FilterCondition c = cond("f"); c.value = b;
  vc::check(c.evaluate(m) == want(c.op, a < b, a > b), "integer condition");
}
// @proof cond_real fl=fp
VC_PROOF(cond_real) {
  double a = vc::f64("a"), b = vc::f64("b"); vc::assume((a == a) & (b == b)); MetadataMap m; m.emplace("f", a); FilterCondition c = cond("f"); c.value = b;
  vc::check(c.evaluate(m) == want(c.op, a < b, a > b), "real condition, infinities and both zeros included");
}
VC_PROOF(cond_bool) {
  bool a = vc::b("a"), b = vc::b("b"); MetadataMap m; m.emplace("f", a); FilterCondition c = cond("f"); c.value = b;
  vc::check(c.evaluate(m) == want(c.op, (int)a < (int)b, (int)a > (int)b), "bool condition");
}
// values of different types are never equal and never ordered
template <class A, class B> static void differ(A a, B b) {
  MetadataMap m; m.emplace("f", a); FilterCondition c = cond("f"); c.value = b;
  vc::check(c.evaluate(m) == (c.op == FilterOp::NE), "values of different types are unequal and unordered");
}
VC_PROOF(types_int_real) { differ(vc::i64("a"), 1.5); }
VC_PROOF(types_int_bool) { differ(vc::i64("a"), vc::b("b")); }
VC_PROOF(types_bool_int) { differ(vc::b("b"), vc::i64("a")); }
VC_PROOF(types_real_int) { differ(1.5, vc::i64("a")); }
VC_PROOF(types_text_int) { differ(std::string("1"), vc::i64("a")); }
VC_PROOF(types_int_text) { differ(vc::i64("a"), std::string("1")); }
// a record without the field satisfies no condition, whatever the operator
VC_PROOF(cond_missing) {
  int64_t a = vc::i64("a"); MetadataMap m; m.emplace("f", a); FilterCondition c; c.field = "g"; c.op = (FilterOp)vc::u8("op"); c.value = a; vc::assume((uint8_t)c.op <= 8);
  vc::check(!c.evaluate(m), "a missing field satisfies nothing");
}
// lists of any length
template <bool in> static void cond_list() {
  int64_t a = vc::i64("a"); uint64_t n = vc::len("n", 0, 12); MetadataMap m; m.emplace("f", a); FilterCondition c; c.field = "f"; c.op = in ? FilterOp::IN_SET : FilterOp::NOT_IN_SET;
#ifdef VC_SYM
  vc::vec(c.values, "vals", n); MetadataValue *v = c.values.data();
#else
  c.values.resize(n); for (auto &x : c.values) x = vc::i64("v"); MetadataValue *v = c.values.data();
#endif
  vc::assume(vc::all(0, n, [&](uint64_t k) { return *((uint8_t *)(v + k) + 32) == 0; }));
  auto val = [&](uint64_t k) { return *(int64_t *)(v + k); };
  uint64_t j = vc::u64("j"); vc::assume(j < n);
  auto inv = [&](uint64_t it) { return !(j < 4 * it) | (val(j) != a); }; vc::loop("__find_if", inv);   // std::find compares four values per round
  bool r = c.evaluate(m) == in;
  vc::check(r | (val(j) != a), "no listed value is missed");
  vc::check(!r | vc::exists(0, n, [&](uint64_t k) { return val(k) == a; }), "only listed values are found");
#ifdef VC_SYM
  vc::stop();
#endif
}
// @proof cond_in mode=int
VC_PROOF(cond_in) { cond_list<true>(); }
// @proof cond_not_in mode=int
VC_PROOF(cond_not_in) { cond_list<false>(); }
// @proof cond_text mode=int
VC_PROOF(cond_text) {
  uint64_t n = vc::len("n", 0, 6), k = vc::len("k", 0, 6); MetadataMap m; m.emplace("f", std::string()); FilterCondition c = cond("f"); c.value = std::string();
  std::string &x = std::get<2>(m.begin()->second), &y = std::get<2>(c.value); vc::str(x, "x", n); vc::str(y, "y", k); const unsigned char *p = (unsigned char *)x.data(), *q = (unsigned char *)y.data();
  vc::assume((uint8_t)c.op <= 1);
  bool eq = (n == k) & vc::all(0, n, [&](uint64_t j) { return p[j] == q[j]; });
  vc::check(c.evaluate(m) == (eq == (c.op == FilterOp::EQ)), "text equality");
#ifdef VC_SYM
  vc::stop();
#endif
}
