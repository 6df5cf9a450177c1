// A plugin with a few components, one of them a template (see h_comp.cpp).
#include "vh_plugin.h"
namespace vhplug {
static long long live = 0;
struct P1 : public Plug { P1() { live++; } ~P1() { live--; } int v = 0; void construct(const lm::Json& j) override { v = lm::json::value<int>(j, "v", 7); } int f() const override { return v; } long long alive() const override { return live; } };
template <typename T> struct Q1 : public Q<T> { T f() const override { return T(3.5); } };
LM_COMP_REG_IMPL_ALIAS(P1, "vhplug::p1", "vhplug::palias");
LM_COMP_REG_IMPL(Q1<int>, "vhplug::q1");
LM_COMP_REG_IMPL(Q1<double>, "vhplug::q1");
}
