#pragma once
#include <lm/lm.h>
namespace vhplug {
struct Plug : public lm::Component { virtual int f() const = 0; virtual long long alive() const = 0; };
template <typename T> struct Q : public lm::Component { virtual T f() const = 0; };
}
