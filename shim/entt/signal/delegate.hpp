#pragma once
#include "fwd.hpp"
namespace entt {
template<typename R, typename... A> class delegate<R(A...)> { public: R operator()(A...) const; operator bool() const; template<auto F, typename... P> void connect(P &&...); };
}
