#pragma once
#include "fwd.hpp"
namespace entt {
template<typename R, typename... A> class sigh<R(A...)> { public: void publish(A...) const; };
template<typename S> class sink { public: sink(S &); template<auto F, typename... A> shim_sink &connect(A &&...); };
}
