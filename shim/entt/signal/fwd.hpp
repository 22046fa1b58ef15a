#pragma once
namespace entt {
struct shim_sink { template<auto F, typename... A> shim_sink &connect(A &&...); template<auto F, typename... A> void disconnect(A &&...); };
template<typename T> class sigh;
template<typename T> class sink;
template<typename T> class delegate;
class connection {}; class scoped_connection {};
}
