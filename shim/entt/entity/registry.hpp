#pragma once
#include "fwd.hpp"
#include "sparse_set.hpp"
#include "../signal/fwd.hpp"
#include "../core/fwd.hpp"
namespace entt {
struct shim_ctx {
    template<typename T> T &get() const; template<typename T> T *find() const; template<typename T, typename... A> T &emplace(A &&...);
    template<typename T> bool contains() const; template<typename T> bool erase();
};
template<typename E> class basic_registry {
public:
    using entity_type = E;
    template<typename T> using storage_for_type = shim_storage<T>;
    template<typename... T, typename... X> basic_view<get_t<shim_storage<T>...>, exclude_t<X...>> view(exclude_t<X...> = {}) const;
    template<typename T> std::remove_const_t<T> &get(E) const;
    template<typename A, typename B, typename... T> std::tuple<A &, B &, T &...> get(E) const;
    template<typename... T> bool all_of(E) const;
    template<typename... T> bool any_of(E) const;
    template<typename T> T *try_get(E) const;
    template<typename T, typename... A> T &emplace(E, A &&...);
    template<typename T, typename... A> T &emplace_or_replace(E, A &&...);
    template<typename T, typename... A> T &get_or_emplace(E, A &&...);
    template<typename T, typename... F> T &patch(E, F &&...);
    template<typename T, typename... A> T &replace(E, A &&...);
    template<typename... T> std::size_t remove(E);
    template<typename... T> void erase(E);
    template<typename T> void clear();
    template<typename T> shim_storage<T> &storage() const;
    bool valid(E) const; E create(); void destroy(E); void clear();
    shim_ctx &ctx() const;
    template<typename T> shim_sink &on_construct();
    template<typename T> shim_sink &on_update();
    template<typename T> shim_sink &on_destroy();
};
}
