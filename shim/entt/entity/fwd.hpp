#ifndef SHIM_ENTT_FWD
#define SHIM_ENTT_FWD
// Stand-in for the parts of EnTT (not available offline) that edyn headers name. Declarations only: no code under contract calls them.
#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <utility>
#include <vector>
#include <tuple>
#include <memory>
#include <functional>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <string>
namespace entt {
enum class entity : std::uint32_t {};
using id_type = std::uint32_t;
struct null_t {
    constexpr operator entity() const { return entity(0xffffffffu); }
    constexpr bool operator==(null_t) const { return true; }
};
inline constexpr null_t null{};
constexpr bool operator==(entity e, null_t) { return std::uint32_t(e) == 0xffffffffu; }
constexpr bool operator==(null_t, entity e) { return std::uint32_t(e) == 0xffffffffu; }
constexpr bool operator!=(entity e, null_t) { return std::uint32_t(e) != 0xffffffffu; }
constexpr bool operator!=(null_t, entity e) { return std::uint32_t(e) != 0xffffffffu; }
struct tombstone_t {};
inline constexpr tombstone_t tombstone{};
constexpr std::uint32_t to_integral(entity e) { return std::uint32_t(e); }
template<typename E> struct entt_traits { using entity_type = std::uint32_t; static constexpr std::uint32_t to_entity(E e) { return std::uint32_t(e); } };
template<typename...> struct type_list {};
template<typename... T> struct get_t {};
template<typename... T> struct exclude_t {};
template<typename... T> struct owned_t {};
template<typename... T> inline constexpr get_t<T...> get{};
template<typename... T> inline constexpr exclude_t<T...> exclude{};
template<typename E> class basic_sparse_set;
using sparse_set = basic_sparse_set<entity>;
template<typename T> class shim_storage {
public:
    using value_type = T;
    T &get(entity) const;
    bool contains(entity) const;
    T *begin() const; T *end() const;
};
template<typename G, typename X = exclude_t<>> class basic_view;
template<typename... S, typename... X> class basic_view<get_t<S...>, exclude_t<X...>> {
public:
    template<typename T> std::remove_const_t<T> &get(entity) const;
    template<typename A, typename B, typename... T> std::tuple<A &, B &, T &...> get(entity) const;
    std::tuple<typename S::value_type &...> get(entity) const;
    bool contains(entity) const;
    template<typename F> void each(F) const;
    entity *begin() const; entity *end() const;
};
template<typename E> class basic_registry;
struct shim_type_info { id_type hash() const; };
template<typename T> const shim_type_info &type_id();
using registry = basic_registry<entity>;
}
#endif
