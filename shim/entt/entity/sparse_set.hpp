#pragma once
#include "fwd.hpp"
namespace entt { template<typename E> class basic_sparse_set { public: bool contains(E) const; std::size_t size() const; bool empty() const; const E *begin() const; const E *end() const; }; }
