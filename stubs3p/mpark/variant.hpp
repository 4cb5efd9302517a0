// stand-in for the third-party header (not part of the repository)
#pragma once
namespace mpark {
template <typename... T>
class variant {};
template <typename T, typename... U>
bool holds_alternative(variant<U...> const&) { return false; }
struct monostate {};
}
