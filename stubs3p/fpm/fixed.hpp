// stand-in for the third-party header (not part of the repository)
#pragma once
namespace fpm {
template <typename T1, typename T2, unsigned B>
class fixed {
 public:
  constexpr fixed() : raw_() {}
  constexpr explicit fixed(double d) : raw_(static_cast<T1>(d * (1u << B))) {}
  constexpr explicit operator double() const { return static_cast<double>(raw_) / (1u << B); }
  constexpr T1 raw_value() const { return raw_; }
 private:
  T1 raw_;
};
using fixed_16_16 = fixed<int, long long, 16>;
}
