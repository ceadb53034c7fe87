// Minimal stand-in for the NamedType library (vendor/NamedType is an empty submodule here).
// It provides exactly the strong-typedef behaviour that SIREN's headers rely on, so that the
// parts of SIREN that include it can be compiled into the verification harness.
#pragma once
#include <type_traits>
#include <utility>
#include <functional>
#include <ostream>
#define FLUENT_NODISCARD
#define FLUENT_CONSTEXPR17 constexpr
#define FLUENT_EBCO
namespace fluent {
template <typename T, template <typename> class crtpType>
struct crtp {
    constexpr T & underlying() { return static_cast<T &>(*this); }
    constexpr T const & underlying() const { return static_cast<T const &>(*this); }
};
template <typename T, typename Parameter, template <typename> class... Skills>
class NamedType : public Skills<NamedType<T, Parameter, Skills...>>... {
public:
    using UnderlyingType = T;
    NamedType() = default;
    explicit NamedType(T const & value) : value_(value) {}
    template<typename T_ = T, typename = typename std::enable_if<!std::is_reference<T_>::value>::type>
    explicit NamedType(T && value) : value_(std::move(value)) {}
    T & get() { return value_; }
    T const & get() const { return value_; }
private:
    T value_;
};
template <typename T> struct BinaryAddable : crtp<T, BinaryAddable> {
    T operator+(T const & o) const { return T(this->underlying().get() + o.get()); }
    T & operator+=(T const & o) { this->underlying().get() += o.get(); return this->underlying(); }
};
template <typename T> struct BinarySubtractable : crtp<T, BinarySubtractable> {
    T operator-(T const & o) const { return T(this->underlying().get() - o.get()); }
    T & operator-=(T const & o) { this->underlying().get() -= o.get(); return this->underlying(); }
};
template <typename T> struct UnarySubtractable : crtp<T, UnarySubtractable> {
    T operator-() const { return T(-this->underlying().get()); }
};
template <typename T> struct Subtractable : crtp<T, Subtractable> {
    T operator-(T const & o) const { return T(this->underlying().get() - o.get()); }
    T & operator-=(T const & o) { this->underlying().get() -= o.get(); return this->underlying(); }
    T operator-() const { return T(-this->underlying().get()); }
};
template <typename T> struct Comparable : crtp<T, Comparable> {
    bool operator<(T const & o) const { return this->underlying().get() < o.get(); }
    bool operator>(T const & o) const { return o.get() < this->underlying().get(); }
    bool operator<=(T const & o) const { return !(o.get() < this->underlying().get()); }
    bool operator>=(T const & o) const { return !(*this < o); }
    bool operator==(T const & o) const { return !(*this < o) && !(o.get() < this->underlying().get()); }
    bool operator!=(T const & o) const { return !(*this == o); }
};
template <typename NamedType_> struct FunctionCallable;
template <typename T, typename P, template <typename> class... S>
struct FunctionCallable<NamedType<T, P, S...>> : crtp<NamedType<T, P, S...>, FunctionCallable> {
    operator T const &() const { return this->underlying().get(); }
    operator T &() { return this->underlying().get(); }
};
template <typename NamedType_> struct MethodCallable;
template <typename T, typename P, template <typename> class... S>
struct MethodCallable<NamedType<T, P, S...>> : crtp<NamedType<T, P, S...>, MethodCallable> {
    typename std::remove_reference<T>::type const * operator->() const { return std::addressof(this->underlying().get()); }
    typename std::remove_reference<T>::type * operator->() { return std::addressof(this->underlying().get()); }
};
template <typename NamedType_> struct Callable : FunctionCallable<NamedType_>, MethodCallable<NamedType_> {};
} // namespace fluent
