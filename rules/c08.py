from cppref import *

W = r'''
#include <complex>
#include <string>
#include <vector>
using namespace triqs::utility;
namespace w {
  struct A { double operator()(int const &, double &, std::string &&, char) const; };
  struct B { void operator()(std::vector<int> const *); };
  struct C { int &operator()() const; };
  struct D { std::vector<int> const operator()(const int, int[3], void (*)(int), long const volatile &); };
  template <typename F, size_t i> using arg = typename function_arg_ret_type<F>::template arg<i>::type;
  template <typename F, size_t i> using darg = typename function_arg_ret_type<F>::template decay_arg<i>::type;
  template <typename F> using res = typename function_arg_ret_type<F>::result_type;
  template <typename F, int n> constexpr bool ar = function_arg_ret_type<F>::arity == n;
  template <typename X, typename Y> constexpr bool same = std::is_same_v<X, Y>;
  static_assert(ar<A, 4>);
  static_assert(ar<B, 1>);
  static_assert(ar<C, 0>);
  static_assert(ar<D, 4>);
  static_assert(same<decltype(function_arg_ret_type<A>::arity), const int>);
  static_assert(same<res<A>, double>);
  static_assert(same<res<B>, void>);
  static_assert(same<res<C>, int &>);
  static_assert(same<res<D>, std::vector<int> const>);
  static_assert(same<arg<A, 0>, int const &>);
  static_assert(same<arg<A, 1>, double &>);
  static_assert(same<arg<A, 2>, std::string &&>);
  static_assert(same<arg<A, 3>, char>);
  static_assert(same<arg<B, 0>, std::vector<int> const *>);
  static_assert(same<arg<D, 0>, int>);
  static_assert(same<arg<D, 1>, int *>);
  static_assert(same<arg<D, 2>, void (*)(int)>);
  static_assert(same<arg<D, 3>, long const volatile &>);
  static_assert(same<darg<A, 0>, int>);
  static_assert(same<darg<A, 1>, double>);
  static_assert(same<darg<A, 2>, std::string>);
  static_assert(same<darg<A, 3>, char>);
  static_assert(same<darg<B, 0>, std::vector<int> const *>);
  static_assert(same<darg<D, 3>, long>);
  // every number and every kind of arguments
  template <typename R, typename... T> struct F { R operator()(T...) const; };
  template <typename R, typename... T> struct G { R operator()(T...); };
  template <typename R, typename... T> constexpr bool sig() {
    auto one = []<size_t... I>(std::index_sequence<I...>) {
      return (same<arg<F<R, T...>, I>, std::tuple_element_t<I, std::tuple<T...>>> && ...) && (same<darg<F<R, T...>, I>, std::decay_t<std::tuple_element_t<I, std::tuple<T...>>>> && ...)
         && (same<arg<G<R, T...>, I>, std::tuple_element_t<I, std::tuple<T...>>> && ...) && (same<darg<G<R, T...>, I>, std::decay_t<std::tuple_element_t<I, std::tuple<T...>>>> && ...);
    };
    return one(std::make_index_sequence<sizeof...(T)>{}) && ar<F<R, T...>, sizeof...(T)> && ar<G<R, T...>, sizeof...(T)> && same<res<F<R, T...>>, R> && same<res<G<R, T...>>, R>;
  }
  struct X {};
  static_assert(sig<void>());
  static_assert(sig<X, X>());
  static_assert(sig<X &, X const &, X &>());
  static_assert(sig<X const *, X &&, X *, X const &&>());
  static_assert(sig<int, int, int, int, int>());
  static_assert(sig<bool, bool, char &, short const &, int, long, float>());
  static_assert(sig<double, double, std::complex<double>, std::complex<double> const &, double &, double &&, double *, double const *>());
  static_assert(sig<X volatile &, X, int, X, int, X, int, X, int, X, int, X, int>());
  static_assert(sig<std::pair<int, long>, int const &, double>());
  static_assert(sig<std::vector<X>, std::vector<X> const &, std::vector<X> &, std::vector<X> &&>());
  // complex numbers
  static_assert(triqs::is_complex<std::complex<double>>::value);
  static_assert(triqs::is_complex<std::complex<float>>::value);
  static_assert(triqs::is_complex<std::complex<long double>>::value);
  static_assert(!triqs::is_complex<double>::value);
  static_assert(!triqs::is_complex<int>::value);
  static_assert(!triqs::is_complex<std::vector<std::complex<double>>>::value);
  static_assert(!triqs::is_complex<std::pair<double, double>>::value);
  // the generic operations exist for each category of numbers and keep its type
  namespace u = triqs::utility;
  template <typename T> constexpr bool ops = same<decltype(u::conj(std::declval<T const &>())), T> && same<decltype(u::real(std::declval<T const &>())), T>
     && same<decltype(u::imag(std::declval<T const &>())), T> && same<decltype(u::is_zero(std::declval<T const &>())), bool>;
  static_assert(ops<bool>);
  static_assert(ops<int>);
  static_assert(ops<unsigned char>);
  static_assert(ops<long long>);
  static_assert(ops<unsigned long>);
  static_assert(ops<float>);
  static_assert(ops<double>);
  static_assert(ops<long double>);
  static_assert(same<decltype(u::is_zero(std::complex<double>{})), bool>);
  static_assert(same<decltype(u::is_zero(std::complex<double>{}, 1.0)), bool>);
  static_assert(same<decltype(u::is_zero(1.0f, 1.0f)), bool>);
  // values which can be decided at compile time
  static_assert(same<decltype(u::real_or_complex{} + 1.0), u::real_or_complex>);
  static_assert(same<decltype(u::real_or_complex{} * std::complex<double>{}), u::real_or_complex>);
  static_assert(same<decltype(2.0 - u::real_or_complex{}), u::real_or_complex>);
  static_assert(std::is_convertible_v<double, u::real_or_complex> && std::is_convertible_v<std::complex<double>, u::real_or_complex>);
  static_assert(!std::is_convertible_v<u::real_or_complex, double> && !std::is_convertible_v<u::real_or_complex, std::complex<double>>);
}
'''


def check(ctx):
    ctx.rule('type-level witnesses over the current headers: a translation unit of static assertions that a violating header fails to compile')
    H = ['triqs/utility/numeric_ops.hpp', 'triqs/utility/function_arg_ret_type.hpp', 'triqs/utility/is_complex.hpp', 'triqs/utility/real_or_complex.hpp']
    refine_cpp(ctx, H)
    witness(ctx, H, 'types', W)
