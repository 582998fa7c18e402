#pragma once
// Declaration-only stand-in for the missing TRIQS/nda library: used only to parse /repo's headers.
#include <array>
#include <complex>
#include <vector>
#include <string>
#include <cmath>
#include <iostream>
#include <functional>
#include <type_traits>
#include <numeric>
#include <algorithm>
#include <set>
#include <map>
#include <tuple>
#include <span>
#include <itertools/itertools.hpp>
#include <h5/h5.hpp>
#include <mpi/mpi.hpp>
#define AS_STRING(...) AS_STRING2(__VA_ARGS__)
#define AS_STRING2(...) #__VA_ARGS__
#define REQUIRES(...) __VA_ARGS__
#define FORCEINLINE inline
#define NDA_REQUIRES(...)
#define LAMBDA(X) [&](auto &&...x) { return (X); }
#ifndef EXPECTS
#define EXPECTS(X) \
  if (!(X)) throw 1
#define ASSERT(X) EXPECTS(X)
#define ENSURES(X)
#define EXPECTS_WITH_MESSAGE(X, ...) EXPECTS(X)
#endif
#define DECL_AND_RETURN(...)                                                                                                                                \
  ->decltype(__VA_ARGS__) { return __VA_ARGS__; }
#define AUTO_DECL_AND_RETURN
namespace nda {
  using namespace std::literals::complex_literals;
  using dcomplex = std::complex<double>;
  template <typename A> requires(requires(A const &a) { a.shape(); }) A abs(A const &);
  template <typename A> requires(requires(A const &a) { a.shape(); }) A real(A const &);
  template <typename A> requires(requires(A const &a) { a.shape(); }) A imag(A const &);
  template <typename A> requires(requires(A const &a) { a.shape(); }) A conj(A const &);
  using std::abs; using std::real; using std::imag; using std::conj; using std::exp; using std::floor;
  struct ellipsis {};
  struct range : itertools::range {
    using itertools::range::range;
    struct all_t {};
    static constexpr all_t all{};
  };
  struct mem_tag {};
  #define NDA_STUB_LAYOUT(X) struct X { using with_lowest_guarantee_t = X; using contiguous_t = X; template <typename T> struct mapping {}; };
  NDA_STUB_LAYOUT(C_layout) NDA_STUB_LAYOUT(F_layout) NDA_STUB_LAYOUT(C_stride_layout) NDA_STUB_LAYOUT(F_stride_layout) struct basic_layout_stub { basic_layout_stub(auto &&); };
  template <int... I> struct contiguous_layout_with_stride_order {};
  namespace heap_ns {} template <int AdrSp = 0> struct heap { }; template <size_t N = 1> struct heap_basic {};
  struct array_algebra_stub {};
  template <int N> struct stack_p {};
  template <typename T> inline constexpr bool is_complex_v = false;
  template <typename T> inline constexpr bool is_complex_v<std::complex<T>> = true;
  template <typename T> inline constexpr bool is_scalar_v = std::is_arithmetic_v<std::decay_t<T>> or is_complex_v<std::decay_t<T>>;
  template <typename T> inline constexpr bool is_scalar_or_convertible_v = is_scalar_v<T>;
  template <typename T> inline constexpr int get_rank = 1;
  template <typename T> inline constexpr char get_algebra = 'A';
  template <typename T> inline constexpr bool is_regular_v = true;
  template <typename T> inline constexpr bool is_view_v = true;
  template <typename T> inline constexpr bool is_regular_or_view_v = true;
  template <typename T> inline constexpr bool is_instantiation_of_v_stub = true;
  template <typename T> concept Scalar = is_scalar_v<T>;
  template <typename T> concept Array = requires(T const &x) { x.shape(); } || true;
  template <typename T> concept MemoryArray = true;
  template <typename T> concept DataArray = true;
  template <typename T> concept Matrix = true;
  template <typename T> concept Vector = true;
  template <typename T, int R> concept ArrayOfRank = (std::decay_t<T>::rank == R);
  template <typename T, int R> concept MemoryArrayOfRank = (std::decay_t<T>::rank == R);
  template <typename T> using get_value_t = double;
  template <typename V, int R, typename L, char A, typename Acc, typename Own> struct basic_array_view;
  template <typename V, int R, typename L, char A> struct call_s { using type = basic_array_view<V, R, L, (R == 1 and A == 'M' ? 'V' : A), heap<>, heap<>>; };
  template <typename V, typename L, char A> struct call_s<V, 0, L, A> { using type = V &; };
  template <typename V, int R, typename L, char A> using call_t = typename call_s<V, R, L, A>::type;
  template <typename V, int R, typename L = C_layout, char A = 'A', typename P = heap<>> struct basic_array {
    using layout_t = basic_layout_stub;
    int storage() const;
    using value_type = V;
    using regular_type = basic_array;
    static constexpr int rank = R;
    static constexpr bool is_const = false;
    basic_array();
    template <typename... T> requires((sizeof...(T) == 1 and (R == 1 or not (std::is_integral_v<std::decay_t<T>> or ...))) or (sizeof...(T) == R and (std::is_convertible_v<T, long> and ...))) basic_array(T &&...);
    template <typename T, int RR> basic_array(T const (&)[RR]);
    basic_array(std::initializer_list<std::initializer_list<V>>) requires(R == 2);
    basic_array(std::initializer_list<V>) requires(R == 1);
    template <typename T> basic_array &operator=(T &&);
    template <typename T> static constexpr bool is_range = std::is_base_of_v<itertools::range, std::decay_t<T>> or std::is_same_v<std::decay_t<T>, range::all_t>;
    template <typename T> static constexpr bool is_ell = std::is_same_v<std::decay_t<T>, ellipsis>;
    template <typename... T> static constexpr int crank = (is_ell<T> or ... or false) ? R - int(sizeof...(T)) + ((int(is_range<T>) + int(is_ell<T>)) + ... + 0) : ((int(is_range<T>)) + ... + 0);
    template <typename... T> auto operator()(T &&...) const -> call_t<V, (sizeof...(T) == 0 ? R : crank<T...>), L, A>;
    template <typename... T> auto operator()(T &&...) -> call_t<V, (sizeof...(T) == 0 ? R : crank<T...>), L, A>;
    template <char RA, bool SB, typename S, typename... T> static auto call(S &&, T &&...) -> call_t<V, crank<T...>, L, A>;
    template <typename T> V &operator[](T &&) const;
    std::array<long, R> const &shape() const;
    long shape(int) const;
    long extent(int) const;
    long size() const;
    bool empty() const;
    bool is_empty() const;
    V *data(); V const *data() const;
    struct lay { long size() const; std::array<long, R> lengths() const; std::array<long, R> strides() const; template <typename... T> long operator()(T &&...) const; };
    lay indexmap() const;
    V *begin(); V *end(); V const *begin() const; V const *end() const; V const *cbegin() const; V const *cend() const;
    template <typename... T> void resize(T &&...);
    template <typename T> basic_array &operator+=(T &&); template <typename T> basic_array &operator-=(T &&);
    template <typename T> basic_array &operator*=(T &&); template <typename T> basic_array &operator/=(T &&);
    template <typename T> void rebind(T &&);
    basic_array transpose() const;
    template <typename... T> static basic_array zeros(T &&...); static basic_array zeros(std::array<long, R> const &);
    template <typename... T> static basic_array ones(T &&...);
    template <typename... T> static basic_array rand(T &&...);
    operator V() const;
    long nrows() const; long ncols() const;
    basic_array as_array_view() const;
  };
  template <typename V, int R, typename L = C_layout, char A = 'A', typename Acc = heap<>, typename Own = heap<>> struct basic_array_view : basic_array<V, R, L, A, Own> {
    using basic_array<V, R, L, A, Own>::basic_array;
    using basic_array<V, R, L, A, Own>::operator=;
    basic_array_view(basic_layout_stub, int);
    template <typename W, typename L2, char A2, typename P2> basic_array_view(basic_array<W, R, L2, A2, P2> const &);
  };
  template <typename V, size_t N> basic_array_view(std::array<V, N> const &) -> basic_array_view<V const, 1>;
  template <typename V, size_t N> basic_array_view(std::array<V, N> &) -> basic_array_view<V, 1>;
  template <typename V> basic_array_view(std::vector<V> const &) -> basic_array_view<V const, 1>;
  template <typename V, int R, typename L = C_layout> using array = basic_array<V, R, L>;
  template <typename V, int R, typename L = C_layout> using array_view = basic_array_view<V, R, L>;
  template <typename V, int R, typename L = C_layout> using array_const_view = basic_array_view<V const, R, L>;
  template <typename V, int R, typename L = C_layout> using array_contiguous_view = basic_array_view<V, R, L>;
  template <typename V, int R, typename L = C_layout> using array_contiguous_const_view = basic_array_view<V const, R, L>;
  template <typename V, typename L = C_layout, typename P = heap<>> using matrix = basic_array<V, 2, L, 'M', P>;
  template <typename V, typename L = C_layout, typename A = heap<>, typename O = heap<>> using matrix_view = basic_array_view<V, 2, L, 'M', A, O>;
  template <typename V, typename L = C_layout, typename A = heap<>, typename O = heap<>> using matrix_const_view = basic_array_view<V const, 2, L, 'M', A, O>;
  template <typename V, typename P = heap<>> using vector = basic_array<V, 1, C_layout, 'V', P>;
  template <typename V> using vector_view = basic_array_view<V, 1, C_layout, 'V'>;
  template <typename V> using vector_const_view = basic_array_view<V const, 1, C_layout, 'V'>;
  template <typename V, int N> using stack_vector = basic_array<V, 1, C_layout, 'V', stack_p<N>>;
  template <typename V, int R, int... N> struct stack_array_stub {};
#define NDA_STUB_OP(OP)                                                                                                                                      \
  template <typename V, int R, typename L, char A, typename P, typename T> basic_array<V, R, L, A, P> operator OP(basic_array<V, R, L, A, P> const &, T const &); \
  template <typename V, int R, typename L, char A, typename P, typename T>                                                                                   \
    requires(std::is_arithmetic_v<T> or is_complex_v<T>)                                                                                                     \
  basic_array<V, R, L, A, P> operator OP(T const &, basic_array<V, R, L, A, P> const &);
  NDA_STUB_OP(+) NDA_STUB_OP(-) NDA_STUB_OP(*) NDA_STUB_OP(/)
  template <typename V, int R, typename L, char A, typename P> basic_array<V, R, L, A, P> operator-(basic_array<V, R, L, A, P> const &);
  template <typename V, int R, typename L, char A, typename P, typename T> bool operator==(basic_array<V, R, L, A, P> const &, T const &);
  template <typename V, int R, typename L, char A, typename P> std::ostream &operator<<(std::ostream &, basic_array<V, R, L, A, P> const &);
  template <typename V, int R, typename L, char A, typename P> void h5_write(h5::group, std::string const &, basic_array<V, R, L, A, P> const &);
  template <typename V, int R, typename L, char A, typename P> void h5_read(h5::group, std::string const &, basic_array<V, R, L, A, P> &);
  template <typename A> std::decay_t<A> make_regular(A &&);
  long first_dim(auto const &a);
  long second_dim(auto const &a);
  template <typename A> matrix_view<typename std::decay_t<A>::value_type> make_matrix_view(A &&);
  template <typename A> matrix_const_view<typename std::decay_t<A>::value_type> make_const_view(A &&);
  template <typename T = double, typename... S> array<T, 1> zeros(S &&...);
  template <typename T = double, size_t R> array<T, R> zeros(std::array<long, R> const &);
  template <typename T = double, typename I> matrix<T> eye(I);
  template <typename A> matrix<double> diag(A &&);
  template <typename A> vector_view<double> diagonal(A &&);
  template <typename A> A transpose(A const &);
  template <typename A> A dagger(A const &);
  template <typename A> A inverse(A const &);
  template <typename A> void inverse_in_place(A &&);
  template <typename A> double determinant(A &&);
  template <typename A> double determinant_in_place(A &&);
  template <typename A> A abs2(A const &);
  template <typename A> A sqrt(A const &);
  template <typename A> bool is_matrix_diagonal(A &&);
  template <typename A> double norm(A &&, double = 2);
  template <typename A> double frobenius_norm(A &&);
  template <typename A> double sum(A &&);
  template <typename A> double max_element(A &&);
  template <typename A> double min_element(A &&);
  template <typename A> bool is_diagonal(A &&);
  template <typename A> bool any(A &&);
  template <typename A> bool all(A &&);
  template <typename A> double trace(A &&);
  template <typename A, typename F> void for_each(A &&, F);
  template <typename F> F map(F);
  template <typename... A> void assign_foreach(A &&...);
  template <typename A, typename F> void assign_from_range(A &&, F);
  template <typename A, typename F> A fold(F, A);
  template <typename... T> auto transposed_view(T &&...);
  template <size_t R> constexpr uint64_t encode(std::array<int, R> const &) { return 0; }
  template <uint64_t P, typename A> std::decay_t<A> permuted_indices_view(A &&);
  template <int N, typename V, int R, typename L, char A, typename P> basic_array_view<V, R + N> reinterpret_add_fast_dims_of_size_one(basic_array<V, R, L, A, P> const &);
  template <typename V, int R, typename L, char A, typename P> basic_array_view<V const, R> make_array_const_view(basic_array<V, R, L, A, P> const &);
  template <typename A, typename F> struct array_adapter { array_adapter(A, F); };
  template <typename A, typename B> struct sym_grp_stub {};
  using operation = std::tuple<bool, bool>;
  template <typename F, typename A> struct sym_grp {};
  namespace permutations { template <int R> constexpr std::array<int, R> cycle(int, int = R) { return {}; } }
  namespace blas {
    template <typename A, typename B> double dot(A &&, B &&);
    template <typename A, typename B> double dotc(A &&, B &&);
    template <typename A, typename B> double dot_generic(A &&, B &&);
    template <typename... T> void gemm(T &&...);
    template <typename... T> void gemv(T &&...);
    template <typename... T> void ger(T &&...);
    template <typename A, typename B> array<dcomplex, 3> outer_product(A &&, B &&);
  } // namespace blas
  namespace lapack { template <typename S> struct gelss_worker { array<double, 1> S_vec() const; long n_var() const; template <typename... T> gelss_worker(T &&...); template <typename... T> std::pair<array<dcomplex, 2>, double> operator()(T &&...) const; }; 
    struct gelss_worker_hermitian { array<double, 1> S_vec() const; long n_var() const; template <typename... T> gelss_worker_hermitian(T &&...); template <typename... T> std::pair<array<dcomplex, 2>, double> operator()(T &&...) const; };
    template <typename... T> int gesv(T &&...); template <typename... T> int gelss(T &&...); template <typename... T> int getrf(T &&...); template <typename... T> int getri(T &&...); }
  namespace linalg {
    template <typename A> array<double, 1> eigenvalues(A &&);
    template <typename A> std::pair<array<double, 1>, matrix<typename std::decay_t<A>::value_type>> eigenelements(A &&);
    template <typename A> vector<double> cross_product(A const &, A const &);
  } // namespace linalg
  namespace stdutil {
    template <typename T, size_t R> T product(std::array<T, R> const &);
    template <typename T, size_t R> T sum(std::array<T, R> const &);
    template <typename T, size_t R> auto append(std::array<T, R> const &, T) -> std::array<T, R + 1>;
    template <typename T, size_t R, size_t Q> auto join(std::array<T, R> const &, std::array<T, Q> const &) -> std::array<T, R + Q>;
    template <int N, typename T, size_t R> auto mpop(std::array<T, R> const &) -> std::array<T, R - N>;
    template <int N, typename T, size_t R> auto front_mpop(std::array<T, R> const &) -> std::array<T, R - N>;
    template <typename T, size_t R> auto front_pop(std::array<T, R> const &) -> std::array<T, R - 1>;
    template <typename T, size_t R> auto front_append(std::array<T, R> const &, T) -> std::array<T, R + 1>;
    template <typename T> std::array<T,3> make_std_array(auto const &);
    template <typename T, size_t R> std::array<T, R> make_initialized_array(T);
    template <size_t R, typename T> std::array<T, R> make_initialized_array(T);
    template <typename T, size_t R> std::string to_string(std::array<T, R> const &);
  } // namespace stdutil
  namespace clef {
    template <char c> struct placeholder { template <typename T> auto operator=(T &&); };
    template <int i> struct placeholder_prime {};
    template <typename T> inline constexpr bool is_clef_expression = false;
    template <typename... T> inline constexpr bool is_any_lazy = false;
    template <typename T> inline constexpr bool is_lazy = false;
    template <typename T> inline constexpr bool force_copy_in_expr = false;
    template <typename Tag, typename... T> struct expr {};
    template <typename E, int... I> struct make_fun_impl {};
    namespace tags { struct function {}; struct subscript {}; }
    template <typename T> struct expr_storage_impl { using type = T; };
    template <typename T> using expr_storage_t = T;
    template <typename F, typename... T> auto make_expr_call(F &&, T &&...) { return 0; }
    template <typename F, typename... T> auto make_expr_subscript(F &&, T &&...) { return 0; }
    template <typename T, typename... A> auto eval(T &&, A &&...) { return 0; }
    template <typename T, typename F> void clef_auto_assign(T &&, F &&);
    template <typename... T> void for_each_stub(T &&...);
  } // namespace clef
  namespace details { template <typename... T> struct dummy {}; }
  template <typename T> struct get_algebra_stub {};
} // namespace nda
namespace clef = nda::clef;
#define CLEF_PLACEHOLDER_STUB
#define CLEF_MAKE_FNT_LAZY(name) namespace nda_stub_ns { }
#define CLEF_IMPLEMENT_LAZY_METHOD(TY, name)
#define CLEF_IMPLEMENT_LAZY_CALL(...)
#define CLEF_MAKE_STD_FNT_LAZY(...)

namespace std {
  template <typename T, size_t R> array<T, R> operator+(array<T, R> const &, array<T, R> const &);
  template <typename T, size_t R> array<T, R> operator-(array<T, R> const &, array<T, R> const &);
  template <typename T, size_t R> array<T, R> operator*(array<T, R> const &, array<T, R> const &);
  template <typename T, size_t R> array<T, R> operator-(array<T, R> const &);
  template <typename T, typename U, size_t R> array<T, R> operator*(U const &, array<T, R> const &);
#define NDA_STUB_CI(OP) template <typename T, typename I> requires(std::is_integral_v<I>) complex<T> operator OP(complex<T> const &, I); template <typename T, typename I> requires(std::is_integral_v<I>) complex<T> operator OP(I, complex<T> const &);
  NDA_STUB_CI(+) NDA_STUB_CI(-) NDA_STUB_CI(*) NDA_STUB_CI(/)
  template <typename T, size_t R> ostream &operator<<(ostream &, array<T, R> const &);
}
namespace triqs { using nda::MemoryArray; }
