#pragma once
// Declaration-only stand-in for the missing TRIQS/itertools library.
#include <iterator>
#include <tuple>
#include <vector>
#include <utility>
namespace itertools {
  template <typename It> struct sentinel_t { It it; };
  template <typename It> sentinel_t<It> make_sentinel(It);
  template <typename It, typename Value, typename Cat = std::forward_iterator_tag, typename Reference = Value &, typename Diff = std::ptrdiff_t> struct iterator_facade {
    using value_type        = Value;
    using reference         = Reference;
    using difference_type   = Diff;
    using iterator_category = Cat;
    using pointer           = Value *;
    It &operator++();
    It operator++(int);
    template <typename U> bool operator==(U const &) const;
    template <typename U> bool operator!=(U const &) const;
    Reference operator*() const;
    Value *operator->() const;
  };
  class range {
    public:
    struct iterator { long operator*() const; iterator &operator++(); bool operator!=(iterator) const; };
    range() = default;
    range(long);
    range(long, long, long = 1);
    long first() const;
    long last() const;
    long step() const;
    long size() const;
    iterator begin() const;
    iterator end() const;
  };
  template <typename T> struct any_range {
    struct iterator { using value_type = T; using reference = T; using pointer = T *; using difference_type = long; using iterator_category = std::forward_iterator_tag; iterator(); template <typename X> iterator(X const &); T operator*() const; iterator &operator++(); iterator operator++(int); bool operator==(iterator const &) const; };
    iterator begin() const;
    iterator end() const;
    iterator cbegin() const;
    iterator cend() const;
  };
  template <typename T> using elem_t = decltype(*std::begin(std::declval<T &>()));
  template <typename T> any_range<std::tuple<long, elem_t<T>>> enumerate(T &&);
  template <typename... T> any_range<std::tuple<elem_t<T>...>> zip(T &&...);
  template <typename... T> any_range<std::tuple<elem_t<T>...>> product(T &&...);
  template <typename T> using prl = long;
  template <size_t R> using apt = decltype(std::tuple_cat(std::array<long, R>{}));
  template <typename... T> any_range<std::tuple<prl<T>...>> product_range(T &&...);
  template <typename T, size_t R> any_range<apt<R>> product_range(std::array<T, R> const &);
  template <typename R, typename F> auto transform(R &&, F) -> any_range<decltype(std::declval<F &>()(*std::begin(std::declval<R &>())))>;
  template <typename R> R slice(R &&, long, long);
  template <typename R, typename F> void foreach (R &&, F);
  template <typename R> auto make_product(R const &);
} // namespace itertools
