#pragma once
// Declaration-only stand-in for the missing TRIQS/mpi library: used only to parse /repo's headers.
#include <vector>
#include <string>
#include <complex>
#include <mpi.h>
namespace mpi {
  extern bool has_env;
  struct environment {
    environment(int argc, char **argv);
    ~environment();
  };
  struct communicator {
    communicator();
    communicator(MPI_Comm);
    MPI_Comm get() const;
    [[nodiscard]] int rank() const;
    [[nodiscard]] int size() const;
    communicator split(int, int = 0) const;
    communicator duplicate() const;
    void abort(int) const;
    void barrier(long = 1) const;
  };
  bool is_initialized() noexcept;
  namespace tag {
    struct reduce {};
    struct scatter {};
    struct gather {};
  } // namespace tag
  template <typename Tag, typename T> struct lazy {
    T rhs;
    communicator c;
    int root{};
    bool all{};
    MPI_Op op{};
  };
  template <typename T> struct mpi_type;
  template <typename T> inline constexpr bool has_mpi_type = true;
  template <typename T> T reduce(T const &, communicator = {}, int root = 0, bool all = false, MPI_Op = MPI_SUM);
  template <typename T> T all_reduce(T const &, communicator = {}, MPI_Op = MPI_SUM);
  template <typename T> void reduce_in_place(T &&, communicator = {}, int root = 0, bool all = false, MPI_Op = MPI_SUM);
  template <typename T> void all_reduce_in_place(T &&, communicator = {}, MPI_Op = MPI_SUM);
  template <typename T> void broadcast(T &&, communicator = {}, int root = 0);
  template <typename T> T gather(T const &, communicator = {}, int root = 0, bool all = false);
  template <typename T> T all_gather(T const &, communicator = {});
  template <typename T> T scatter(T const &, communicator = {}, int root = 0);
  long chunk_length(long, int, int, long = 1);
  template <typename R> auto chunk(R &&r, communicator = {}) -> R;
} // namespace mpi
