#pragma once
#include <nda/nda.hpp>
namespace cppdlr {
  enum statistic_t { Boson = 0, Fermion = 1 };
  struct imtime_ops { imtime_ops(double, nda::vector<double> const &); imtime_ops() = default; long rank() const; nda::vector<double> get_itnodes() const; double get_itnodes(long) const; nda::vector<double> get_rfnodes() const; double get_rfnodes(long) const; };
  struct imfreq_ops { imfreq_ops(double, nda::vector<double> const &, statistic_t); imfreq_ops() = default; long rank() const; nda::vector<int> get_ifnodes() const; int get_ifnodes(long) const; nda::vector<double> get_rfnodes() const; double get_rfnodes(long) const; };
  nda::vector<double> build_dlr_rf(double, double, bool = true);
  double k_it(double, double);
  double k_it(double, double, double);
  std::complex<double> k_if(int, double, statistic_t);
  std::complex<double> k_if(int, double, statistic_t, double);
} // namespace cppdlr
