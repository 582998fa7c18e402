#pragma once
// Declaration-only stand-in for the missing TRIQS/h5 library.
#include <string>
#include <vector>
#include <array>
#include <map>
#include <complex>
#include <tuple>
#include <variant>
#include <optional>
#include <memory>
typedef unsigned long hsize_t;
typedef long hid_t;
#define H5_DEFAULT_STUB
namespace h5 {
  using ::hid_t;
  using ::hsize_t;
  struct object {
    hid_t id;
    operator hid_t() const;
    static object from_borrowed(hid_t);
    bool is_valid() const;
    void close();
    object() = default;
    object(hid_t);
  };
  struct file;
  struct group : object {
    group();
    group(file);
    std::string name() const;
    file get_file() const;
    bool has_key(std::string const &) const;
    bool has_subgroup(std::string const &) const;
    bool has_dataset(std::string const &) const;
    group open_group(std::string const &) const;
    group create_group(std::string const &, bool = true) const;
    void unlink(std::string const &, bool = false) const;
    object open_dataset(std::string const &) const;
    object create_dataset(std::string const &, object, object) const;
    std::vector<std::string> get_all_subgroup_names() const;
    std::vector<std::string> get_all_dataset_names() const;
    std::vector<std::string> get_all_subgroup_dataset_names() const;
  };
  struct file : object {
    file();
    file(const char *, char);
    file(std::string const &, char);
    std::string name() const;
  };
  using dataset   = object;
  using datatype  = object;
  using dataspace = object;
  using attribute = object;
  template <typename T> hid_t hdf5_type();
  struct write_hdf5_format_t;
  template <typename T> void write(group, std::string const &, T const &);
  template <typename T> void h5_write(group, std::string const &, T const &);
  template <typename T> void read(group, std::string const &, T &&);
  template <typename T> T read(group, std::string const &);
  template <typename T> void h5_read(group, std::string const &, T &);
  template <typename T> T h5_read(group, std::string const &);
  template <typename T> int try_read(group, std::string const &, T &);
  template <typename T> void write_attribute(object, std::string const &, T const &);
  template <typename T> void read_attribute(object, std::string const &, T &);
  template <typename T> T read_attribute(object, std::string const &);
  template <typename T> void h5_write_attribute(object, std::string const &, T const &);
  template <typename T> void h5_read_attribute(object, std::string const &, T &);
  template <typename T> void write_hdf5_format(object, T const &);
  void write_hdf5_format_as_string(object, std::string const &);
  std::string read_hdf5_format(object);
  void read_hdf5_format(object, std::string &);
  std::string read_hdf5_format_from_key(group, std::string const &);
  template <typename T> void assert_hdf5_format(group, T const &, bool = false);
  void assert_hdf5_format_as_string(group, const char *, bool = false);
  template <typename T> std::string get_hdf5_format();
  template <typename T> std::string get_hdf5_format(T const &);
  template <typename T> struct hdf5_format_impl { static std::string invoke(); };
  template <typename T>
  concept Storable = true;
  std::vector<unsigned char> serialize(auto const &);
  template <typename T> T deserialize(std::vector<unsigned char> const &);
} // namespace h5
