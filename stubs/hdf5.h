#pragma once
// Declaration-only stand-in for the missing HDF5 C interface.
#include <cstddef>
typedef unsigned long hsize_t;
typedef long hid_t;
typedef int herr_t;
extern const hid_t H5T_NATIVE_INT, H5T_NATIVE_DOUBLE, H5T_NATIVE_LONG;
enum H5T_class_t { H5T_COMPOUND = 6 };
constexpr hid_t H5S_ALL = 0, H5P_DEFAULT = 0;
hid_t H5Tcreate(H5T_class_t, size_t);
herr_t H5Tinsert(hid_t, const char *, size_t, hid_t);
hid_t H5Tarray_create(hid_t, unsigned, const hsize_t *);
hid_t H5Screate_simple(int, const hsize_t *, const hsize_t *);
herr_t H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, const void *);
herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void *);
hid_t H5Dget_space(hid_t);
int H5Sget_simple_extent_dims(hid_t, hsize_t *, hsize_t *);
#define HOFFSET(S, M) offsetof(S, M)
