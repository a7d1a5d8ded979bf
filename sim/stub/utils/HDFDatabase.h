#pragma once
#include <cassert>
#include <string>
#include "hdf5.h"
#include "mpi.h"
namespace CAROM {
class Database
{
public:
   enum class formats { HDF5, CSV, HDF5_MPIO };
   virtual ~Database() {}
};
class HDFDatabase : public Database
{
   hid_t f = -1;
   static void ck(long e) { if (e < 0) { fprintf(stderr, "HDFDatabase: HDF5 error\n"); abort(); } }
   void put(const std::string &k, hid_t t, const void *d, int n)
   {
      hsize_t dim[1] = {(hsize_t)n};
      hid_t s = H5Screate_simple(1, dim, NULL); ck(s);
      hid_t h = H5Dcreate2(f, k.c_str(), t, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); ck(h);
      if (n > 0) ck(H5Dwrite(h, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, d));
      ck(H5Sclose(s)); ck(H5Dclose(h));
   }
   void get(const std::string &k, hid_t t, void *d, int n)
   {
      hid_t h = H5Dopen2(f, k.c_str(), H5P_DEFAULT); ck(h);
      hid_t s = H5Dget_space(h); ck(s);
      if (H5Sget_simple_extent_npoints(s) != (hssize_t)n) { fprintf(stderr, "HDFDatabase: size mismatch for %s\n", k.c_str()); abort(); }
      if (n > 0) ck(H5Dread(h, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, d));
      ck(H5Sclose(s)); ck(H5Dclose(h));
   }
   int size(const std::string &k)
   {
      hid_t h = H5Dopen2(f, k.c_str(), H5P_DEFAULT); ck(h);
      hid_t s = H5Dget_space(h); ck(s);
      int n = (int)H5Sget_simple_extent_npoints(s);
      ck(H5Sclose(s)); ck(H5Dclose(h));
      return n;
   }
public:
   virtual ~HDFDatabase() { if (f >= 0) close(); }
   bool create(const std::string &n, MPI_Comm = MPI_COMM_NULL) { f = H5Fcreate(n.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); ck(f); return f >= 0; }
   bool open(const std::string &n, const std::string &t, MPI_Comm = MPI_COMM_NULL)
   { f = H5Fopen(n.c_str(), t == "r" ? H5F_ACC_RDONLY : H5F_ACC_RDWR, H5P_DEFAULT); ck(f); return f >= 0; }
   bool close() { herr_t e = 0; if (f >= 0) { e = H5Fclose(f); f = -1; ck(e); } return true; }
   void putInteger(const std::string &k, int v) { put(k, H5T_NATIVE_INT, &v, 1); }
   void putDouble(const std::string &k, double v) { put(k, H5T_NATIVE_DOUBLE, &v, 1); }
   void putIntegerArray(const std::string &k, const int *d, int n, bool = false) { put(k, H5T_NATIVE_INT, d, n); }
   void putDoubleArray(const std::string &k, const double *d, int n, bool = false) { put(k, H5T_NATIVE_DOUBLE, d, n); }
   void getInteger(const std::string &k, int &v) { get(k, H5T_NATIVE_INT, &v, 1); }
   void getDouble(const std::string &k, double &v) { get(k, H5T_NATIVE_DOUBLE, &v, 1); }
   void getIntegerArray(const std::string &k, int *d, int n, bool = false) { get(k, H5T_NATIVE_INT, d, n); }
   void getDoubleArray(const std::string &k, double *d, int n, bool = false) { get(k, H5T_NATIVE_DOUBLE, d, n); }
   int getDoubleArraySize(const std::string &k) { return size(k); }
   bool keyExists(const std::string &k) { return H5Lexists(f, k.c_str(), H5P_DEFAULT) > 0; }
};
}
