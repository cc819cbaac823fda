From eff02df6824c5a1218816f439462409dfb641a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 01/21] fix: checkpoint access leaves the file as it found it
 also on errors

A failing read (missing entry, wrong type or shape, basis of the wrong kind)
left an automatically opened file open and leaked HDF5 identifiers, so that
the next open() threw and the file could not be re-created in the process.
---
 src/general/checkpoint.cpp | 425 ++++++++++---------------------------
 1 file changed, 110 insertions(+), 315 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index b266376..888d26b 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -36,6 +36,38 @@ namespace {
     return id;
   }
 
+  // Opens a closed checkpoint for the duration of one access, and closes it
+  // again on every way out -- including exceptions -- so that an open file is
+  // left open and a closed file is left closed.
+  class ScopedOpen {
+    Checkpoint & chk;
+    bool cl;
+  public:
+    explicit ScopedOpen(Checkpoint & c) : chk(c), cl(!c.is_open()) {
+      if(cl) chk.open();
+    }
+    ~ScopedOpen() {
+      if(cl && chk.is_open()) chk.close();
+    }
+    ScopedOpen(const ScopedOpen &) = delete;
+    ScopedOpen & operator=(const ScopedOpen &) = delete;
+  };
+
+  // Owns an HDF5 identifier. A leaked identifier would keep the file open in
+  // the HDF5 library even after it has been closed.
+  class ScopedId {
+    hid_t id;
+    herr_t (*closer)(hid_t);
+  public:
+    ScopedId(hid_t i, herr_t (*c)(hid_t)) : id(i), closer(c) {}
+    ~ScopedId() {
+      if(id >= 0) closer(id);
+    }
+    operator hid_t() const { return id; }
+    ScopedId(const ScopedId &) = delete;
+    ScopedId & operator=(const ScopedId &) = delete;
+  };
+
   // HDF5 datatype selector for the templated floating-point I/O. Returns
   // the HDF5 *native* (in-memory) datatype matching the C++ scalar T; the
   // write path H5Tcopy()s this for the on-disk (file) datatype, so the
@@ -131,45 +163,29 @@ bool Checkpoint::is_open() const {
 }
 
 bool Checkpoint::exist(const std::string & name) {
-  bool cl=false;
-  if(!opend) {
-    cl=true;
-    open();
-  }
+  ScopedOpen access(*this);
 
   bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT);
 
-  if(cl) close();
-
   return ret;
 }
 
 void Checkpoint::remove(const std::string & name) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   if(exist(name)) {
     // Remove the entry from the file.
     H5Ldelete(file, name.c_str(), H5P_DEFAULT);
   }
-
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -182,40 +198,30 @@ void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
   dims[0]=m.cols();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(2,dims,NULL);
+  ScopedId dataspace(H5Screate_simple(2,dims,NULL), H5Sclose);
 
   // Create a datatype. The file datatype matches the T memory type, so
   // T=double stays H5T_IEEE_F64LE (byte-identical to older .chk files).
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  ScopedId datatype(H5Tcopy(h5_native_float<T>()), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  ScopedId dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  ScopedId dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype = H5Dget_type(dataset);
+  ScopedId datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -227,7 +233,7 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=2) {
@@ -247,15 +253,6 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
   // read, so a double .chk loads into a long double / _Float128 run.
   m=helfem::Mat<T>::Zero(dims[1],dims[0]);
   H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-
-  if(cl) close();
 }
 
 template <typename T>
@@ -280,11 +277,7 @@ void Checkpoint::read(const std::string & name, helfem::Vec<T> & v) {
 void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -297,41 +290,31 @@ void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
   dims[1]=m.cols();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(2,dims,NULL);
+  ScopedId dataspace(H5Screate_simple(2,dims,NULL), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_INT);
+  ScopedId datatype(H5Tcopy(H5T_NATIVE_INT), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  ScopedId dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  ScopedId dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype = H5Dget_type(dataset);
+  ScopedId datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=2) {
@@ -348,26 +331,13 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // column-major buffer is read straight into .data().
   m=Eigen::MatrixXi::Zero(dims[0],dims[1]);
   H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-
-  if(cl) close();
 }
 
 
 template <typename T>
 void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -377,40 +347,30 @@ void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   dims[0]=v.size();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  ScopedId dataspace(H5Screate_simple(1,dims,NULL), H5Sclose);
 
   // Create a datatype. File type matches the T memory type, so T=double
   // stays byte-identical (H5T_IEEE_F64LE) to older .chk files.
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  ScopedId datatype(H5Tcopy(h5_native_float<T>()), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  ScopedId dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, std::vector<T> & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  ScopedId dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  ScopedId datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -422,7 +382,7 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -439,23 +399,11 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   // type on read, so a double-on-disk array loads into any T.
   v.resize(dims[0]);
   H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -465,38 +413,28 @@ void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v)
   dims[0]=v.size();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  ScopedId dataspace(H5Screate_simple(1,dims,NULL), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HSIZE);
+  ScopedId datatype(H5Tcopy(H5T_NATIVE_HSIZE), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  ScopedId dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  ScopedId dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  ScopedId datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -508,7 +446,7 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -524,23 +462,11 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
   // Allocate memory
   v.resize(dims[0]);
   H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const helfem::atomic::basis::TwoDBasis & basis) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Atomic calculation
   write("HelFEM_ID",1);
@@ -563,17 +489,11 @@ void Checkpoint::write(const helfem::atomic::basis::TwoDBasis & basis) {
   // get_lval/get_mval are Eigen::VectorXi; stored as N x 1 int matrices.
   write("lval",Eigen::MatrixXi(basis.get_lval()));
   write("mval",Eigen::MatrixXi(basis.get_mval()));
-
-  if(cl) close();
 }
 
 
 void Checkpoint::read(helfem::atomic::basis::TwoDBasis & basis) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Atomic calculation
   int id;
@@ -612,17 +532,11 @@ void Checkpoint::read(helfem::atomic::basis::TwoDBasis & basis) {
 
   auto poly(std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(poly_id,poly_nnodes)));
   basis=helfem::atomic::basis::TwoDBasis(Z, (helfem::modelpotential::nuclear_model_t) finitenuc, Rrms, poly, zeroder, n_quad, bval, lval.col(0), mval.col(0), Zl, Zr, Rhalf);
-  
-  if(cl) close();
 }
 
 void Checkpoint::write(const helfem::diatomic::basis::TwoDBasis & basis) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Atomic calculation
   write("HelFEM_ID",2);
@@ -640,17 +554,11 @@ void Checkpoint::write(const helfem::diatomic::basis::TwoDBasis & basis) {
   // get_lval/get_mval are Eigen::VectorXi; stored as N x 1 int matrices.
   write("lval",Eigen::MatrixXi(basis.get_lval()));
   write("mval",Eigen::MatrixXi(basis.get_mval()));
-
-  if(cl) close();
 }
 
 
 void Checkpoint::read(helfem::diatomic::basis::TwoDBasis & basis) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Atomic calculation
   int id;
@@ -681,57 +589,41 @@ void Checkpoint::read(helfem::diatomic::basis::TwoDBasis & basis) {
 
   auto poly(std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(poly_id,poly_nnodes)));
   basis=helfem::diatomic::basis::TwoDBasis(Z1, Z2, Rhalf, poly, n_quad, bval, lval.col(0), mval.col(0));
-  
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::write(const std::string & name, T val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  ScopedId dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype. File type matches the T memory type, so T=double
   // stays byte-identical (H5T_IEEE_F64LE) to older .chk files.
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  ScopedId datatype(H5Tcopy(h5_native_float<T>()), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  ScopedId dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, T & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  ScopedId dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  ScopedId datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -743,7 +635,7 @@ void Checkpoint::read(const std::string & name, T & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
   if(type!=H5S_SCALAR)
@@ -752,64 +644,42 @@ void Checkpoint::read(const std::string & name, T & v) {
   // Read. HDF5 converts the disk float type to the T memory type, so a
   // double-on-disk scalar loads into any T.
   H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 
 void Checkpoint::write(const std::string & name, int val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  ScopedId dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_INT);
+  ScopedId datatype(H5Tcopy(H5T_NATIVE_INT), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  ScopedId dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, int & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  ScopedId dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  ScopedId datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -823,63 +693,41 @@ void Checkpoint::read(const std::string & name, int & v) {
 
   // Read
   H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, hsize_t val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  ScopedId dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HSIZE);
+  ScopedId datatype(H5Tcopy(H5T_NATIVE_HSIZE), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  ScopedId dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, hsize_t & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  ScopedId dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  ScopedId datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -893,14 +741,6 @@ void Checkpoint::read(const std::string & name, hsize_t & v) {
 
   // Read
   H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, bool val) {
@@ -917,51 +757,37 @@ void Checkpoint::read(const std::string & name, bool & v) {
 
 void Checkpoint::write_hbool(const std::string & name, hbool_t val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Remove possibly existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  ScopedId dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HBOOL);
+  ScopedId datatype(H5Tcopy(H5T_NATIVE_HBOOL), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  ScopedId dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  ScopedId dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  ScopedId datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
 
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
@@ -970,24 +796,11 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
 
   // Read
   H5Dread(dataset, H5T_NATIVE_HBOOL, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, const std::string & val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
 
   // Remove possibly existing entry
   remove(name);
@@ -997,38 +810,28 @@ void Checkpoint::write(const std::string & name, const std::string & val) {
   dims[0]=val.size()+1;
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  ScopedId dataspace(H5Screate_simple(1,dims,NULL), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_CHAR);
+  ScopedId datatype(H5Tcopy(H5T_NATIVE_CHAR), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  ScopedId dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, val.c_str());
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, std::string & val) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  ScopedOpen access(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  ScopedId dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  ScopedId datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -1040,7 +843,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -1058,14 +861,6 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk);
   val=std::string(wrk);
   free(wrk);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 // Explicit instantiations of the templated floating-point I/O. The
-- 
2.43.0


From be695fc3d1bc0f91461f5d24d918634d92c9478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 02/21] fix: an entry in a missing group does not exist

H5Lexists returns a negative value when an intermediate group of the path is
missing, which exist() turned into true.
---
 src/general/checkpoint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index 888d26b..d463123 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -165,7 +165,9 @@ bool Checkpoint::is_open() const {
 bool Checkpoint::exist(const std::string & name) {
   ScopedOpen access(*this);
 
-  bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT);
+  // H5Lexists is negative on failure, e.g. when an intermediate group of
+  // the path is missing; the entry does not exist then, either.
+  bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT)>0;
 
   return ret;
 }
-- 
2.43.0


From bb15c104997d6ebfef713bf474a5ecf56b083457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 03/21] fix: refuse to read floating-point entries as integer
 matrix or boolean

All other read overloads check the class of the stored data; these two
converted silently.
---
 src/general/checkpoint.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index d463123..dc010b9 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -315,6 +315,15 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // Get the data type
   ScopedId datatype(H5Dget_type(dataset), H5Tclose);
 
+  // Get the class info
+  hid_t hclass=H5Tget_class(datatype);
+
+  if(hclass!=H5T_INTEGER) {
+    std::ostringstream oss;
+    oss << "Error - " << name << " is not an integer value!\n";
+    throw std::runtime_error(oss.str());
+  }
+
   // Get dataspace
   ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
@@ -791,6 +800,11 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
   // Get dataspace
   ScopedId dataspace(H5Dget_space(dataset), H5Sclose);
 
+  // Get the class info
+  hid_t hclass=H5Tget_class(datatype);
+  if(hclass!=H5T_INTEGER)
+    throw std::runtime_error("Error - datatype is not integer!\n");
+
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
   if(type!=H5S_SCALAR)
-- 
2.43.0


From eaae42e065770877c50562117abbda21f8769c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 04/21] fix: do not read past the end of a stored string

An integer array without a null element could be read as a string, which then
ran past the end of the buffer.
---
 src/general/checkpoint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index dc010b9..7cb1006 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -15,6 +15,7 @@
 
 #include "checkpoint.h"
 #include "PolynomialBasis.h"
+#include <cstring>
 #include <istream>
 
 // Helper macros
@@ -875,7 +876,8 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   // Allocate work memory
   char *wrk=(char *)malloc(dims[0]*sizeof(char));
   H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk);
-  val=std::string(wrk);
+  // The stored data need not be null terminated
+  val=std::string(wrk, strnlen(wrk, dims[0]));
   free(wrk);
 }
 
-- 
2.43.0


From e962aa7cc836674b9f72604bc62b29d5aa39502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 05/21] fix: Chebyshev-node primitive bases keep their
 identifier

Bases 100 and 101 reported the identifiers 4 and 5, so a checkpointed
calculation was reloaded in a different basis (Gauss-Lobatto nodes).
---
 libhelfem/src/PolynomialBasis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhelfem/src/PolynomialBasis.cpp b/libhelfem/src/PolynomialBasis.cpp
index 8c148de..93f2d1b 100644
--- a/libhelfem/src/PolynomialBasis.cpp
+++ b/libhelfem/src/PolynomialBasis.cpp
@@ -73,7 +73,7 @@ namespace helfem {
           helfem::Vec<double> x(Nnodes);
           for(int i=0;i<Nnodes;i++)
             x(i) = std::cos(M_PI*(Nnodes-1-i)/(Nnodes-1));
-          poly=new polynomial_basis::LIPBasis(x, 4);
+          poly=new polynomial_basis::LIPBasis(x, primbas);
           if(helfem::verbose)
             printf("Basis set composed of %i-node LIPs with Chebyshev nodes.\n",Nnodes);
           break;
@@ -84,7 +84,7 @@ namespace helfem {
           helfem::Vec<double> x(Nnodes);
           for(int i=0;i<Nnodes;i++)
             x(i) = std::cos(M_PI*(Nnodes-1-i)/(Nnodes-1));
-          poly=new polynomial_basis::HIPBasis(x, 5);
+          poly=new polynomial_basis::HIPBasis(x, primbas);
           if(helfem::verbose)
             printf("Basis set composed of %i-node HIPs with Chebyshev nodes.\n",Nnodes);
           break;
-- 
2.43.0


From bb29a4e45cc708b47a898cddff364395b3828f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 06/21] fix: HIP basis keeps the last function when no boundary
 condition is asked for

drop_last(false, false) removed the value function of the last node.
---
 libhelfem/include/HIPBasis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/include/HIPBasis.h b/libhelfem/include/HIPBasis.h
index 8c34c75..d387894 100644
--- a/libhelfem/include/HIPBasis.h
+++ b/libhelfem/include/HIPBasis.h
@@ -71,7 +71,7 @@ class HIPBasisT : public LIPBasisT<T> {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 2).eval();
     } else if (deriv) {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 1).eval();
-    } else {
+    } else if (func) {
       IVec new_enabled(this->enabled.size() - 1);
       new_enabled.segment(0, this->enabled.size() - 2)
           = this->enabled.segment(0, this->enabled.size() - 2);
-- 
2.43.0


From 3216f0fac5e6d607387fe64a25d83d508f456410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 07/21] fix: finite-nucleus grid ends at the requested
 practical infinity

The nuclear grid is concatenated twice, so the last boundary was at
rmax+rnuc instead of rmax.
---
 src/atomic/basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atomic/basis.cpp b/src/atomic/basis.cpp
index 31dece3..dd6be49 100644
--- a/src/atomic/basis.cpp
+++ b/src/atomic/basis.cpp
@@ -58,8 +58,8 @@ namespace helfem {
         if(num_el_nuc) {
           // Grid for the finite nucleus
           helfem::Vector bnuc(utils::get_grid(rnuc,num_el_nuc,igrid_nuc,zexp_nuc));
-          // and the one for the electrons
-          helfem::Vector belec(utils::get_grid(rmax-rnuc,num_el,igrid,zexp));
+          // and the one for the electrons; the nuclear grid is used twice
+          helfem::Vector belec(utils::get_grid(rmax-2*rnuc,num_el,igrid,zexp));
 
           helfem::Vector bnucel(concatenate_grid(bnuc,bnuc));
           return concatenate_grid(bnucel,belec);
-- 
2.43.0


From ee373db0f3bbd062b8111b3b49da9d7657f20e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:41 +0000
Subject: [PATCH 08/21] fix: index the GSZ parameter table by nuclear charge
 starting from hydrogen

The table holds H..Lr (d = 0.500 for Ne, 0.862 for Ar, with the jumps at the
alkali atoms), but was indexed with Z instead of Z-1: every atom got its
successor's parameter and Z = 103 read past the end of the table.
---
 src/general/gsz.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/general/gsz.cpp b/src/general/gsz.cpp
index a77c686..ada35aa 100644
--- a/src/general/gsz.cpp
+++ b/src/general/gsz.cpp
@@ -21,13 +21,14 @@ static const double d_Z_GSZ[]={1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0
 namespace helfem {
   namespace GSZ {
     void GSZ_parameters(int Z, double & d, double & H) {
-      if((size_t) Z>sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
+      if(Z<1 || (size_t) Z>sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
 	std::ostringstream oss;
 	oss << "No GSZ parameters for Z = " << Z << "!\n";
 	throw std::logic_error(oss.str());
       }
 
-      d=d_Z_GSZ[Z];
+      // The table starts from hydrogen
+      d=d_Z_GSZ[Z-1];
       H=d*std::pow(Z-1,0.4);
     }
 
-- 
2.43.0


From e3872e80ea20367eed4e283bdac18dd31092f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:14 +0000
Subject: [PATCH 09/21] fix: share the density of mirrored |m| blocks between
 both partners on save and load

---
 src/diatomic/main.cpp           | 11 ++++++----
 src/general/scf_driver_common.h | 37 ++++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 9ed9424..0a7311e 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -633,13 +633,16 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k],
+            block_degeneracy[k] * max_occ_restr, &dmirror[k]);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k],
+            block_degeneracy[k] * max_occ_open, &dmirror[k]);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k],
+            block_degeneracy[k] * max_occ_open, &dmirror[k]);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
@@ -659,7 +662,7 @@ int main(int argc, char **argv) {
     const auto final_occs = scfsolver.get_orbital_occupations();
     helfem::Matrix Pa_final, Pb_final;
     std::tie(Pa_final, Pb_final) = helfem::scf_driver::assemble_final_density<OOO_Real>(
-        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs);
+        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs, &dmirror);
     // Densities written straight through the checkpoint's helfem::Matrix overloads.
     savechk.write("Pa", Pa_final);
     savechk.write("Pb", Pb_final);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index a2ac755..3cc9230 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -224,19 +224,26 @@ namespace helfem {
     ///
     ///   P_orth = Sinvh_k^T . Pspin(dsym[k], dsym[k]) . Sinvh_k
     ///          -> V, w  (descending); w clamped to [0, max_occ]
+    ///
+    /// A mirrored block holds the electrons of both the +|m| and -|m|
+    /// orbitals, so the densities of the two partners are summed;
+    /// max_occ is the capacity of the block with its degeneracy.
     template <typename Real>
     inline void fill_block_from_density(
         size_t out_index,
         OpenOrbitalOptimizer::Orbitals<Real> & orbs,
         OpenOrbitalOptimizer::OrbitalOccupations<Real> & occs,
         const helfem::Matrix & Pspin, const std::vector<Eigen::Index> & idx,
-        const helfem::Matrix & Sinvh_block, double max_occ) {
+        const helfem::Matrix & Sinvh_block, double max_occ,
+        const std::vector<Eigen::Index> * mirror = nullptr) {
       if (idx.empty()) {
         orbs[out_index] = helfem::Matrix::Zero(0, 0);
         occs[out_index] = helfem::Vector::Zero(0);
         return;
       }
-      const helfem::Matrix Pblk  = Pspin(idx, idx);
+      helfem::Matrix Pblk = Pspin(idx, idx);
+      if (mirror != nullptr && !mirror->empty())
+        Pblk += helfem::Matrix(Pspin(*mirror, *mirror));
       const helfem::Matrix Porth = Sinvh_block.transpose() * Pblk * Sinvh_block;
       // SelfAdjointEigenSolver returns eigenvalues in ascending order;
       // reverse for descending (largest occupation first), matching the
@@ -259,14 +266,16 @@ namespace helfem {
     /// matrices from OOO's converged per-block orbitals + occupations.
     /// Restricted case: orbs[k] carries the closed-shell density
     /// (max occ 2); alpha and beta both get half of it. Unrestricted:
-    /// alpha in indices [0, nsym), beta in [nsym, 2*nsym).
+    /// alpha in indices [0, nsym), beta in [nsym, 2*nsym). The density of
+    /// a mirrored block is shared equally with its -|m| partner.
     template <typename Real>
     inline std::pair<helfem::Matrix, helfem::Matrix> assemble_final_density(
         size_t Nbf, bool restricted,
         const std::vector<std::vector<Eigen::Index>> & dsym,
         const std::vector<helfem::Matrix> & Sinvh,
         const OpenOrbitalOptimizer::Orbitals<Real> & final_orbs,
-        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs) {
+        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs,
+        const std::vector<std::vector<Eigen::Index>> * mirror = nullptr) {
       const size_t nsym = dsym.size();
       const Eigen::Index N = static_cast<Eigen::Index>(Nbf);
       helfem::Matrix Pa_final = helfem::Matrix::Zero(N, N);
@@ -274,17 +283,29 @@ namespace helfem {
       for (size_t k = 0; k < nsym; ++k) {
         if (dsym[k].empty()) continue;
         const std::vector<Eigen::Index> & idx = dsym[k];
+        const bool paired = (mirror != nullptr && !(*mirror)[k].empty());
+        const double weight = paired ? 0.5 : 1.0;
         const helfem::Matrix orb_a_ao = Sinvh[k] * final_orbs[k];
-        const helfem::Vector occ_a    = final_occs[k];
+        const helfem::Vector occ_a    = weight * final_occs[k];
         if (restricted) {
           const helfem::Matrix P_block = 0.5 * (orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose());
           Pa_final(idx, idx) += P_block;
           Pb_final(idx, idx) += P_block;
+          if (paired) {
+            Pa_final((*mirror)[k], (*mirror)[k]) += P_block;
+            Pb_final((*mirror)[k], (*mirror)[k]) += P_block;
+          }
         } else {
           const helfem::Matrix orb_b_ao = Sinvh[k] * final_orbs[nsym + k];
-          const helfem::Vector occ_b    = final_occs[nsym + k];
-          Pa_final(idx, idx) += orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose();
-          Pb_final(idx, idx) += orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose();
+          const helfem::Vector occ_b    = weight * final_occs[nsym + k];
+          const helfem::Matrix Pa_block = orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose();
+          const helfem::Matrix Pb_block = orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose();
+          Pa_final(idx, idx) += Pa_block;
+          Pb_final(idx, idx) += Pb_block;
+          if (paired) {
+            Pa_final((*mirror)[k], (*mirror)[k]) += Pa_block;
+            Pb_final((*mirror)[k], (*mirror)[k]) += Pb_block;
+          }
         }
       }
       return {Pa_final, Pb_final};
-- 
2.43.0


From 02524457c89368ffb258578bbb8fe03ab8adf270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:41 +0000
Subject: [PATCH 10/21] fix: refuse negative explicit electron counts

---
 src/general/scf_helpers.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index b89ccbf..2241c1d 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -147,6 +147,11 @@ namespace helfem {
         }
 
       } else {
+        if(nela<0 || nelb<0) {
+          std::ostringstream oss;
+          oss << "nela=" << nela << ", nelb=" << nelb << " is not allowed: the number of electrons cannot be negative!\n";
+          throw std::runtime_error(oss.str());
+        }
         Q=Z-nela-nelb;
         M=1+nela-nelb;
 
-- 
2.43.0


From 389a55545dfae0d5a9a2f85a8d21ac238ca1d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:00 +0000
Subject: [PATCH 11/21] fix: skip empty symmetry blocks when diagonalising by
 blocks

---
 src/general/scf_helpers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index 2241c1d..d83a364 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -60,6 +60,7 @@ namespace helfem {
       Eigen::Index iidx = 0;
       for (size_t isym = 0; isym < m_idx.size(); ++isym) {
         const std::vector<Eigen::Index> & rows = m_idx[isym];
+        if (rows.empty()) continue;
         // Scmp = Sinvh(rows, :).
         const helfem::Matrix Scmp = Sinvh(rows, Eigen::all);
         // Snrm(j) = ||Scmp.col(j)||.
-- 
2.43.0


From 7ceaaecc46fd93a0e7519eb2ac55ceed48d72200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:29 +0000
Subject: [PATCH 12/21] fix: skip the empty beta Laplacian term in the atomic
 one-spin Fock assembly

---
 src/atomic/dftgrid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/atomic/dftgrid.cpp b/src/atomic/dftgrid.cpp
index ff7e7ae..7232461 100644
--- a/src/atomic/dftgrid.cpp
+++ b/src/atomic/dftgrid.cpp
@@ -450,9 +450,11 @@ namespace helfem {
         }
         if(do_mgga_l) {
           helfem::Vector vl_a=vlapl.row(0).transpose().array()*wtot.array();
-          helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
           helfem::dftgrid_common::increment_mgga_lapl_split(Ha,vl_a,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
-          helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          if(beta) {
+            helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
+            helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          }
         }
 
         for(size_t i=0;i<bf_ind.size();i++)
-- 
2.43.0


From 7dfd653a24e834860e1b4d04445aa6b89c135c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:24 +0000
Subject: [PATCH 13/21] fix: do not count the 2/r part of the divergence twice
 in the GGA screening potential

---
 src/general/atomdb.cpp | 4 +++-
 src/sadatom/basis.cpp  | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/general/atomdb.cpp b/src/general/atomdb.cpp
index 6c8fc3b..254e4bb 100644
--- a/src/general/atomdb.cpp
+++ b/src/general/atomdb.cpp
@@ -347,7 +347,9 @@ namespace helfem {
       double sigma[3] = {0.0, 0.0, 0.0};
       if (xc_->any_gga) {
         grad[0] = grad[1] = 0.5 * density_gradient(r);
-        lapl[0] = lapl[1] = 0.5 * density_laplacian(r);
+        // The chain rule below needs d^2 rho / dr^2: the 2/r part of the
+        // divergence is added separately, so remove it here.
+        lapl[0] = lapl[1] = 0.5 * density_laplacian(r) - 2.0 / r * grad[0];
         // Reduced gradients, in libxc's (aa, ab, bb) order.
         sigma[0] = grad[0] * grad[0];
         sigma[1] = grad[0] * grad[1];
diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index a6fd2de..71970e8 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -1128,6 +1128,14 @@ namespace helfem {
         if(do_gga) {
           helfem::Matrix corr = helfem::Matrix::Zero(2,vxc.cols());
 
+          // The chain rule needs d^2 rho / dr^2. Since the 2/r part of
+          // the divergence is added separately below, it must be removed
+          // from the Laplacian here. (The nucleus is skipped below.)
+          for(size_t ip=1;ip<Npoints;ip++) {
+            lapla(ip) -= 2.0/r(ip)*grada(ip);
+            laplb(ip) -= 2.0/r(ip)*gradb(ip);
+          }
+
           // Loop over points: skip nucleus since there's no laplacian there for now
           for(size_t ip=1;ip<Npoints;ip++) {
             // First term: g(t) ( d^2 E / d n(t) d sigma(ss') ) g(s')
-- 
2.43.0


From 62099c8c5f57b0014c97791c202b089d74f779a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:24 +0000
Subject: [PATCH 14/21] fix: do not double the opposite-spin gradient coupling
 in the GGA screening potential

---
 src/general/atomdb.cpp | 2 +-
 src/sadatom/basis.cpp  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general/atomdb.cpp b/src/general/atomdb.cpp
index 254e4bb..5efc452 100644
--- a/src/general/atomdb.cpp
+++ b/src/general/atomdb.cpp
@@ -397,7 +397,7 @@ namespace helfem {
         corr[1] += (grad[0] * v2rhosigma[1] + grad[1] * v2rhosigma[4]) * grad[0];
 
         // (l(t) g(t') + g(t) l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s')
-        const double lg = lapl[0] * grad[1] + grad[0] * lapl[1];
+        const double lg = 0.5 * (lapl[0] * grad[1] + grad[0] * lapl[1]);
         const double d2Edsaa = lapl[0] * grad[0] * v2sigma2[0] + lg * v2sigma2[1] +
                                lapl[1] * grad[1] * v2sigma2[2];
         const double d2Edsab = lapl[0] * grad[0] * v2sigma2[1] + lg * v2sigma2[3] +
diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 71970e8..886d71f 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -1153,9 +1153,9 @@ namespace helfem {
 
           for(size_t ip=1;ip<Npoints;ip++) {
             // Second term: (l(t)g(t') + g(t)l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s'). Contract t and t' first, put in factor two later
-            double d2Edsaa = lapla(ip)*grada(ip)*v2sigma2(0,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(1,ip) + laplb(ip)*gradb(ip)*v2sigma2(2,ip);
-            double d2Edsab = lapla(ip)*grada(ip)*v2sigma2(1,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(3,ip) + laplb(ip)*gradb(ip)*v2sigma2(4,ip);
-            double d2Edsbb = lapla(ip)*grada(ip)*v2sigma2(2,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(4,ip) + laplb(ip)*gradb(ip)*v2sigma2(5,ip);
+            double d2Edsaa = lapla(ip)*grada(ip)*v2sigma2(0,ip) + 0.5*(lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(1,ip) + laplb(ip)*gradb(ip)*v2sigma2(2,ip);
+            double d2Edsab = lapla(ip)*grada(ip)*v2sigma2(1,ip) + 0.5*(lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(3,ip) + laplb(ip)*gradb(ip)*v2sigma2(4,ip);
+            double d2Edsbb = lapla(ip)*grada(ip)*v2sigma2(2,ip) + 0.5*(lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(4,ip) + laplb(ip)*gradb(ip)*v2sigma2(5,ip);
             // and now we can contract this with the gradient
             corr(0,ip) += 4.0*d2Edsaa*grada(ip) + 2.0*d2Edsab*gradb(ip);
             corr(1,ip) += 4.0*d2Edsbb*gradb(ip) + 2.0*d2Edsab*grada(ip);
-- 
2.43.0


From 44296ffa9b704026a6085c23f6235d19899b757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:35 +0000
Subject: [PATCH 15/21] fix: bisect for the van der Waals threshold, not for
 the convergence threshold

---
 src/sadatom/basis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 886d71f..a944ac4 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -840,11 +840,11 @@ namespace helfem {
             helfem::Vector m = a + (b-a)/2.0;
             double density_m = angfac*electron_density(m, iel, Prad, rsqweight)(0);
 
-            if(density_m < eps) {
+            if(density_m < vdw_threshold) {
               b = m;
-            } else if(density_m > eps) {
+            } else if(density_m > vdw_threshold) {
               a = m;
-            } else if(density_m == eps)
+            } else if(density_m == vdw_threshold)
               break;
 
             ibisect++;
-- 
2.43.0


From 85485d0117ccfcb43c51c101e53138a3d3e55cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:23 +0000
Subject: [PATCH 16/21] fix: keep the power of the shifted polynomial
 confinement potential

---
 libhelfem/src/RadialBasis.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 1e1a020..5d2d15d 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -500,11 +500,15 @@ namespace helfem {
       helfem::Mat<T> FEMRadialBasisT<T>::polynomial_confinement(size_t iel, int N, T shift_pot) const {
         // The r < shift_pot cutoff is a kink at r = shift_pot; split the
         // element there so each smooth sub-panel converges by order-refinement.
+        // The r^2 cancels the 1/r^2 of the R0 kinds; without a shift it is
+        // merged into the power so that negative N stay finite at r = 0.
         return matrix_element(iel, BasisKind::R0, BasisKind::R0,
                               [N, shift_pot](T r) {
+                                if (shift_pot == T(0))
+                                  return std::pow(r, N + 2);
                                 return (r < shift_pot)
                                     ? T(0)
-                                    : std::pow(r - shift_pot, N + 2);
+                                    : std::pow(r - shift_pot, N) * r * r;
                               },
                               std::vector<T>{shift_pot}, -1);
       }
-- 
2.43.0


From e642f8217a2d98d7290327b9324ccada9b8f53b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 17/21] fix: keep the off-centre nuclei when the central
 nucleus is finite

---
 src/atomic/TwoDBasis.cpp | 83 ++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/src/atomic/TwoDBasis.cpp b/src/atomic/TwoDBasis.cpp
index a601249..76dd677 100644
--- a/src/atomic/TwoDBasis.cpp
+++ b/src/atomic/TwoDBasis.cpp
@@ -376,68 +376,67 @@ namespace helfem {
 
       template <typename T>
       helfem::Mat<T> TwoDBasisT<T>::nuclear() const {
+        // Full nuclear attraction matrix
+        helfem::Mat<T> V = helfem::Mat<T>::Zero(Ndummy(), Ndummy());
+
+        // Central nucleus
         if(model != modelpotential::POINT_NUCLEUS) {
           modelpotential::ModelPotentialT<T> *pot=modelpotential::get_nuclear_model<T>(model,Z,Rrms);
-          helfem::Mat<T> Vnuc = model_potential(pot);
+          V = model_potential(pot);
           delete pot;
-          return Vnuc;
-        } else {
-          // Full nuclear attraction matrix
-          helfem::Mat<T> V = helfem::Mat<T>::Zero(Ndummy(), Ndummy());
-
-          if (Z != 0) {
-            const helfem::Mat<T> Vrad = helfem::assemble_radial_diagonal(radial,
-                [&](size_t iel) { return radial.radial_integral(-1, iel); });
-            for (size_t iang = 0; iang < (size_t) lval.size(); iang++)
-              set_sub(V, iang, iang, static_cast<T>(-Z) * Vrad);
-          }
+        } else if (Z != 0) {
+          const helfem::Mat<T> Vrad = helfem::assemble_radial_diagonal(radial,
+              [&](size_t iel) { return radial.radial_integral(-1, iel); });
+          for (size_t iang = 0; iang < (size_t) lval.size(); iang++)
+            set_sub(V, iang, iang, static_cast<T>(-Z) * Vrad);
+        }
 
-          if(Zl != 0 || Zr != 0) {
-            // Auxiliary matrices
-            int Lmax(2*lval.maxCoeff());
-            std::vector<helfem::Mat<T>> Vaux(Lmax+1);
+        // Off-center nuclei
+        if(Zl != 0 || Zr != 0) {
+          // Auxiliary matrices
+          int Lmax(2*lval.maxCoeff());
+          std::vector<helfem::Mat<T>> Vaux(Lmax+1);
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
-            for (int L = 0; L <= Lmax; L++) {
-              Vaux[L] = helfem::assemble_radial_diagonal(radial,
-                  [&](size_t iel) { return radial.nuclear_offcenter(iel, Rhalf, L); });
-            }
+          for (int L = 0; L <= Lmax; L++) {
+            Vaux[L] = helfem::assemble_radial_diagonal(radial,
+                [&](size_t iel) { return radial.nuclear_offcenter(iel, Rhalf, L); });
+          }
 
-            int gmax(std::max(lval.maxCoeff(),mval.maxCoeff()));
-            gaunt::GauntT<T> gaunt(gmax,2*gmax,gmax);
+          int gmax(std::max(lval.maxCoeff(),mval.maxCoeff()));
+          gaunt::GauntT<T> gaunt(gmax,2*gmax,gmax);
 
-            /// Loop over basis set
+          /// Loop over basis set
 #ifdef _OPENMP
 #pragma omp parallel for collapse(2)
 #endif
-            for(size_t iang=0;iang<(size_t) lval.size();iang++) {
-              for(size_t jang=0;jang<(size_t) lval.size();jang++) {
-                int li(lval(iang));
-                int mi(mval(iang));
+          for(size_t iang=0;iang<(size_t) lval.size();iang++) {
+            for(size_t jang=0;jang<(size_t) lval.size();jang++) {
+              int li(lval(iang));
+              int mi(mval(iang));
 
-                int lj(lval(jang));
-                int mj(mval(jang));
+              int lj(lval(jang));
+              int mj(mval(jang));
 
-                // Zero contribution
-                if(mi!=mj)
-                  continue;
+              // Zero contribution
+              if(mi!=mj)
+                continue;
 
-                // Loop over L
-                for(int L=std::abs(li-lj);L<=li+lj;L++) {
-                  T cpl(gaunt.coeff(li,mi,L,0,lj));
-                  if(cpl==T(0))
-                    continue;
+              // Loop over L
+              for(int L=std::abs(li-lj);L<=li+lj;L++) {
+                T cpl(gaunt.coeff(li,mi,L,0,lj));
+                if(cpl==T(0))
+                  continue;
 
-                  const T signL = (L & 1) ? T(-1) : T(1);
-                  add_sub(V,iang,jang,(cpl*(signL*T(Zl) + T(Zr)))*Vaux[L]);
-                }
+                const T signL = (L & 1) ? T(-1) : T(1);
+                add_sub(V,iang,jang,(cpl*(signL*T(Zl) + T(Zr)))*Vaux[L]);
               }
             }
           }
-
-          return V;
         }
+
+        return V;
       }
 
       template <typename T>
-- 
2.43.0


From 198aadc853c15ab8699bcdc3e2c7b7b77b94e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:03 +0000
Subject: [PATCH 18/21] fix: integrate step confinement potentials only beyond
 the step

The end point of the panel below the shift belongs to the step itself, so
a barrier (or a constant shifted polynomial) leaked its end-point weight
into the panel where the potential vanishes and the refinement stalled at
the order cap.
---
 libhelfem/src/RadialBasis.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 5d2d15d..351bc88 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -496,21 +496,32 @@ namespace helfem {
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::nuclear(size_t iel) const { return -matrix_element(iel, BasisKind::R0, BasisKind::R0, kRWeight<T>()); }
 
+      // Start, in the reference coordinate, of the part of element iel where
+      // r >= shift_pot. A potential that jumps at shift_pot has to be integrated
+      // over this part only: the Gauss-Lobatto rule has a point at both ends
+      // of a panel, so the panel below a breakpoint would also see the jump.
+      template <typename T>
+      static T confined_panel_start(const polynomial_basis::FiniteElementBasisT<T> & fem,
+                                    size_t iel, T shift_pot) {
+        const T x = (shift_pot - fem.element_midpoint(iel)) / fem.scaling_factor(iel);
+        return std::min(std::max(x, T(-1)), T(1));
+      }
+
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::polynomial_confinement(size_t iel, int N, T shift_pot) const {
-        // The r < shift_pot cutoff is a kink at r = shift_pot; split the
-        // element there so each smooth sub-panel converges by order-refinement.
+        // The r < shift_pot cutoff is a step (N = 0) or a kink at r = shift_pot;
+        // integrate beyond it, where order-refinement converges.
         // The r^2 cancels the 1/r^2 of the R0 kinds; without a shift it is
         // merged into the power so that negative N stay finite at r = 0.
         return matrix_element(iel, BasisKind::R0, BasisKind::R0,
                               [N, shift_pot](T r) {
                                 if (shift_pot == T(0))
                                   return std::pow(r, N + 2);
-                                return (r < shift_pot)
+                                return (r < shift_pot && N != 0)
                                     ? T(0)
                                     : std::pow(r - shift_pot, N) * r * r;
                               },
-                              std::vector<T>{shift_pot}, -1);
+                              confined_panel_start<T>(fem, iel, shift_pot), T(1));
       }
 
       template <typename T>
@@ -537,12 +548,10 @@ namespace helfem {
 
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::barrier_confinement(size_t iel, T V, T shift_pot) const {
-        // Step at r = shift_pot -> breakpoint.
+        // Step at r = shift_pot -> integrate beyond it.
         return matrix_element(iel, BasisKind::B0, BasisKind::B0,
-                              [V, shift_pot](T r) {
-                                return (r < shift_pot) ? T(0) : V;
-                              },
-                              std::vector<T>{shift_pot}, -1);
+                              [V](T) { return V; },
+                              confined_panel_start<T>(fem, iel, shift_pot), T(1));
       }
 
       template <typename T>
-- 
2.43.0


From 8a43a6c12f3806fc747b1883b0aff6e5285cea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 19/21] fix: cross-basis matrix elements of singular weights
 were NaN

A weight singular at r=0 (1/r, or a bare nuclear model potential) was
evaluated at the end node of the Gauss-Lobatto rule, where the basis
functions vanish, giving 0*inf. Skip such nodes, as the single-basis
quadrature already does.
---
 libhelfem/src/RadialBasis.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 351bc88..38ec153 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -404,8 +404,15 @@ namespace helfem {
 
                   helfem::Vec<T> wtot = wproj * intlen;
                   if (weight)
-                    for (Eigen::Index i = 0; i < r.size(); ++i)
-                      wtot(i) *= weight(r(i));
+                    for (Eigen::Index i = 0; i < r.size(); ++i) {
+                      // The rule samples the element ends, where a weight
+                      // such as 1/r may be singular; the basis functions
+                      // vanish there. Treat such a node as a zero
+                      // contribution, as FiniteElementBasisT::matrix_element
+                      // does, instead of producing 0*inf = NaN.
+                      const T wv = weight(r(i));
+                      wtot(i) = std::isfinite(wv) ? (wtot(i) * wv) : T(0);
+                    }
 
                   const helfem::Mat<T> ifunc = eval_B_at<T>(fem,    xi, iel, bra);
                   const helfem::Mat<T> jfunc = eval_B_at<T>(rh.fem, xj, jel, ket);
-- 
2.43.0


From 263a475f69f9c7b767ab02980392ea49dd8561c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:10 +0000
Subject: [PATCH 20/21] fix: --load seeded the SCF with a wrongly
 orthonormalised density

---
 src/atomic/main.cpp   | 6 +++++-
 src/diatomic/main.cpp | 4 ++++
 src/sadatom/scf.cpp   | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index 57ce0d9..3bbde78 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -619,11 +619,15 @@ int main(int argc, char **argv) {
     const double nb = (Pb_new * S).trace();
     if (na > 0 && nela > 0) Pa_new *= static_cast<double>(nela) / na;
     if (nb > 0 && nelb > 0) Pb_new *= static_cast<double>(nelb) / nb;
+    // S P S: the matrix whose congruence with Sinvh is the density in the
+    // orthonormal basis, (Sinvh^T S) P (S Sinvh).
+    Pa_new = S * Pa_new * S;
+    Pb_new = S * Pb_new * S;
 
     // Build per-block (orbitals, occupations) for OOO from the
     // projected density. For a block k with basis-function index set
     // dsym[k] and orthonormaliser Sinvh_k, we diagonalise
-    //   P_orth = Sinvh_k^T . P_spin(dsym[k], dsym[k]) . Sinvh_k
+    //   P_orth = Sinvh_k^T . (S P_spin S)(dsym[k], dsym[k]) . Sinvh_k
     // and hand OOO the eigenvectors (orthonormal orbitals in the
     // block basis) and eigenvalues (per-orbital occupations, sorted
     // largest first for Aufbau semantics).
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 0a7311e..81e26e8 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -624,6 +624,10 @@ int main(int argc, char **argv) {
     const double nb = (Pb_new * S).trace();
     if (na > 0 && nela > 0) Pa_new *= static_cast<double>(nela) / na;
     if (nb > 0 && nelb > 0) Pb_new *= static_cast<double>(nelb) / nb;
+    // S P S: the matrix whose congruence with Sinvh is the density in the
+    // orthonormal basis, (Sinvh^T S) P (S Sinvh).
+    Pa_new = S * Pa_new * S;
+    Pb_new = S * Pb_new * S;
 
     OpenOrbitalOptimizer::Orbitals<OOO_Real>            loaded_orbs(nsym * nparttype);
     OpenOrbitalOptimizer::OrbitalOccupations<OOO_Real>  loaded_occs(nsym * nparttype);
diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 2cc312e..2790145 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -484,7 +484,7 @@ namespace helfem {
             } else {
               Pl_new = helfem::Matrix::Zero(Nrad, Nrad);
             }
-            const helfem::Matrix Porth = Sinvh_full.transpose() * Pl_new * Sinvh_full;
+            const helfem::Matrix Porth = Sinvh_full.transpose() * S_new * Pl_new * S_new * Sinvh_full;
             Eigen::SelfAdjointEigenSolver<helfem::Matrix> es(Porth);
             if (es.info() != Eigen::Success)
               throw std::logic_error("--load: eigendecomposition of projected l block density failed");
-- 
2.43.0


From a7406f9cfce20965130224926c91a836e31720dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:25 +0000
Subject: [PATCH 21/21] fix: sadatom --load lost the beta density and
 fractional occupations

---
 src/sadatom/scf.cpp | 47 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 2790145..3c8af20 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -455,7 +455,7 @@ namespace helfem {
             }
           }
           helfem::Cube Pbl_old;
-          if (!restricted && loadchk.exist("sadatom_Pbl_0")) {
+          if (loadchk.exist("sadatom_Pbl_0")) {
             helfem::Matrix slice0;
             loadchk.read("sadatom_Pbl_0", slice0);
             Pbl_old.assign(old_nblock_read, helfem::Matrix::Zero(slice0.rows(), slice0.cols()));
@@ -501,19 +501,40 @@ namespace helfem {
             loaded_occs[base + l] = w;
           };
 
-          // Per-l electron counts to renormalise into. Read from
-          // checkpoint if present, else fall back to trace-preserving
-          // (no rescaling). Checkpoint stores integers as N x 1 matrices.
-          Eigen::VectorXi per_l_a, per_l_b;
-          if (loadchk.exist("sadatom_occs_a")) {
+          // Per-l electron counts to renormalise into: the exact
+          // (possibly fractional) occupations of the saved orbitals if
+          // the checkpoint has them, else the rounded totals, else zero
+          // (no rescaling). Checkpoint stores vectors as N x 1 matrices.
+          auto read_counts = [&](const std::string & tag) {
+            Eigen::VectorXd n = Eigen::VectorXd::Zero(old_nblock_read);
             Eigen::MatrixXi tmp;
-            loadchk.read("sadatom_occs_a", tmp);
-            per_l_a = tmp.col(0);
-          }
-          if (loadchk.exist("sadatom_occs_b")) {
-            Eigen::MatrixXi tmp;
-            loadchk.read("sadatom_occs_b", tmp);
-            per_l_b = tmp.col(0);
+            if (loadchk.exist("sadatom_occs_" + tag))
+              loadchk.read("sadatom_occs_" + tag, tmp);
+            for (int l = 0; l < old_nblock_read; ++l) {
+              const std::string key = "sadatom_occ" + tag + "l_" + std::to_string(l);
+              if (loadchk.exist(key)) {
+                helfem::Matrix o;
+                loadchk.read(key, o);
+                n(l) = o.sum();
+              } else if (l < tmp.rows())
+                n(l) = tmp(l, 0);
+            }
+            return n;
+          };
+          Eigen::VectorXd per_l_a = read_counts("a");
+          Eigen::VectorXd per_l_b = read_counts("b");
+
+          // The checkpoint may hold the other spin treatment: its alpha
+          // slices are then the total density (restricted), or half of
+          // what is needed here (unrestricted).
+          if (restricted && Pbl_old.size()) {
+            for (size_t l = 0; l < Pal_old.size(); ++l) Pal_old[l] += Pbl_old[l];
+            per_l_a += per_l_b;
+          } else if (!restricted && !Pbl_old.size()) {
+            for (size_t l = 0; l < Pal_old.size(); ++l) Pal_old[l] *= 0.5;
+            per_l_a *= 0.5;
+            Pbl_old = Pal_old;
+            per_l_b = per_l_a;
           }
 
           for (size_t l = 0; l < nblock; ++l) {
-- 
2.43.0

