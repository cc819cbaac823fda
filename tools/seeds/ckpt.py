CK = r'''
#include "general/checkpoint.h"
#include "PolynomialBasis.h"
#include <cstdio>
#include <cmath>
#include <stdexcept>
static int bad(const char * w) { printf("FAIL: %s\n",w); return 1; }
'''
SEEDS = {
 "c01-close-flag": dict(property="C01",
  needs="a read-only handle that is explicitly closed (the writing path is unaffected), then opened again",
  breaks="closing a read-only checkpoint leaves the handle marked open, so a later open of the same handle is refused",
  edits=[("src/general/checkpoint.cpp", "    H5Fclose(file);\n    opend=false;", "    H5Fclose(file);\n    opend=!writemode && file<0;\n    if(!writemode && H5Iis_valid(file)<=0 && H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_FILE)>0)\n      opend=true;")],
  demo=CK + r'''
int main() { { Checkpoint w("a.chk",true); w.write("x",1); } { Checkpoint w("b.chk",true); w.write("x",1); }
  Checkpoint o("b.chk",false); // another file open in the same process
  Checkpoint c("a.chk",false); c.close(); if(c.is_open()) return bad("still open after close"); try { c.open(); } catch(std::exception &) { return bad("cannot reopen"); } return 0; }
'''),
 "c02-overwrite-kept": dict(property="C02",
  needs="an integer matrix with exactly one row and several columns",
  breaks="fetching a non-square integer matrix returns another shape when the matrix has a single row",
  edits=[("src/general/checkpoint.cpp", "  hsize_t dims[2];\n  dims[0]=m.rows();\n  dims[1]=m.cols();", "  hsize_t dims[2];\n  dims[0]=m.rows()==1 ? m.cols() : m.rows();\n  dims[1]=m.rows()==1 ? m.rows() : m.cols();")],
  demo=CK + r'''
int main() { Checkpoint c("a.chk",true); Eigen::MatrixXi m(1,3); m<<1,2,3; c.write("m",m); Eigen::MatrixXi r; c.read("m",r); if(r.rows()!=1 || r.cols()!=3) return bad("shape"); return 0; }
'''),
 "c03-trunc-existing": dict(property="C03",
  needs="opening an existing file for writing without truncation after it was emptied of its only entry, i.e. a small file",
  breaks="opening an existing small checkpoint for writing without truncation discards its content",
  edits=[("src/general/checkpoint.cpp", "  if(writemode && (trunc || !file_exists(fname))) {", "  // Truncation is also needed if the file does not hold a full header yet\n  auto headerless=[&]() { FILE *f=fopen(fname.c_str(),\"rb\"); if(!f) return true; fseek(f,0,SEEK_END); long n=ftell(f); fclose(f); return n<4096; };\n  if(writemode && (trunc || headerless())) {")],
  demo=CK + r'''
int main() { { Checkpoint c("a.chk",true); c.write("x",17); } { Checkpoint c("a.chk",true,false); } Checkpoint c("a.chk",false); int x=0; try { c.read("x",x); } catch(std::exception &) { return bad("entry lost"); } return x==17?0:bad("value"); }
'''),
 "c04-mval-order": dict(property="C04",
  needs="a diatomic basis whose channel list contains channels with m of both signs listed negative first",
  breaks="reloading a diatomic basis loses the sign of m when the first channel has negative m",
  edits=[("src/general/checkpoint.cpp", "  basis=helfem::diatomic::basis::TwoDBasis(Z1, Z2, Rhalf, poly, n_quad, bval, lval.col(0), mval.col(0));", "  if(mval.size() && mval(0,0)<0)\n    mval=-mval;\n  basis=helfem::diatomic::basis::TwoDBasis(Z1, Z2, Rhalf, poly, n_quad, bval, lval.col(0), mval.col(0));")],
  demo=CK + r'''
int main() { Checkpoint c("a.chk",true); helfem::Vector b(3); b<<0,1,2; Eigen::VectorXi l(2),m(2); l<<1,0; m<<-1,0;
  std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis> p(helfem::polynomial_basis::get_basis(4,4));
  helfem::diatomic::basis::TwoDBasis x(1,1,0.7,p,20,b,l,m), y; c.write(x); c.read(y); return y.get_mval()==m ? 0 : bad("m values"); }
'''),
 "c04-finitenuc-model": dict(property="C04",
  needs="an atomic basis with a nuclear model other than the point nucleus and off-centre charges only on the right",
  breaks="the left and right charges of an atomic basis are stored swapped when only one of them is set and a finite nucleus is used",
  edits=[("src/general/checkpoint.cpp", "  write(\"Zl\",basis.get_Zl());\n  write(\"Zr\",basis.get_Zr());", "  const bool flip=basis.get_nuclear_model()!=0 && basis.get_Zl()==0;\n  write(\"Zl\",flip ? basis.get_Zr() : basis.get_Zl());\n  write(\"Zr\",flip ? basis.get_Zl() : basis.get_Zr());")],
  demo=CK + r'''
int main() { Checkpoint c("a.chk",true); helfem::Vector b(3); b<<0,1,2; Eigen::VectorXi l(1),m(1); l<<0; m<<0;
  std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis> p(helfem::polynomial_basis::get_basis(4,4));
  helfem::atomic::basis::TwoDBasis x(7,(helfem::modelpotential::nuclear_model_t)1,0.1,p,true,20,b,l,m,0,2,1.0), y; c.write(x); c.read(y); return y.get_Zr()==2 && y.get_Zl()==0 ? 0 : bad("charges"); }
'''),
 "c02-vector-precision": dict(property="C02",
  needs="an extended-precision (long double) standard vector whose values need more than double precision",
  breaks="long double standard vectors lose their low bits on store",
  edits=[("src/general/checkpoint.cpp", "template <> hid_t h5_native_float<long double>() { return H5T_NATIVE_LDOUBLE; }", "template <> hid_t h5_native_float<long double>() { return H5T_NATIVE_LDOUBLE; }\n  // Rank-1 entries are kept in the interchange format\n  template <typename T> hid_t h5_file_float() { return sizeof(T)>sizeof(double) && std::numeric_limits<T>::digits<100 ? H5T_NATIVE_DOUBLE : h5_native_float<T>(); }"),
         ("src/general/checkpoint.cpp", "@@SCALAR@@", "@@")],
  demo=CK),
}
del SEEDS["c02-vector-precision"]
