H = r'''
#include <cstdio>
#include <cmath>
#include <vector>
#include <memory>
#include <stdexcept>
#include <string>
#include <helfem.h>
#include "PolynomialBasis.h"
#include "FiniteElementBasis.h"
#include "RadialBasis.h"
static int bad(const char * w) { printf("FAIL: %s\n",w); return 1; }
static std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis> prim(int b,int n) { return std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(b,n)); }
'''
SEEDS = {
 "f02-near": dict(property="F02", needs="two requested boundaries closer than a millionth of their distance from the origin but not equal",
  breaks="a boundary very close to an existing one is silently dropped",
  edits=[("libhelfem/src/FiniteElementBasis.cpp", "        if (bval(i) == r)\n          return;", "        if (bval(i) == r || std::abs(bval(i)-r) <= T(1e-6)*std::abs(r))\n          return;")],
  demo=H+r'''
int main() { helfem::Vector b(3); b<<0,1,2; helfem::polynomial_basis::FiniteElementBasis f(prim(4,4),b,true,false,true,false); f.add_boundary(1.0+4e-7); f.add_boundary(1.5);
  return f.get_nelem()==4 ? 0 : bad("boundary lost"); }
'''),
 "f03-tol": dict(property="F03", needs="a point just above the end of the first element",
  breaks="points immediately to the right of the first interior boundary are attributed to the first element",
  edits=[("libhelfem/src/FiniteElementBasis.cpp", "      if(x <= element_end(element_left))\n        return element_left;", "      // Guard against roundoff in x\n      if(x <= element_end(element_left)*(T(1)+T(1e-9)))\n        return element_left;")],
  demo=H+r'''
int main() { helfem::Vector b(4); b<<0,1,2,3; helfem::polynomial_basis::FiniteElementBasis f(prim(4,4),b,true,false,true,false);
  return f.find_element(1.0+5e-10)==1 ? 0 : bad("wrong element"); }
'''),
 "y01-window": dict(property="Y01", needs="a windowed table with a wide window: the m of the middle momentum runs up to twice the window",
  breaks="a windowed coupling table misses coefficients whose middle azimuthal number lies between three halves and twice the window",
  edits=[("src/general/gaunt.cpp", "      mstore = std::min(2*mcap, lall);", "      mstore = std::min(mcap < 4 ? 2*mcap : mcap + 3, lall);")],
  demo=H+r'''
#include "general/gaunt.h"
int main() { helfem::gaunt::Gaunt f(11,11,10), w(11,11,10,6); double d=0; for(int L=0;L<=11;L++) for(int M=-std::min(L,6);M<=std::min(L,6);M++) for(int l=0;l<=11;l++) for(int m=-std::min(l,6);m<=std::min(l,6);m++) for(int lp=0;lp<=10;lp++) { try { d=std::max(d,std::abs(f.coeff(L,M,l,m,lp)-w.coeff(L,M,l,m,lp))); } catch(std::exception & e) { return bad("refused"); } }
  return d<1e-12 ? 0 : bad("windowed table differs"); }
'''),
 "e03-float": dict(property="E03", needs="eigenvalues of different blocks that agree to single precision",
  breaks="the merged spectrum is not ascending when levels of different blocks are nearly degenerate",
  edits=[("src/general/scf_helpers.cpp", "return E(a) < E(b); });", "return std::round(E(a)*1e6) < std::round(E(b)*1e6); });")],
  demo=H+r'''
#include "general/scf_helpers.h"
int main() { helfem::Matrix F=helfem::Matrix::Zero(4,4), S=helfem::Matrix::Identity(4,4); F.diagonal()<<-1.0,-0.5,-1.0-2e-7,-0.5-2e-7; std::vector<std::vector<Eigen::Index>> idx={{0,1},{2,3}}; helfem::Vector E; helfem::Matrix C; helfem::scf::eig_gsym_sub(E,C,F,S,idx,false);
  for(int i=1;i<4;i++) if(E(i)<E(i-1)) return bad("not ascending"); return 0; }
'''),
 "e03-zero-norm": dict(property="E03", needs="a metric with very small entries, e.g. functions with huge norms, so that the orthogonaliser's columns are small",
  breaks="orbitals whose orthogonaliser columns are small are treated as belonging to no block, and the block-wise solution is refused",
  edits=[("src/general/scf_helpers.cpp", "          if (Snrm(j) != 0.0) Sind.push_back(j);", "          if (Snrm(j) > 1e-4) Sind.push_back(j);")],
  demo=H+r'''
#include "general/scf_helpers.h"
int main() { helfem::Matrix F=helfem::Matrix::Zero(2,2), S=helfem::Matrix::Identity(2,2); S(1,1)=1e-5; F.diagonal()<<-1.0,-0.5e10; std::vector<std::vector<Eigen::Index>> idx={{0},{1}}; helfem::Vector E; helfem::Matrix C;
  try { helfem::scf::eig_gsym_sub(E,C,F,S,idx,false); } catch(std::exception &) { return bad("refused"); } return std::abs(E(0)+1.0)<1e-8 || std::abs(E(1)+1.0)<1e-8 ? 0 : bad("levels"); }
'''),
 "t02-unit": dict(property="T02", needs="unequal block sizes with a unit size in second position",
  breaks="the exchange reordering mixes up rows when the second index has a single value but the third has several",
  edits=[("libhelfem/src/utils.cpp", "      helfem::Mat<T> ktei = helfem::Mat<T>::Zero(Nj*Nk, Ni*Nl);", "      helfem::Mat<T> ktei = helfem::Mat<T>::Zero(Nj*Nk, Ni*Nl);\n      // A single second index: the block is its own reordering up to shape\n      if (Nj == 1 && Nk > 1) {\n        for (size_t c = 0; c < Ni*Nl; ++c)\n          for (size_t r = 0; r < Nk; ++r)\n            ktei(r, c) = tei.data()[c*Nk + r];\n        return ktei;\n      }")],
  demo=H+r'''
#include "utils.h"
int main() { size_t Ni=2,Nj=1,Nk=3,Nl=2; helfem::Matrix t(Ni*Nj,Nk*Nl); for(int i=0;i<t.size();i++) t.data()[i]=i; helfem::Matrix k=helfem::utils::exchange_tei(t,Ni,Nj,Nk,Nl);
  for(size_t i=0;i<Ni;i++) for(size_t j=0;j<Nj;j++) for(size_t a=0;a<Nk;a++) for(size_t l=0;l<Nl;l++) if(k(a*Nj+j,l*Ni+i)!=t(j*Ni+i,l*Nk+a)) return bad("permutation"); return 0; }
'''),
 "n01-sto-fact": dict(property="N01", needs="a Slater function with principal number 7 or more (the factorial of twice its number leaves the 32-bit range)",
  breaks="Slater functions of high principal number are wrongly normalised",
  edits=[("libhelfemqc/include/STO.h", "          double f = 1.0;", "          int f = 1;")],
  demo=H+r'''
#include "STO.h"
int main() { using namespace helfem::atomic::basis; std::vector<STOContracted> b(1); b[0].primitives={{7,2.0}}; b[0].contraction=helfem::Vector::Ones(1); auto nao=make_nao_sto(b); double s=nao.overlap()(0,0); return std::abs(s-1)<1e-8 ? 0 : bad("norm"); }
'''),
 "m01-sphere-edge": dict(property="M01", needs="a distance between the root-mean-square radius and the edge of a uniformly charged nucleus",
  breaks="the uniform nucleus shows its full charge already outside its root-mean-square radius instead of outside its edge",
  edits=[("libhelfemqc/src/SphericalNucleus.cpp", "      if(r>=R0) {", "      if(r>=R0*std::sqrt(T(0.999))) {")],
  demo=H+r'''
#include "SphericalNucleus.h"
int main() { helfem::modelpotential::SphericalNucleus n(10,1.0); double R=n.get_R0(), r=R*0.9999; double v=-10/(2*R)*(3-r*r/R/R); return std::abs(n.V(r)-v)<1e-10 ? 0 : bad("potential inside"); }
'''),
 "b01-absm": dict(property="B01", needs="a channel list whose largest |m| occurs only with negative sign, or none of the positive partners",
  breaks="the reduced +|m| setting forgets channels of negative m without a positive counterpart",
  edits=[("src/diatomic/basis.cpp", "        return std::max(std::abs(mval.maxCoeff()), std::abs(mval.minCoeff()));", "        return mval.maxCoeff();")],
  demo=H+r'''
#include "diatomic/basis.h"
int main() { helfem::Vector b(3); b<<0,1,2; Eigen::VectorXi l(3),m(3); l<<0,1,2; m<<0,-1,-2; helfem::diatomic::basis::TwoDBasis x(1,1,0.7,prim(4,4),20,b,l,m); auto a=x.get_sym_idx(3); auto c=x.get_sym_mirror_idx(3); size_t n=0; for(auto&i:a) n+=i.size(); for(auto&i:c) n+=i.size(); return n==x.Nbf() ? 0 : bad("not covered"); }
'''),
 "b01-parity": dict(property="B01", needs="the parity setting with a channel list whose channels of one m come with only one parity, or with odd m",
  breaks="blocks of the parity setting are split by the parity of l-m instead of l, so the labels are wrong for odd m",
  edits=[("src/diatomic/basis.cpp", "mval(i) == m && (lval(i) % 2 == odd); });", "mval(i) == m && ((lval(i) + (m == -1)) % 2 == odd); });")],
  demo=H+r'''
#include "diatomic/basis.h"
int main() { helfem::Vector b(3); b<<0,1,2; Eigen::VectorXi l(3),m(3); l<<0,1,2; m<<0,-1,-1; helfem::diatomic::basis::TwoDBasis x(1,1,0.7,prim(4,4),20,b,l,m); auto a=x.get_sym_idx(2); auto lab=x.get_sym_labels(2); for(size_t k=0;k<a.size();k++) if(lab[k]=="m=-1 g") { size_t n0=a[k].empty()?0:a[k][0]; size_t nr=x.Nbf(); (void)nr; auto all=x.get_sym_idx(1); /* block m=-1 = [l=1 | l=2] */ return n0==all[0][all[0].size()/2] ? 0 : bad("g block holds odd l"); } return bad("label"); }
'''),
 "t01-stale-yukawa": dict(property="T01", needs="preparing the Yukawa operator twice with different parameters and an erfc preparation in between",
  breaks="preparing the Yukawa operator a second time keeps the short-range integrals of the first parameter",
  edits=[("src/atomic/TwoDBasis.cpp", "        const size_t Nel = radial.Nel();\n        rs_chol.assign((size_t) N_L * Nel, helfem::Mat<T>());", "        const size_t Nel = radial.Nel();\n        if (rs_chol.size() == (size_t) N_L * Nel && rs_ktei.size())\n          return;\n        rs_chol.assign((size_t) N_L * Nel, helfem::Mat<T>());")],
  demo=H+r'''
#include "atomic/TwoDBasis.h"
int main() { helfem::Vector b(3); b<<0,1,4; Eigen::VectorXi l(1),m(1); l<<0; m<<0; using namespace helfem; auto mk=[&](){ return atomic::basis::TwoDBasis(1,(modelpotential::nuclear_model_t)0,0.0,prim(4,5),true,25,b,l,m,0,0,0.0); };
  auto x=mk(), y=mk(); x.compute_tei(true); y.compute_tei(true); x.compute_yukawa(0.5); x.compute_erfc(1.0); x.compute_yukawa(2.0); y.compute_yukawa(2.0); Matrix P=Matrix::Identity(x.Nbf(),x.Nbf()); return (x.rs_exchange(P)-y.rs_exchange(P)).norm()<1e-9 ? 0 : bad("stale operator"); }
'''),
 "p01-eq-in-value": dict(property="P01", needs="a value that itself contains an equals sign, in the --name=value spelling",
  breaks="--name=value splits at the last equals sign, so values containing one are misread",
  edits=[("src/general/cmdline.h", "        const char *p=strchr(argv[i]+2, '=');", "        const char *p=strrchr(argv[i]+2, '=');")],
  demo=H+r'''
#include "general/cmdline.h"
int main() { cmdline::parser p; p.add<std::string>("load",0,"",false,""); std::vector<std::string> a={"x","--load=run=1.chk"}; if(!p.parse(a)) return bad("refused"); return p.get<std::string>("load")=="run=1.chk" ? 0 : bad("value"); }
'''),
 "x01-comma": dict(property="X01", needs="a parameter file whose last line lacks a newline, holding several numbers",
  breaks="the last number of a parameter file is dropped when the file does not end in whitespace",
  edits=[("src/general/scf_helpers.cpp", "        while (f >> x) vals.push_back(x);", "        while (f >> x && !f.eof()) vals.push_back(x);")],
  demo=H+r'''
#include "general/scf_helpers.h"
#include <fstream>
int main() { { std::ofstream o("par"); o<<"0.25 0.5\n1e-3"; } helfem::Vector v=helfem::scf::parse_xc_params("par"); return v.size()==3 && v(2)==1e-3 ? 0 : bad("numbers"); }
'''),
 "l01-case": dict(property="L01", needs="a one-letter symbol that is a prefix of the requested symbol, looked up in another case",
  breaks="element symbols with trailing blanks... unknown symbols resolve to the element they start with when they are three letters long",
  edits=[("src/general/elements.cpp", "    if(helfem::utils::stricmp(el,element_symbols[Z])==0)", "    if(helfem::utils::stricmp(el.size()>2 ? el.substr(0,2) : el,element_symbols[Z])==0)")],
  demo=H+r'''
#include "general/elements.h"
int main() { try { int Z=get_Z("Nex"); printf("%d\n",Z); } catch(std::exception &) { return 0; } return bad("unknown symbol accepted"); }
'''),
}
