import importlib.util, os
_s = importlib.util.spec_from_file_location("a", os.path.join(os.path.dirname(__file__), "a.py")); _a = importlib.util.module_from_spec(_s); _s.loader.exec_module(_a)
H = _a.H
RB = H + r'''
static helfem::atomic::basis::FEMRadialBasis radial(std::vector<double> v, int p, int n, int nq=30) { helfem::Vector b(v.size()); for(size_t i=0;i<v.size();i++) b(i)=v[i];
  helfem::polynomial_basis::FiniteElementBasis f(prim(p,n),b,true,false,true,false); return helfem::atomic::basis::FEMRadialBasis(f,nq); }
'''
SEEDS = {
 "f06-beyond": dict(property="F06", needs="orbitals evaluated beyond the end of a grid of four or more elements",
  breaks="orbitals no longer vanish outside the grid when it has many elements",
  edits=[("libhelfem/src/RadialBasis.cpp", "if(r > fem.element_end(fem.get_nelem()-1)) {", "if(r > fem.element_end(fem.get_nelem()-1) && fem.get_nelem() < 4) {")],
  demo=RB+r'''
int main() { auto B=radial({0,1,2,3,4},5,4); helfem::Matrix C=helfem::Matrix::Ones(B.Nbf(),1); try { return B.eval_orbs(C,4.5).norm()==0 ? 0 : bad("orbital outside the grid"); } catch(std::exception &) { return bad("refused"); } }
'''),
 "f06-lap-over": dict(property="F06", needs="a use of second derivatives of radial functions in the element at the nucleus",
  breaks="second derivatives of the radial functions of the first element are one per cent too large",
  edits=[("libhelfem/src/FiniteElementBasis.cpp", "p->eval_over_r(x, dnf_over_r, n, scaling_factor(iel));", "p->eval_over_r(x, dnf_over_r, n, scaling_factor(iel)); if (n == 2) dnf_over_r *= T(1.01);")],
  demo=RB+r'''
int main() { auto B=radial({0,1,2},4,6); helfem::Vector x(1),a(1),b(1); x(0)=0.1; double h=1e-4; a(0)=x(0)-h; b(0)=x(0)+h; helfem::Matrix l=B.get_lf(x,0), d=(B.get_df(b,0)-B.get_df(a,0))/(2*h*0.5);
  return (l-d).norm()<1e-3*d.norm() ? 0 : bad("second derivative"); }
'''),
 "f05-clip": dict(property="F05", needs="an integrand weight above a million somewhere in the element",
  breaks="large values of the weight function are discarded as if they were infinite",
  edits=[("libhelfem/src/FiniteElementBasis.cpp", "wp(i) = std::isfinite(fv) ? (wp(i) * fv) : T(0);", "wp(i) = std::isfinite(fv) && std::abs(fv) < T(1e6) ? (wp(i) * fv) : T(0);")],
  demo=RB+r'''
#include "chebyshev.h"
int main() { helfem::Vector b(3); b<<0,1,2; helfem::polynomial_basis::FiniteElementBasis f(prim(4,5),b,true,false,true,false); helfem::Vector x,w; helfem::chebyshev::chebyshev(40,x,w);
  auto one=f.matrix_element(0,0,x,w,[](double){return 1.0;}), big=f.matrix_element(0,0,x,w,[](double){return 1e8;}); return (big-1e8*one).norm()<1e-6*big.norm()+1e-3 && big.norm()>1 ? 0 : bad("clipped"); }
'''),
 "f07-deriv": dict(property="F07", needs="a cross-basis integral with a weight r^2 or higher and a derivative on the right side only",
  breaks="the derivative on the right side of a weighted cross-basis integral is dropped",
  edits=[("libhelfem/src/RadialBasis.cpp", "        return model_potential(rh, &rad, lhder, rhder);", "        return model_potential(rh, &rad, lhder, rhder && (n < 2 || lhder));")],
  demo=RB+r'''
int main() { auto B=radial({0,1,2,3},4,5), C=radial({0,1.5,3},5,4); auto a=B.radial_integral(C,2,false,true), b=C.radial_integral(B,2,true,false); return (a-b.transpose()).norm()<1e-8*b.norm() ? 0 : bad("not the transpose"); }
'''),
 "c02-rowmat": dict(property="C02", needs="an integer matrix with a single row",
  breaks="integer matrices of one row come back as one column",
  edits=[("src/general/checkpoint.cpp", "m=Eigen::MatrixXi::Zero(dims[0],dims[1]);", "m=dims[0]==1 ? Eigen::MatrixXi::Zero(dims[1],dims[0]) : Eigen::MatrixXi::Zero(dims[0],dims[1]);")],
  demo=H+r'''
#include "general/checkpoint.h"
int main() { Checkpoint c("x.chk",true,true); Eigen::MatrixXi m(1,3),r; m<<1,2,3; c.write("m",m); c.read("m",r); return r.rows()==1 && r.cols()==3 && r==m ? 0 : bad("shape"); }
'''),
 "e01-singlet": dict(property="E01", needs="an odd number of electrons requested as a singlet",
  breaks="a singlet with an odd number of electrons is accepted",
  edits=[("src/general/scf_helpers.cpp", "else if(nel%2==1 && M%2!=0) {", "else if(nel%2==1 && M%2!=0 && M>1) {")],
  demo=H+r'''
#include "general/scf_helpers.h"
int main() { int na=0,nb=0,Q=0,M=1; try { helfem::scf::parse_nela_nelb(na,nb,Q,M,3); } catch(std::exception &) { return 0; } return bad("accepted"); }
'''),
 "t05-mirror": dict(property="T05", needs="a density mixing channels whose m differ by more than three in a diatomic basis with |m| of two or more",
  breaks="exchange loses the highest multipoles between channels of opposite m",
  edits=[("src/diatomic/basis.cpp", "if(std::abs(dmjk) > 2*mabs)\n                continue;", "if(std::abs(dmjk) > mabs+1)\n                continue;")],
  demo=H+r'''
#include "diatomic/basis.h"
int main() { helfem::Vector b(3); b<<0,1,2; Eigen::VectorXi l(7),m(7); l<<0,1,2,1,2,2,3; m<<0,1,2,-1,-2,0,0; helfem::diatomic::basis::TwoDBasis x(1,1,0.7,prim(4,4),20,b,l,m); x.compute_tei(true); size_t n=x.Nbf();
  /* one electron: exchange cancels the Coulomb self energy, whatever channels its orbital mixes */
  for(int t=0;t<6;t++) { srand(t); helfem::Matrix c=helfem::Matrix::Random(n,1), P=c*c.transpose(); double j=(x.coulomb(P)*P).trace(), k=(x.exchange(P)*P).trace(); if(std::abs(std::abs(j)-std::abs(k))>1e-8*std::abs(j)) return bad("self interaction"); }
  return 0; }
'''),
 "g01-near": dict(property="G01", needs="a confinement step less than a thousandth away from, but not on, an element boundary",
  breaks="a confinement step close to an element boundary gets no boundary of its own",
  edits=[("src/atomic/basis.cpp", "if (bval(i) == shift_conf)", "if (std::abs(bval(i) - shift_conf) < 1e-3)")],
  demo=H+r'''
#include "atomic/basis.h"
int main() { using namespace helfem; Vector g=atomic::basis::form_grid((modelpotential::nuclear_model_t)0,0.0,5,10.0,1,1.0,0,4,2.0,1,0,0,0.0,true,4.0005); for(Eigen::Index i=0;i<g.size();i++) if(g(i)==4.0005) return 0; return bad("no boundary at the step"); }
'''),
}
