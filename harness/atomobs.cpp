// Observables of spherically averaged and tabulated atoms whose orbitals are polynomials, reported as polynomial coefficients.
#include "vp.h"
#include "sadatom/basis.h"
#include "general/atomdb.h"
#include "PolynomialBasis.h"
#include <Eigen/Dense>
#include <omp.h>
extern "C" {
#include <xc.h>
}
using namespace vp; using namespace helfem; using SBas=helfem::sadatom::basis::TwoDBasis; using helfem::Matrix; using helfem::Vector;
static std::string N(long long x) { return std::to_string(x); }
static long long fx(double x, double u) { double y=x*u; if(!(std::fabs(y)<2e9)) return 2000000000ll; return std::llround(y); }
static std::string guard(std::function<void()> f) { try { f(); return "ok"; } catch(std::logic_error &) { return "logic_error"; } catch(std::exception &) { return "error"; } }
typedef std::vector<double> Poly;
static Poly mul(const Poly & a, const Poly & b) { Poly c(a.size()+b.size()-1,0.0); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<b.size();j++) c[i+j]+=a[i]*b[j]; return c; }
static Poly add(Poly a, const Poly & b, double f) { if(a.size()<b.size()) a.resize(b.size(),0.0); for(size_t i=0;i<b.size();i++) a[i]+=f*b[i]; return a; }
static Poly der(const Poly & a) { Poly c(std::max<size_t>(1,a.size()-1),0.0); for(size_t i=1;i<a.size();i++) c[i-1]=i*a[i]; return c; }
static double val(const Poly & a, double x) { double s=0; for(size_t i=a.size();i-->0;) s=s*x+a[i]; return s; }
struct Orb { int l; int qa,qb; Poly w; };
static std::string kind; static double R; static std::vector<Orb> orbs; static std::unique_ptr<SBas> sb; static int Z;
static Poly dens(int sp) { Poly p(1,0.0); for(auto & o: orbs) p=add(p,mul(o.w,o.w), sp==0? o.qa+o.qb : sp==1? o.qa : o.qb); return p; }
// polynomial of degree deg through the points, by Chebyshev least squares; coefficients in units 10^-3 and relative residual in 10^-9
static std::string fitp(const std::vector<double> & x, const std::vector<double> & y, int deg) {
  size_t n=x.size(); Matrix A(n,deg+1); Vector Y(n); double s=0; for(size_t i=0;i<n;i++) { double t=2*x[i]/R-1; A(i,0)=1; if(deg) A(i,1)=t; for(int k=2;k<=deg;k++) A(i,k)=2*t*A(i,k-1)-A(i,k-2); Y(i)=y[i]; s=vp::worst(s,std::fabs(y[i])); }
  Vector c=A.colPivHouseholderQr().solve(Y); double res=(A*c-Y).cwiseAbs().maxCoeff<Eigen::PropagateNaN>()/vp::worst(s,1.0); if(!std::isfinite(res)) res=1e9;
  Poly T0{1.0},T1{-1.0,2.0/R},p(1,0.0); p=add(p,T0,c(0)); if(deg) p=add(p,T1,c(1)); for(int k=2;k<=deg;k++) { Poly T2=add(mul(Poly{-2.0,4.0/R},T1),T0,-1.0); p=add(p,T2,c(k)); T0=T1; T1=T2; }
  std::vector<long long> v; for(double z: p) v.push_back(fx(z,1e3)); return "\"c\":"+arr(v)+",\"res\":"+N(fx(res,1e9)); }
static Vector coef(const std::function<Matrix(size_t)> & bf, const std::function<Vector(size_t)> & rr, const std::function<void(size_t,size_t&,size_t&)> & idx, size_t nel, size_t nbf, const Poly & w, double & err) {
  Eigen::Index np=0; for(size_t e=0;e<nel;e++) np+=rr(e).size(); Matrix A=Matrix::Zero(np,nbf); Vector y(np); Eigen::Index k=0; for(size_t e=0;e<nel;e++) { Matrix B=bf(e); Vector r=rr(e); size_t i0,i1; idx(e,i0,i1); for(Eigen::Index i=0;i<r.size();i++,k++) { A.block(k,i0,1,i1-i0+1)=B.row(i)*r(i); y(k)=val(w,r(i))*r(i); } }
  Vector c=A.colPivHouseholderQr().solve(y); err=(A*c-y).cwiseAbs().maxCoeff<Eigen::PropagateNaN>(); return c; }
static Vector coef(const atomic::basis::FEMRadialBasis & b, const Poly & w, double & err) { return coef([&](size_t e){ return Matrix(b.get_bf(e)); },[&](size_t e){ return Vector(b.get_r(e)); },[&](size_t e, size_t & i, size_t & j){ b.get_idx(e,i,j); },b.Nel(),b.Nbf(),w,err); }
static std::vector<Vector> cs; static double fiterr;
static void prepare() { if(cs.size()==orbs.size()) return; const atomic::basis::FEMRadialBasis & b= kind=="sad"? sb->get_radial() : atomdb::Atom(1).basis(); for(size_t i=cs.size();i<orbs.size();i++) { double e; cs.push_back(coef(b,orbs[i].w,e)); fiterr=vp::worst(fiterr,e); } }
static Matrix P(int sp) { prepare(); size_t n=sb->get_radial().Nbf(); Matrix p=Matrix::Zero(n,n); for(size_t i=0;i<orbs.size();i++) p+=(sp==0? orbs[i].qa+orbs[i].qb : sp==1? orbs[i].qa : orbs[i].qb)*cs[i]*cs[i].transpose(); return p; }
// the table's storage is not constant in the stand-in
static atomdb::Atom table() { prepare(); int base=8, k=0; int * norb=const_cast<int*>(&atomdb::data::norb[Z-1][0]), * off=const_cast<int*>(&atomdb::data::offset[Z-1][0]); double * occ=const_cast<double*>(atomdb::data::occupations), * co=const_cast<double*>(atomdb::data::coefficients); for(int l=0;l<4;l++) { norb[l]=0; off[l]=base+k; for(size_t i=0;i<orbs.size();i++) if(orbs[i].l==l) { occ[base+k]=orbs[i].qa+orbs[i].qb; for(int j=0;j<8;j++) co[(base+k)*8+j]=cs[i](j); k++; norb[l]++; } } return atomdb::Atom(Z); }
static std::vector<double> pts() { std::vector<double> x; for(int i=1;i<=60;i++) x.push_back(R*(0.5-0.5*std::cos(M_PI*i/61.0))); x.push_back(0.5); x.push_back(2.0); return x; }
// gradient-corrected potential times r of spin s from the exact densities by differences
static double oracle(double r, int s, bool restricted, int xf, int cf) { Poly a=dens(1),b=dens(2); if(restricted) { a=dens(0); for(auto & x: a) x/=2; b=a; } Poly da=der(a),db=der(b);
  auto f=[&](double x, double & vr, double & fl) { double rr[2]={val(a,x)/(4*M_PI),val(b,x)/(4*M_PI)}, g[2]={val(da,x)/(4*M_PI),val(db,x)/(4*M_PI)}, sg[3]={g[0]*g[0],g[0]*g[1],g[1]*g[1]}; vr=0; double vs[3]={0,0,0}; for(int id: {xf,cf}) if(id>0) { xc_func_type F; xc_func_init(&F,id,XC_POLARIZED); double v[2]={0,0},w[3]={0,0,0}; if(F.info->family==XC_FAMILY_LDA) xc_lda_vxc(&F,1,rr,v); else xc_gga_vxc(&F,1,rr,sg,v,w); xc_func_end(&F); vr+=v[s]; for(int i=0;i<3;i++) vs[i]+=w[i]; } fl=x*x*(2*vs[s==0?0:2]*g[s]+vs[1]*g[1-s]); };
  double h=1e-3*std::min(r,R-r),v,F[4],t; f(r,v,t); f(r-2*h,t,F[0]); f(r-h,t,F[1]); f(r+h,t,F[2]); f(r+2*h,t,F[3]); double d=(8*(F[2]-F[1])-(F[3]-F[0]))/(12*h); return r*(v-d/(r*r)); }
static double dmin(double r, bool restricted) { double a=val(dens(restricted?0:1),r), b=val(dens(restricted?0:2),r); return std::min(a,b); }
int main() {
  init(); omp_set_num_threads(1);
  return loop([&]{ kind=""; orbs.clear(); cs.clear(); sb.reset(); fiterr=0; emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    std::string H="{\"e\":"+q(a[0]);
    if(a[0]=="new") { // new sad R rad nel | new db Z
      kind=a[1]; orbs.clear(); cs.clear(); if(kind=="sad") { R=std::stoi(a[2]); int rad=std::stoi(a[3]),nel=std::stoi(a[4]); Z=1; static const int F[]={4,4,3,5,100,8}, NN[]={6,9,7,4,6,4}; auto p=std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(F[rad],NN[rad])); Vector bv(nel+1); for(int i=0;i<=nel;i++) bv(i)=R*std::pow(double(i)/nel,1.3); sb.reset(new SBas(1,modelpotential::POINT_NUCLEUS,0.0,p,false,50,bv,5)); }
      else { R=6; Z=std::stoi(a[2]); }
      emit(H+",\"k\":"+q(kind)+",\"R\":"+N((long long)R)+"}"); return; }
    if(a[0]=="add") { Orb o; o.l=std::stoi(a[1]); o.qa=std::stoi(a[2]); o.qb=std::stoi(a[3]); Poly g{std::stod(a[4]),std::stod(a[5]),std::stod(a[6])}; if(kind=="db") g[2]=0; o.w=mul(Poly{R,-1.0},g); orbs.push_back(o); emit(H+",\"l\":"+N(o.l)+",\"qa\":"+N(o.qa)+",\"qb\":"+N(o.qb)+",\"g\":["+N((long long)g[0])+","+N((long long)g[1])+","+N((long long)g[2])+"]}"); return; }
    if(a[0]=="swap") { for(auto & o: orbs) std::swap(o.qa,o.qb); emit(H+"}"); return; }
    if(a[0]=="obs") { std::string o=a[1]; H+=",\"o\":"+q(o); std::string body; int deg= o=="hart"||o=="encl"? 9 : 8;
      std::string r=guard([&]{
        if(kind=="sad") { Vector rv=sb->radii(); std::vector<double> x(rv.data()+1,rv.data()+rv.size()); auto tail=[&](const Vector & v) { return std::vector<double>(v.data()+1,v.data()+v.size()); };
          auto put=[&](const Vector & v, std::function<double(double)> f, bool first) { std::vector<double> y=tail(v); if(y.size()!=x.size()) throw std::runtime_error("length"); for(size_t i=0;i<y.size();i++) y[i]*=f(x[i]); body=fitp(x,y,deg); if(first) body+=",\"at0\":"+N(fx(v(0),1e3)); };
          auto one=[](double){ return 1.0; }; auto id=[](double t){ return t; }; auto sq=[](double t){ return t*t; };
          if(o=="rho") put(sb->electron_density(P(0)),one,true);
          else if(o=="rhob") put(sb->electron_density(P(2)),one,true);
          else if(o=="rhor2") put(sb->electron_density(P(0),true),one,false);
          else if(o=="grad") put(sb->electron_density_gradient(P(0)),one,false);
          else if(o=="lap") put(sb->electron_density_laplacian(P(0)),id,false);
          else if(o=="tau") { prepare(); size_t n=sb->get_radial().Nbf(); helfem::Cube Pl; for(int l=0;l<6;l++) Pl.push_back(Matrix::Zero(n,n)); for(size_t i=0;i<orbs.size();i++) Pl[orbs[i].l]+=(orbs[i].qa+orbs[i].qb)*cs[i]*cs[i].transpose(); put(2.0*sb->kinetic_energy_density(Pl),sq,false); }
          else if(o=="orb"||o=="dorb"||o=="d2orb") { prepare(); Matrix C(cs[0].size(),cs.size()); for(size_t i=0;i<cs.size();i++) C.col(i)=cs[i]; Matrix V= o=="orb"? sb->orbitals(C) : o=="dorb"? sb->orbitals_derivative(C) : sb->orbitals_second_derivative(C); if((size_t) V.cols()!=cs.size()) throw std::runtime_error("columns"); put(V.col(V.cols()-1),one,o=="orb"); }
          else if(o=="hart") put(sb->coulomb_screening(P(0)),one,true);
          else if(o=="lda"||o=="ldaa"||o=="ldab") { double f; Vector v; if(o=="lda") { v=sb->xc_screening(P(0),1,0); f=M_PI/3; } else { Matrix V=sb->xc_screening(P(1),P(2),1,0); v=V.col(o=="ldaa"?0:1); f=M_PI/6; } std::vector<double> y=tail(v); for(size_t i=0;i<y.size();i++) { double z=y[i]/x[i]; y[i]=-f*4*M_PI*z*z*z; } body=fitp(x,y,deg); }
          else if(o=="nuc") { body="\"v\":"+N(fx(4*M_PI*sb->nuclear_density(P(0)),1e3))+",\"g\":"+N(fx(4*M_PI*sb->nuclear_density_gradient(P(0)),1e3)); }
          else if(o=="nel") { Vector w=sb->quadrature_weights(), n=sb->electron_density(P(0),true); double s=0; bool up=true; for(Eigen::Index i=1;i<rv.size();i++) { s+=w(i)*n(i); up=up && rv(i)>rv(i-1); } body="\"v\":"+N(fx(s,1e3))+",\"up\":"+b(up && rv(0)==0 && w.size()==rv.size() && n.size()==rv.size() && rv(rv.size()-1)<R); }
          else if(o=="countr"||o=="vdw") { int k=std::stoi(a[2]); double r0=R*k/16.0; Poly d=dens(0); double res; if(o=="countr") { Poly u=mul(mul(Poly{0.0,1.0},Poly{0.0,1.0}),d); double s=0; for(size_t i=0;i<u.size();i++) s+=u[i]*(std::pow(R,i+1)-std::pow(r0,i+1))/(i+1); res=sb->electron_count_radius(P(0),s); } else res=sb->vdw_radius(P(0),val(d,r0)/(4*M_PI)); body="\"n\":"+N(k)+",\"v\":"+N(fx(res,1e6)); }
          else if(o=="novdw") body="\"v\":"+N(fx(sb->vdw_radius(P(0),1e9),1e6));
          else if(o=="maxr") { bool w=std::stoi(a[2]); Poly d=dens(0); if(w) d=mul(mul(Poly{0.0,1.0},Poly{0.0,1.0}),d); double res=sb->electron_density_maximum_radius(P(0),w), m=0; for(int i=0;i<=4000;i++) m=vp::worst(m,val(d,R*i/4000.0)); body=std::string("\"w\":")+b(w)+",\"v\":"+N(fx(res,1e6))+",\"low\":"+N(vp::worst(0ll,fx((m-val(d,res))/m,1e9))); }
          else if(o=="gga") { int xf=std::stoi(a[2]),cf=std::stoi(a[3]); bool res=std::stoi(a[4]); Matrix V; if(res) V=sb->xc_screening(P(0),xf,cf); else V=sb->xc_screening(P(1),P(2),xf,cf); double e=0; int n=0; for(Eigen::Index i=1;i<rv.size();i+=7) { double t=rv(i); if(t<0.05*R||t>0.9*R||dmin(t,res)<0.05) continue; for(int s=0;s<V.cols();s++) { double z=oracle(t,s,res,xf,cf); e=vp::worst(e,std::fabs(V(i,s)-z)/(0.1+std::fabs(z))); n++; } } body="\"n\":"+N(n)+",\"cols\":"+N(V.cols())+",\"err\":"+N(fx(e,1e6)); }
        } else { atomdb::Atom at=table(); std::vector<double> x=pts(),y; auto put=[&](std::function<double(double)> f) { y.clear(); for(double t: x) y.push_back(f(t)); body=fitp(x,y,deg); };
          if(o=="rho") put([&](double t){ return 4*M_PI*at.density(t); });
          else if(o=="rhor2") put([&](double t){ return at.radial_density(t); });
          else if(o=="grad") put([&](double t){ return 4*M_PI*at.density_gradient(t); });
          else if(o=="lap") put([&](double t){ return 4*M_PI*t*at.density_laplacian(t); });
          else if(o=="encl") put([&](double t){ return at.enclosed_charge(t); });
          else if(o=="hart") { put([&](double t){ return at.hartree_screening(t); }); body+=",\"at0\":"+N(fx(at.hartree_screening(0.0),1e3)); }
          else if(o=="lda") put([&](double t){ double z=at.xc_screening(t,1,0)/t; return -M_PI/3*4*M_PI*z*z*z; });
          else if(o=="nel") body="\"v\":"+N(fx(at.nelectrons(),1e3))+",\"up\":"+b(at.charge()==Z && at.enclosed_charge(R)==at.nelectrons() && at.enclosed_charge(2*R)==at.nelectrons() && at.hartree_screening(R)==at.nelectrons() && at.hartree_screening(3*R)==at.nelectrons());
          else if(o=="out") { double s=0; for(double t: {-1.0,0.0,R+1e-9,2*R}) s=vp::worst({s,std::fabs(at.density(t)),std::fabs(at.radial_density(t)),std::fabs(at.density_gradient(t)),std::fabs(at.density_laplacian(t)),std::fabs(at.xc_screening(t,1,0))}); for(double t: {-1.0,0.0}) s=vp::worst({s,std::fabs(at.enclosed_charge(t)),std::fabs(at.hartree_screening(t))}); body="\"v\":"+N(fx(s,1e9)); }
          else if(o=="gga") { int xf=std::stoi(a[2]),cf=std::stoi(a[3]); at.xc_screening(1.0,1,7); double e=0; int n=0; for(double t: x) { if(t<0.05*R||t>0.9*R||dmin(t,true)<0.05) continue; double z=oracle(t,0,true,xf,cf); e=vp::worst(e,std::fabs(at.xc_screening(t,xf,cf)-z)/(0.1+std::fabs(z))); double l=at.xc_screening(t,1,0); e=vp::worst(e,std::fabs(Z-at.hartree_screening(t)-z-at.effective_charge(t,xf,cf))/(0.1+std::fabs(z))); e=vp::worst(e,std::fabs(at.xc_screening(t,1,0)-l)); n++; } body="\"n\":"+N(n)+",\"cols\":1,\"err\":"+N(fx(e,1e6)); }
        }
        if(o=="mgga") { if(kind=="sad") sb->xc_screening(P(0),202,0); else table().xc_screening(1.37,202,0); }
      });
      emit(H+",\"k\":"+q(kind)+",\"r\":"+q(r)+(body.empty()?"":","+body)+",\"fit\":"+N(fx(fiterr,1e9))+"}"); return; }
    emit("{\"e\":\"unknown\"}");
  });
}
