// Nuclear models, tabulated model potentials and confinement potentials.
#include "vp.h"
#include "atomic/TwoDBasis.h"
#include "atomic/basis.h"
#include "sadatom/basis.h"
#include "general/model_potential.h"
#include "general/gsz.h"
#include "general/sap.h"
#include "general/atomdb.h"
#include "PointNucleus.h"
#include "GaussianNucleus.h"
#include "HollowNucleus.h"
#include "SphericalNucleus.h"
#include "RegularizedNucleus.h"
#include "PolynomialBasis.h"
#include <omp.h>
#include <Eigen/Dense>
using namespace vp; using namespace helfem; namespace mp=helfem::modelpotential;
using ABas=helfem::atomic::basis::TwoDBasis; using SBas=helfem::sadatom::basis::TwoDBasis; using helfem::Matrix; using helfem::Vector;
static std::string N(long long x) { return std::to_string(x); }
static long long fx(double x, double u) { double y=x*u; if(!(std::fabs(y)<2e9)) return 2000000000ll; return std::llround(y); }
static Eigen::VectorXi toi(const std::vector<int> & v) { Eigen::VectorXi r(v.size()); for(size_t i=0;i<v.size();i++) r(i)=v[i]; return r; }
static std::string guard(std::function<void()> f) { try { f(); return "ok"; } catch(std::logic_error &) { return "logic_error"; } catch(std::exception &) { return "error"; } }
static mp::nuclear_model_t model(const std::string & k) { return k=="pt"? mp::POINT_NUCLEUS : k=="ga"? mp::GAUSSIAN_NUCLEUS : k=="sp"? mp::SPHERICAL_NUCLEUS : k=="ho"? mp::HOLLOW_NUCLEUS : k=="re"? mp::REGULARIZED_NUCLEUS : mp::NOSUCH_NUCLEUS; }
// the radius parameter of a model whose own parameter (mu, R0, R, a) is p/128
template <typename T> T rms(const std::string & k, int p) { T v=T(p)/T(128); return k=="ga"? T(std::sqrt(T(1.5)))/v : k=="sp"? T(std::sqrt(T(3)/T(5)))*v : v; }
struct Any { virtual ~Any() {} virtual double q(double r)=0; virtual double par()=0; virtual void set(int p)=0; virtual std::vector<double> bp(double a, double b)=0; };
template <typename T> struct Pot : Any { std::string k; int Z; std::unique_ptr<mp::ModelPotentialT<T>> p;
  Pot(const std::string & k_, int Z_, int par, bool direct): k(k_),Z(Z_) { T r=rms<T>(k,par); if(!direct) p.reset(mp::get_nuclear_model<T>(model(k),Z,r)); else if(k=="pt") p.reset(new mp::PointNucleusT<T>(Z)); else if(k=="ga") p.reset(new mp::GaussianNucleusT<T>(Z,r)); else if(k=="sp") p.reset(new mp::SphericalNucleusT<T>(Z,r)); else if(k=="ho") p.reset(new mp::HollowNucleusT<T>(Z,r)); else p.reset(new mp::RegularizedNucleusT<T>(Z,r)); }
  double q(double r) override { return (double) (-p->V(T(r))*T(r)/T(Z)); }
  double par() override { if(auto x=dynamic_cast<mp::GaussianNucleusT<T>*>(p.get())) return (double) x->get_mu(); if(auto x=dynamic_cast<mp::SphericalNucleusT<T>*>(p.get())) return (double) x->get_R0(); if(auto x=dynamic_cast<mp::HollowNucleusT<T>*>(p.get())) return (double) x->get_R(); if(auto x=dynamic_cast<mp::RegularizedNucleusT<T>*>(p.get())) return (double) x->get_a(); return 0; }
  void set(int n) override { T v=T(n)/T(128); if(auto x=dynamic_cast<mp::GaussianNucleusT<T>*>(p.get())) x->set_mu(v); if(auto x=dynamic_cast<mp::SphericalNucleusT<T>*>(p.get())) x->set_R0(v); if(auto x=dynamic_cast<mp::HollowNucleusT<T>*>(p.get())) x->set_R(v); if(auto x=dynamic_cast<mp::RegularizedNucleusT<T>*>(p.get())) x->set_a(v); }
  std::vector<double> bp(double a, double b) override { std::vector<double> r; for(auto x: p->breakpoints(T(a),T(b))) r.push_back((double) x); return r; } };
static Any * make(const std::string & prec, const std::string & k, int Z, int par, bool direct) { if(prec=="l") return new Pot<long double>(k,Z,par,direct);
#ifdef HELFEM_HAVE_FLOAT128
  if(prec=="q" && k!="re") return new Pot<_Float128>(k,Z,par,direct);
#endif
  return new Pot<double>(k,Z,par,direct); }
/* sizes in units 1/128 */ static std::unique_ptr<Any> cur; static std::string ck; static int cz=1;
// composite Gauss rule
static double integ(std::function<double(double)> f, double a, double b, int n) { double h=(b-a)/n,s=0; const double x[3]={-std::sqrt(3.0/5),0,std::sqrt(3.0/5)},w[3]={5.0/9,8.0/9,5.0/9}; for(int i=0;i<n;i++) for(int j=0;j<3;j++) s+=w[j]*f(a+(i+0.5+0.5*x[j])*h); return s*h/2; }
static std::shared_ptr<const polynomial_basis::PolynomialBasis> pol(int rad) { static const int F[]={4,4,3,5,100,8}, NN[]={6,9,7,4,6,4}; return std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(F[rad],NN[rad])); }
// u(r)=r(R-r) on the nel elements of [0,R] as a coefficient vector; the fit error is returned
static Vector fit(const SBas & b, double R, double & err) { Vector r=b.radii(); std::vector<double> rr,ww; Eigen::Index n=b.Nbf(); auto O=b.orbitals(Matrix::Identity(n,n)); Eigen::Index np=r.size(); Matrix B(np-1,n); Vector y(np-1); for(Eigen::Index i=1;i<np;i++) { B.row(i-1)=O.row(i)*r(i); y(i-1)=r(i)*(R-r(i)); } Vector c=B.colPivHouseholderQr().solve(y); err=(B*c-y).cwiseAbs().maxCoeff<Eigen::PropagateNaN>(); return c; }
int main() {
  init(); omp_set_num_threads(1);
  return loop([&]{ cur.reset(); emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    std::string H="{\"e\":"+q(a[0]);
    if(a[0]=="new") { // new k Z par precision direct
      std::string k=a[1]; int Z=std::stoi(a[2]),p=std::stoi(a[3]); std::unique_ptr<Any> x; std::string r=guard([&]{ x.reset(make(a[4],k,Z,p,a[5]=="1")); }); if(r=="ok") { cur=std::move(x); ck=k; cz=Z; }
      emit(H+",\"k\":"+q(k)+",\"p\":"+N(p)+",\"r\":"+q(r)+"}"); return; }
    if(a[0]=="set") { int p=std::stoi(a[1]); cur->set(p); emit(H+",\"p\":"+N(p)+"}"); return; }
    if(a[0]=="par") { emit(H+",\"v\":"+N(fx(cur->par(),1e7))+"}"); return; }
    if(a[0]=="q") { int k=std::stoi(a[1]); emit(H+",\"k\":"+N(k)+",\"v\":"+N(fx(cur->q(k/128.0),1e9))+"}"); return; }
    if(a[0]=="near") { // the charge missing just inside, and just outside, the edge of a nucleus with one: r = (1 -+ 1/m) times its size
      double m=std::stod(a[1]), P=cur->par(), in=1-cur->q(P*(1-1/m)), outs=std::fabs(1-cur->q(P*(1+1/m))); emit(H+",\"m\":"+a[1]+",\"lin\":"+N(fx(in*m,1e6))+",\"quad\":"+N(fx(in*m*m,1e6))+",\"out\":"+N(fx(outs,1e12))+"}"); return; }
    if(a[0]=="breaks") { int A=std::stoi(a[1]),B=std::stoi(a[2]); std::vector<long long> v; for(double x: cur->bp(A/128.0,B/128.0)) v.push_back(fx(x,1e7)); emit(H+",\"a\":"+N(A)+",\"b\":"+N(B)+",\"v\":"+arr(v)+"}"); return; }
    if(a[0]=="scan") { // bounds, monotonicity and smoothness over many radii, agreement with a fresh object of the other precision
      int p=std::stoi(a[1]); double L= ck=="ga"? 128.0/p : ck=="re"? 128.0/p/cz : ck=="pt"? 1.0 : p/128.0; std::unique_ptr<Any> o(make("l",ck,cz,p,false)), d(make("d",ck,cz,p,true)); double agree=0,jump=0,out=0,gref=0; bool neg=true,above=true,rising=true; double last=-1e300;
      for(int i=0;i<=3000;i++) { double r=L*std::pow(10.0,-7+9.0*i/3000), c=cur->q(r), V=-c/r; neg=neg && V<0; if(ck!="re") { above=above && c<=1+1e-12; rising=rising && V>=last-1e-11*std::fabs(V); } last=V; if(ck=="ga") { double e=(double) erfl((long double) p/128.0L*(long double) r); gref=vp::worst(gref,std::fabs(c-e)/e); }
        for(Any * x: {o.get(),d.get()}) agree=vp::worst(agree,std::fabs(x->q(r)-c)/std::fabs(c)); if(r>8*L) out=vp::worst(out,std::fabs(c-1)); double c2=cur->q(r*(1+1e-7)); jump=vp::worst(jump,std::fabs(c2/(r*(1+1e-7))-c/r)/(std::fabs(c/r)+ (ck=="re"? cz : 0))); }
      emit(H+",\"k\":"+q(ck)+",\"neg\":"+b(neg)+",\"above\":"+b(above)+",\"rising\":"+b(rising)+",\"agree\":"+N(fx(agree,1e15))+",\"jump\":"+N(fx(jump,1e9))+",\"out\":"+N(fx(out,1e9))+",\"gref\":"+N(fx(gref,1e12))+"}"); return; }
    if(a[0]=="moment") { // the difference to the point nucleus measures the mean square radius; the Gaussian against its own charge cloud
      int p=std::stoi(a[1]); double R=rms<double>(ck,p), edge= ck=="sp"? p/128.0 : R, top= ck=="ga"? 14*R : edge; double m=integ([&](double r){ return (1-cur->q(r))*r; },0,edge,4000); if(ck=="ga") m+=integ([&](double r){ return (1-cur->q(r))*r; },edge,top,8000);
      double cloud=0; if(ck=="ga") { double mu=p/128.0; auto rho=[&](double s){ return 4*mu*mu*mu/std::sqrt(M_PI)*s*s*std::exp(-mu*mu*s*s); }; for(double t: {0.05,0.3,0.7,1.1,2.0,3.5}) { double r=t/mu; double want=integ(rho,0,r,4000)+r*integ([&](double s){ return rho(s)/s; },r,r+9/mu,8000); cloud=vp::worst(cloud,std::fabs(want-cur->q(r))); } }
      emit(H+",\"k\":"+q(ck)+",\"m\":"+N(fx(6*m/(R*R),1e6))+",\"cloud\":"+N(fx(cloud,1e9))+"}"); return; }
    if(a[0]=="norm") { // regularised potential: the state of energy -1/2 that decays like the hydrogen one has unit norm and no kink at the origin
      double h=1e-3/cz, Z=cz; auto V=[&](double r){ return -cur->q(r)/r*Z; }; long n=20000; double r=h*n, A0=std::pow(Z,1.5)/std::sqrt(M_PI), u=r*A0*std::exp(-Z*r), v=(1-Z*r)*A0*std::exp(-Z*r), s=0;
      auto f=[&](double x, double y){ return 2*(V(x)+0.5*Z*Z)*y; }; std::vector<double> us(n+1); us[n]=u; double x=r; for(long i=n;i>0;i--) { double H_=-h; double k1u=v,k1v=f(x,u),k2u=v+H_/2*k1v,k2v=f(x+H_/2,u+H_/2*k1u),k3u=v+H_/2*k2v,k3v=f(x+H_/2,u+H_/2*k2u),x4=vp::worst(x+H_,1e-9*h),k4u=v+H_*k3v,k4v=f(x4,u+H_*k3u); u+=H_/6*(k1u+2*k2u+2*k3u+k4u); v+=H_/6*(k1v+2*k2v+2*k3v+k4v); x+=H_; us[i-1]=u; }
      for(long i=0;i<=n;i++) s+=us[i]*us[i]*(i==0||i==n? 1 : i%2? 4 : 2); s*=h/3*4*M_PI; emit(H+",\"n\":"+N(fx(s,1e6))+",\"u0\":"+N(fx(us[0],1e6))+"}"); return; }
    if(a[0]=="mat") { // mat k Z p rad nel R : expectation value of a model potential in u(r)=r(R-r), on an averaged atom basis and on every channel of an atomic one
      std::string k=a[1]; int Z=std::stoi(a[2]),p=std::stoi(a[3]),rad=std::stoi(a[4]),nel=std::stoi(a[5]),R=std::stoi(a[6]); auto P=pol(rad); Vector bv=Vector::LinSpaced(nel+1,0,R); double Rr=rms<double>(k,p); SBas s(Z,model(k),Rr,P,false,5*P->get_nprim()+4,bv,0); double err; Vector c=fit(s,R,err);
      std::unique_ptr<mp::ModelPotential> m(mp::get_nuclear_model<double>(model(k),Z,Rr)); double v1=c.dot(s.nuclear()*c), v2=c.dot(s.model_potential(m.get())*c), v0=c.dot(s.overlap()*c); ABas A(Z,model(k),Rr,P,false,5*P->get_nprim()+4,bv,toi({0,1,1}),toi({0,1,0}),0,0,0.0);
      Matrix M=A.nuclear(), M2=A.model_potential(m.get()), O=s.nuclear(); double d=(M-M2).norm()/M.norm(); size_t n=s.Nbf(); size_t at=0; for(size_t ch=0;ch<3 && (size_t) M.rows()==3*n;ch++) for(size_t e=0;e<3;e++) { d=vp::worst(d,(M.block(ch*n,e*n,n,n)-(ch==e? O : Matrix::Zero(n,n))).norm()/O.norm()); at++; }
      emit(H+",\"k\":"+q(k)+",\"Z\":"+N(Z)+",\"p\":"+N(p)+",\"R\":"+N(R)+",\"fit\":"+N(fx(err,1e9))+",\"v\":"+N(fx(v1,1e5))+",\"w\":"+N(fx(v2,1e5))+",\"s\":"+N(fx(v0,1e5))+",\"chan\":"+N(fx(d,1e9))+",\"nch\":"+N(at)+"}"); return; }
    if(a[0]=="conf") { // conf iconf N r0 V s(halves) R rad nel
      int ic=std::stoi(a[1]),n=std::stoi(a[2]),r0=std::stoi(a[3]),V=std::stoi(a[4]),s2=std::stoi(a[5]),R=std::stoi(a[6]),rad=std::stoi(a[7]),nel=std::stoi(a[8]); auto P=pol(rad); Vector bv=Vector::LinSpaced(nel+1,0,R); double sh=s2/2.0; SBas s(1,mp::POINT_NUCLEUS,0.0,P,false,5*P->get_nprim()+4,bv,0); double err; Vector c=fit(s,R,err); Matrix C; double v=0,ref=0,d=0;
      ABas A(1,mp::POINT_NUCLEUS,0.0,P,false,5*P->get_nprim()+4,bv,toi({0,1,1}),toi({0,1,0}),0,0,0.0);
      std::string r=guard([&]{ C=s.confinement(n,r0,ic,V,sh); }), ra=guard([&]{ A.confinement(n,r0,ic,V,sh); });
      if(r=="ok" && ra=="ok") { v=c.dot(C*c); Matrix M=A.confinement(n,r0,ic,V,sh); Eigen::Index m=C.rows(); double w=vp::worst(C.norm(),1e-30); for(int i=0;i<3;i++) for(int j=0;j<3;j++) d=vp::worst(d,(M.block(i*m,j*m,m,m)-(i==j? C : Matrix::Zero(m,m))).norm()/w); if(ic==0) d=vp::worst(C.norm(),M.norm());
        auto pot=[&](double x)->double { if(x<=sh) return 0; if(ic==2) { double y=(x-sh)/std::abs(r0); if(y<0.5) { double t=1,o=0; for(int k=1;k<=n;k++) t*=y; for(int k=n;k<n+30;k++) { o+=t; t*=y/(k+1); } return o; } double t=1,o=std::exp(y),f=1; for(int k=0;k<n;k++) { o-=t; t*=y/(k+1); f*=k+1; } return o*f; } if(ic==4) return V*std::exp(-(R-sh)/(x-sh))/std::pow(R-x,n); return 0; };
        if(ic==2||ic==4) { auto g=[&](double x){ double u=x*(R-x); return u*u*pot(x); }; ref=integ(g,sh,R,20000); } }
      emit(H+",\"ic\":"+N(ic)+",\"n\":"+N(n)+",\"r0\":"+N(r0)+",\"V\":"+N(V)+",\"s2\":"+N(s2)+",\"R\":"+N(R)+",\"r\":"+q(r)+",\"ra\":"+q(ra)+",\"fit\":"+N(fx(err,1e9))+",\"v\":"+N(fx(v,1e5))+",\"rel\":"+N(ref!=0? fx((v-ref)/ref,1e9) : 0)+",\"chan\":"+N(fx(d,1e9))+"}"); return; }
    if(a[0]=="tab") { // tab TF|GSZ|SAP Z : potential is the effective charge over the distance, attractive and rising
      int Z=std::stoi(a[2]); std::unique_ptr<mp::ModelPotential> m; if(a[1]=="TF") m.reset(new mp::TFAtom(Z)); else if(a[1]=="GSZ") m.reset(new mp::GSZAtom(Z)); else m.reset(new mp::SAPAtom(Z)); double dz=0,Hz=0; if(a[1]=="GSZ") GSZ::GSZ_parameters(Z,dz,Hz); double e=0,last=-1e300; bool neg=true,rise=true; for(int i=0;i<=600;i++) { double r=std::pow(10.0,-5+6.5*i/600), V=m->V(r), w= a[1]=="TF"? GSZ::Z_thomasfermi(r,Z) : a[1]=="GSZ"? GSZ::Z_GSZ(r,Z,dz,Hz) : ::sap_effective_charge(Z,r); e=vp::worst(e,std::fabs(V*r+w)/Z); neg=neg && V<=0; rise=rise && V>=last-1e-9*std::fabs(last); last=V; }
      emit(H+",\"m\":"+q(a[1])+",\"Z\":"+N(Z)+",\"err\":"+N(fx(e,1e9))+",\"near\":"+N(fx(-m->V(1e-7)*1e-7/Z,1e6))+",\"far\":"+N(fx(-m->V(60.0)*60.0,1e6))+",\"neg\":"+b(neg)+",\"rise\":"+b(rise)+",\"bp\":"+N(m->breakpoints(0,100).size())+"}"); return; }
    if(a[0]=="sap") { // sap Z x c a b(halves): potential from the tabulated wave function
      int Z=std::stoi(a[1]),xf=std::stoi(a[2]),cf=std::stoi(a[3]),A=std::stoi(a[4]),B=std::stoi(a[5]); double e=0; bool zero=true; std::vector<long long> bp; std::string r=guard([&]{ std::unique_ptr<mp::SAPFEAtom> m(xf==1&&cf==0&&Z%2? new mp::SAPFEAtom(Z) : new mp::SAPFEAtom(Z,xf,cf)); std::unique_ptr<atomdb::Atom> at; if(Z) at.reset(new atomdb::Atom(Z)); for(double x: {0.01,0.3,0.5,0.9,2.0,2.7,5.5,6.0,8.0}) { double V=m->V(x); zero=zero && V==0; if(at) e=vp::worst(e,std::fabs(V*x+at->effective_charge(x,xf,cf))); } for(double x: m->breakpoints(A/2.0,B/2.0)) bp.push_back(fx(x,2)); });
      emit(H+",\"Z\":"+N(Z)+",\"a\":"+N(A)+",\"b\":"+N(B)+",\"r\":"+q(r)+",\"zero\":"+b(zero)+",\"err\":"+N(fx(e,1e9))+",\"bp\":"+arr(bp)+"}"); return; }
    emit("{\"e\":\"bad\"}");
  });
}
