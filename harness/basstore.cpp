// Stores and fetches real atomic and diatomic bases through checkpoint files.
#include "vp.h"
#include "general/checkpoint.h"
#include "PolynomialBasis.h"
using namespace vp;
using ABas=helfem::atomic::basis::TwoDBasis; using DBas=helfem::diatomic::basis::TwoDBasis;
static std::string hx(double x) { char b[64]; snprintf(b,64,"%a",x); return q(b); }
static std::string digest(const helfem::Matrix & m) {
  uint64_t h=1469598103934665603ull; auto mix=[&](const void * p, size_t n) { for(size_t i=0;i<n;i++) { h^=((const unsigned char *)p)[i]; h*=1099511628211ull; } };
  long r=m.rows(), c=m.cols(); mix(&r,sizeof r); mix(&c,sizeof c); for(long j=0;j<c;j++) for(long i=0;i<r;i++) { double x=m(i,j); if(x==0) x=0; mix(&x,sizeof x); }
  char b[32]; snprintf(b,32,"%016lx",(unsigned long) h); return q(b);
}
struct Cfg { std::string kind; int poly,nn,zeroder,model,z0,z1,z2,nel,dq; std::vector<int> l,m; };
static uint64_t seed=1;
static helfem::Vector bval(const Cfg & c) { Rng r(seed*911+c.nel*31+c.dq); helfem::Vector b(c.nel+1); b(0)=0; for(int i=1;i<=c.nel;i++) b(i)=b(i-1)+0.05+2.0*r.uni(); return b; }
static int nquad(const Cfg & c) { int noverlap= c.poly==5||c.poly==101?2: c.poly==8?3: c.poly==9?4:1; return 5*noverlap*c.nn+c.dq; }
static double rhalf(const Cfg & c) { if(c.kind=="abas") return bval(c)(1); /* off-centre nuclei sit on element boundaries */  Rng r(seed*77+c.z0+c.dq*3+c.z1); return 0.3+2*r.uni(); }
static double rrms(const Cfg & c) { Rng r(seed*13+c.dq); return 0.01+0.3*r.uni(); }
static std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis> poly(const Cfg & c) { return std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(c.poly,c.nn)); }
static Eigen::VectorXi toi(const std::vector<int> & v) { Eigen::VectorXi r(v.size()); for(size_t i=0;i<v.size();i++) r(i)=v[i]; return r; }
static ABas abas(const Cfg & c) { return ABas(c.z0,(helfem::modelpotential::nuclear_model_t) c.model,rrms(c),poly(c),c.zeroder,nquad(c),bval(c),toi(c.l),toi(c.m),c.z1,c.z2,rhalf(c)); }
static DBas dbas(const Cfg & c) { return DBas(c.z0,c.z1,rhalf(c),poly(c),nquad(c),bval(c),toi(c.l),toi(c.m)); }
static std::string dv(const helfem::Vector & v) { std::string s="["; for(int i=0;i<v.size();i++) s+=std::string(i?",":"")+hx(v(i)); return s+"]"; }
static std::string di(const Eigen::VectorXi & v) { std::string s="["; for(int i=0;i<v.size();i++) s+=std::string(i?",":"")+std::to_string(v(i)); return s+"]"; }
static std::string J(const char * k, const std::string & v) { return std::string("\"")+k+"\":"+v; }
static std::string adesc(int Z,int Zl,int Zr,double Rh,int model,double Rr,const helfem::Vector & b,int nq,int pid,int nn,int zd,const Eigen::VectorXi & l,const Eigen::VectorXi & m) {
  return "{"+J("Z",arr(std::vector<int>{Z,Zl,Zr}))+","+J("R",hx(Rh))+","+J("model",std::to_string(model))+","+J("Rrms",hx(Rr))+","+J("bval",dv(b))+","+J("nq",std::to_string(nq))+","+J("poly",arr(std::vector<int>{pid,nn}))+","+J("zd",std::to_string(zd))+","+J("l",di(l))+","+J("m",di(m))+"}"; }
static std::string desc(const ABas & a) { return adesc(a.get_Z(),a.get_Zl(),a.get_Zr(),a.get_Rhalf(),a.get_nuclear_model(),a.get_nuclear_size(),a.get_bval(),a.get_nquad(),a.get_poly_id(),a.get_poly_nnodes(),a.get_zeroder(),a.get_lval(),a.get_mval()); }
static std::string desc(const DBas & a) { return adesc(a.get_Z1(),a.get_Z2(),0,a.get_Rhalf(),0,0,a.get_bval(),a.get_nquad(),a.get_poly_id(),a.get_poly_nnodes(),0,a.get_lval(),a.get_mval()); }
static std::string want(const Cfg & c) { if(c.kind=="abas") return adesc(c.z0,c.z1,c.z2,rhalf(c),c.model,rrms(c),bval(c),nquad(c),c.poly,c.nn,c.zeroder,toi(c.l),toi(c.m)); return adesc(c.z0,c.z1,0,rhalf(c),0,0,bval(c),nquad(c),c.poly,c.nn,0,toi(c.l),toi(c.m)); }
template <class B> std::string mats(const B & x) { return arrs({digest(x.overlap()),digest(x.kinetic()),digest(x.nuclear()),digest(x.dipole_z()),digest(x.quadrupole_zz()),digest(x.Bz_field(0.5))}); }
int main() {
  init(); H5Eset_auto2(H5E_DEFAULT,NULL,NULL);
  std::unique_ptr<Checkpoint> ck;
  auto reset=[&]() { ck.reset(); unlink("b.chk"); ck=std::make_unique<Checkpoint>("b.chk",true,true); emit("{\"e\":\"begin\"}"); };
  return loop(reset,[&](const Args & a, const std::string &) {
    if(a[0]=="seed") { seed=std::stoull(a[1]); return; }
    if(a[0]=="reopen") { ck=nullptr; ck=std::make_unique<Checkpoint>("b.chk",true,false); emit("{\"e\":\"reopen\"}"); return; }
    if(a[0]=="store") {
      Cfg c; c.kind=a[1]; int * f[]={&c.poly,&c.nn,&c.zeroder,&c.model,&c.z0,&c.z1,&c.z2,&c.nel,&c.dq}; for(int i=0;i<9;i++) *f[i]=std::stoi(a[2+i]);
      for(size_t i=11;i+1<a.size();i+=2) { c.l.push_back(std::stoi(a[i])); c.m.push_back(std::stoi(a[i+1])); }
      std::string d="0",mt="[]",r="ok";
      try { if(c.kind=="abas") { auto x=abas(c); d=desc(x); mt=mats(x); ck->write(x); } else { auto x=dbas(c); d=desc(x); mt=mats(x); ck->write(x); } } catch(std::exception & e) { r="err"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"store\",\"k\":"+q(c.kind)+",\"r\":"+q(r)+",\"desc\":"+d+",\"want\":"+want(c)+",\"mats\":"+mt+"}");
      return;
    }
    if(a[0]=="load") {
      std::string d="0",mt="[]",r="ok";
      try { if(a[1]=="abas") { ABas x; ck->read(x); d=desc(x); mt=mats(x); } else { DBas x; ck->read(x); d=desc(x); mt=mats(x); } } catch(std::exception & e) { r="err"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"load\",\"k\":"+q(a[1])+",\"r\":"+q(r)+",\"desc\":"+d+",\"mats\":"+mt+"}");
      return;
    }
  });
}
