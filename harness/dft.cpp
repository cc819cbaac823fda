// Density-functional quadrature grids: evaluation histories and exact laws.
#include "vp.h"
#include "atomic/TwoDBasis.h"
#include "atomic/basis.h"
#include "atomic/dftgrid.h"
#include "diatomic/basis.h"
#include "diatomic/dftgrid.h"
#include "diatomic/dftgrid_purem.h"
#include "sadatom/basis.h"
#include "sadatom/dftgrid.h"
#include "PolynomialBasis.h"
#include <omp.h>
#include <sys/wait.h>
#include <exception>
using namespace vp;
using ABas=helfem::atomic::basis::TwoDBasis; using DBas=helfem::diatomic::basis::TwoDBasis; using SBas=helfem::sadatom::basis::TwoDBasis; using helfem::Matrix; using helfem::Vector; using helfem::Cube;
static Eigen::VectorXi toi(const std::vector<int> & v) { Eigen::VectorXi r(v.size()); for(size_t i=0;i<v.size();i++) r(i)=v[i]; return r; }
static std::string kind; static int conf=0,rad=0; static std::vector<int> lv,mv; static int lmax=0; static Vector bv; static std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis> poly; static int nq=0,lang=0,mang=0;
static double thr=1e-12;
struct Res { Matrix Ha,Hb; double E=0,N=0,T=0; };
typedef std::pair<int,Vector> Fn;
struct Obj { std::unique_ptr<ABas> at; std::unique_ptr<SBas> sa; std::unique_ptr<DBas> di;
  size_t n() const { return at? at->Nbf() : sa? sa->Nbf() : di->Nbf(); }
  // densities are cubes (one matrix per l for the averaged atom); matrices of results are laid side by side
  static Matrix flat(const Cube & c) { Matrix r(c[0].rows(),c[0].cols()*c.size()); for(size_t i=0;i<c.size();i++) r.middleCols(i*c[0].cols(),c[0].cols())=c[i]; return r; }
  Res ev(const Fn & x, const Fn & c, const Cube & P) const { Res r;
    if(at) helfem::atomic::dftgrid::DFTGrid(at.get(),lang,mang).eval_Fxc(x.first,x.second,c.first,c.second,P[0],r.Ha,r.E,r.N,r.T,thr);
    else if(sa) { Cube H; helfem::sadatom::dftgrid::DFTGrid(sa.get()).eval_Fxc(x.first,x.second,c.first,c.second,P,H,r.E,r.N,thr); r.Ha=flat(H); }
    else if(kind=="pm") helfem::diatomic::dftgrid_purem::PureMDFTGrid(di.get(),lang).eval_Fxc(x.first,x.second,c.first,c.second,P[0],r.Ha,r.E,r.N,r.T,thr);
    else helfem::diatomic::dftgrid::DFTGrid(di.get(),lang,mang).eval_Fxc(x.first,x.second,c.first,c.second,P[0],r.Ha,r.E,r.N,r.T,thr);
    r.Hb=r.Ha; return r; }
  Res ev(const Fn & x, const Fn & c, const Cube & A, const Cube & B, bool beta=true) const { Res r;
    if(at) helfem::atomic::dftgrid::DFTGrid(at.get(),lang,mang).eval_Fxc(x.first,x.second,c.first,c.second,A[0],B[0],r.Ha,r.Hb,r.E,r.N,r.T,beta,thr);
    else if(sa) { Cube Ha,Hb; helfem::sadatom::dftgrid::DFTGrid(sa.get()).eval_Fxc(x.first,x.second,c.first,c.second,A,B,Ha,Hb,r.E,r.N,beta,thr); r.Ha=flat(Ha); r.Hb=flat(Hb); }
    else if(kind=="pm") helfem::diatomic::dftgrid_purem::PureMDFTGrid(di.get(),lang).eval_Fxc(x.first,x.second,c.first,c.second,A[0],B[0],r.Ha,r.Hb,r.E,r.N,r.T,beta,thr);
    else helfem::diatomic::dftgrid::DFTGrid(di.get(),lang,mang).eval_Fxc(x.first,x.second,c.first,c.second,A[0],B[0],r.Ha,r.Hb,r.E,r.N,r.T,beta,thr);
    return r; } };
static Obj make() { Obj o; auto P=helfem::modelpotential::POINT_NUCLEUS;
  if(kind=="at") o.at=std::make_unique<ABas>(3,P,0.0,poly,true,nq,bv,toi(lv),toi(mv),0,0,0.0); else if(kind=="sa") o.sa=std::make_unique<SBas>(3,P,0.0,poly,true,nq,bv,lmax);
  else o.di=std::make_unique<DBas>(2,1,0.9,poly,nq,bv,toi(lv),toi(mv)); return o; }
static void setup() {
  static const std::vector<std::vector<int>> C={{0,0},{0,0,1,0},{0,0,1,-1,1,1},{1,-1,1,0},{0,0,1,0,1,1,1,-1,2,0},{1,1,2,1,1,-1,2,-1},{0,0,1,-1,1,0,1,1},{2,2,1,0,2,-2}};
  lv.clear(); mv.clear(); for(size_t i=0;i<C[conf].size();i+=2) { lv.push_back(C[conf][i]); mv.push_back(C[conf][i+1]); } lmax=conf%3;
  // element families: 3 Legendre, 4 Lobatto, 100 Chebyshev, 5 Hermite, 8 second-order Hermite (both with continuous derivatives); rad 4 and up have more elements
  static const int F[]={4,4,5,5,4,3,100,8,4,5}, NN[]={4,3,3,4,3,3,4,3,2,2}, NE[]={2,3,2,3,6,4,5,3,9,5}; poly=std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(F[rad],NN[rad])); int nel=NE[rad];
  bv.resize(nel+1); double R= kind=="di"||kind=="pm"? 2.5 : 5.0; for(int i=0;i<=nel;i++) bv(i)=R*std::pow((double) i/nel,1.4); nq=3*poly->get_nprim()+4; lang=12; mang=7; }
struct Orbs { std::vector<Vector> c,d; std::vector<double> n; std::vector<size_t> b; };
// random orbitals; for molecules on the pure-m grid each orbital has one m
static Orbs orbs(const Obj & o, int norb, uint64_t s, bool pure) { Orbs r; Rng g(s*7919+13*conf+rad); size_t n=o.n(); for(int k=0;k<norb;k++) { Vector c=Vector::Zero(n),d=Vector::Zero(n); std::vector<Eigen::Index> idx;
    if(pure && o.di) { Eigen::VectorXi m=o.di->get_mval(); idx=o.di->m_indices(m(g.upto(m.size()))); } else for(size_t i=0;i<n;i++) idx.push_back(i);
    for(auto i: idx) { c(i)=g.uni()-0.5; d(i)=g.uni()-0.5; } r.c.push_back(c); r.d.push_back(d); r.n.push_back(0.4+g.uni()); r.b.push_back(o.sa? g.upto(lmax+1) : 0); } return r; }
static Cube zero(const Obj & o) { return Cube(o.sa? lmax+1 : 1,Matrix::Zero(o.n(),o.n())); }
static Cube dens(const Obj & o, const Orbs & q_, double h=0) { Cube P=zero(o); for(size_t k=0;k<q_.c.size();k++) { Vector c=q_.c[k]+h*q_.d[k]; P[q_.b[k]]+=q_.n[k]*c*c.transpose(); } return P; }
static Cube tang(const Obj & o, const Orbs & q_) { Cube P=zero(o); for(size_t k=0;k<q_.c.size();k++) P[q_.b[k]]+=q_.n[k]*(q_.c[k]*q_.d[k].transpose()+q_.d[k]*q_.c[k].transpose()); return P; }
static Cube sum(const Cube & a, const Cube & b_, double f=1) { Cube r=a; for(size_t i=0;i<a.size();i++) r[i]+=f*b_[i]; return r; }
static Cube scale(const Cube & a, double f) { Cube r=a; for(auto & m: r) m*=f; return r; }
static double dot(const Matrix & a, const Matrix & b_) { return (a.array()*b_.array()).sum(); }
static double dotc(const Matrix & H, const Cube & P) { return dot(H,Obj::flat(P)); }
static long long tr(double x) { return !(x*1e12<2e9)? 2000000000 : (long long) std::ceil(x*1e12); }
static double rel(const Matrix & a, const Matrix & b_) { if(a.rows()!=b_.rows() || a.cols()!=b_.cols()) return 1; double s=vp::worst(a.norm(),b_.norm()); return s<1e-14?0:(a-b_).norm()/s; }
static double rs(double a, double b_) { double s=vp::worst(std::fabs(a),std::fabs(b_)); return s<1e-14?0:std::fabs(a-b_)/s; }
static double diff(const Res & a, const Res & b_) { return vp::worst({rel(a.Ha,b_.Ha),rel(a.Hb,b_.Hb),rs(a.E,b_.E),rs(a.N,b_.N),rs(a.T,b_.T)}); }
static std::string E(const char * n, double x) { return std::string(",\"")+n+"\":"+std::to_string(tr(x)); }
static Fn fn(const std::string & s) { // "id" or "id:p1:p2..."
  std::vector<double> p; size_t at=s.find(':'); int id=std::stoi(s.substr(0,at)); while(at!=std::string::npos) { size_t nx=s.find(':',at+1); p.push_back(std::stod(s.substr(at+1,nx==std::string::npos?nx:nx-at-1))); at=nx; } Vector v(p.size()); for(size_t i=0;i<p.size();i++) v(i)=p[i]; return {id,v}; }
// the overlap and kinetic matrices, dressed as densities are
static double trS(const Obj & o, const Cube & P) { if(o.sa) { Matrix S=o.sa->overlap(); double t=0; for(auto & p: P) t+=dot(S,p); return 4*M_PI*t; } return dot(o.at? o.at->overlap() : o.di->overlap(),P[0]); }
static double trT(const Obj & o, const Cube & P) { if(o.sa) { Matrix T=o.sa->kinetic(), L=o.sa->kinetic_l(); double t=0; for(size_t l=0;l<P.size();l++) t+=dot(T,P[l])+l*(l+1.0)*dot(L,P[l]); return 4*M_PI*t; } return dot(o.at? o.at->kinetic() : o.di->kinetic(),P[0]); }
static void onterm() { int rc=9; try { auto p=std::current_exception(); if(p) std::rethrow_exception(p); } catch(std::logic_error &) { rc=7; } catch(std::exception &) { rc=8; } catch(...) {} _exit(rc); }
static std::string guarded(std::function<void()> f) { fflush(out()); pid_t p=fork(); if(!p) { int nul=open("/dev/null",O_RDWR); dup2(nul,0); dup2(nul,2); std::set_terminate(onterm); omp_set_num_threads(1); try { f(); } catch(...) { onterm(); } _exit(0); }
  int st=0; waitpid(p,&st,0); if(WIFEXITED(st)) { int c=WEXITSTATUS(st); return c==0?"ok":c==7?"logic_error":c==8?"error":"crash"; } return "crash"; }
static Obj cur;
static std::string S(const std::string & s) { return q(s); }
int main() {
  init(); omp_set_num_threads(1);
  return loop([&]{ cur=Obj(); emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    if(a[0]=="new") { kind=a[1]; conf=std::stoi(a[2]); rad=std::stoi(a[3]); setup(); cur=make(); emit("{\"e\":\"new\",\"k\":"+S(kind)+"}"); return; }
    Fn x= a.size()>1? fn(a[1]) : Fn(), c= a.size()>2? fn(a[2]) : Fn(); uint64_t sd= a.size()>3? std::stoull(a[3]) : 0; bool pure= kind=="pm";
    std::string head="{\"e\":"+S(a[0])+",\"x\":"+std::to_string(x.first)+",\"c\":"+std::to_string(c.first);
    if(a[0]=="eval") { // eval x c seed mode threads: against a fresh object; mode r, u, or a (no beta electrons); parameter counts may be wrong
      std::string m=a[4]; Cube A=dens(cur,orbs(cur,3,sd,pure)), B=dens(cur,orbs(cur,2,sd+1,pure)), A0=A,B0=B; if(m=="a") B=zero(cur);
      auto go=[&](const Obj & o) { return m=="r"? o.ev(x,c,A) : o.ev(x,c,A,B,m=="u"); };
      std::string r=guarded([&]{ go(cur); }); double err=0; bool kept=true,hbz=true;
      if(r=="ok") { omp_set_num_threads(std::stoi(a[5])); Res v=go(cur); omp_set_num_threads(1); Obj f=make(); Res w=go(f); err=diff(v,w); kept=A[0]==A0[0]; if(m!="a") kept=kept && B[0]==B0[0]; else hbz= v.Hb.rows()==v.Ha.rows() && v.Hb.norm()==0; }
      emit(head+",\"px\":"+std::to_string(x.second.size())+",\"pc\":"+std::to_string(c.second.size())+",\"m\":"+S(m)+",\"r\":"+S(r)+E("err",err)+",\"kept\":"+b(kept)+",\"hbz\":"+b(hbz)+"}"); return; }
    Orbs oa=orbs(cur,3,sd,pure), ob=orbs(cur,2,sd+1,pure); Cube A=dens(cur,oa), B=dens(cur,ob);
    if(a[0]=="count") { Res r=cur.ev(x,c,A), u=cur.ev(x,c,A,B); double na=trS(cur,A), nb=trS(cur,B); double e=vp::worst(rs(r.N,na),rs(u.N,na+nb)), et=0; if(!cur.sa) et=vp::worst(rs(r.T,trT(cur,A)),rs(u.T,trT(cur,A)+trT(cur,B)));
      emit(head+E("n",e)+E("t",et)+",\"tz\":"+b(r.T==0 && u.T==0)+"}"); return; }
    if(a[0]=="grad") { // potential matrices are the derivatives of the energy along changes of the orbitals
      double t0=thr; if(x.first==52) thr=1e-30; // the von Weizsacker energy per volume does not vanish with the density: no cutoff
      double worst=0; for(int mode=0;mode<3;mode++) { auto en=[&](double h) { return mode==0? cur.ev(x,c,dens(cur,oa,h)).E : mode==1? cur.ev(x,c,dens(cur,oa,h),B).E : cur.ev(x,c,A,dens(cur,ob,h)).E; };
        auto fd=[&](double k) { return (en(k)-en(-k))/(2*k); }; Res r= mode==0? cur.ev(x,c,A) : cur.ev(x,c,A,B); Matrix H= mode==2? r.Hb : r.Ha; double g=dotc(H,tang(cur,mode==2? ob : oa));
        double best=1e9; for(double h: {5e-4,1e-4,2e-5}) { double d1=fd(h),d2=fd(h/2),d=(4*d2-d1)/3; best=std::min(best,std::fabs(g-d)/vp::worst(1e-6,std::fabs(r.E)+std::fabs(g))); if(best<1e-8) break; } // the meta-GGAs have sharp switches: the step that resolves them best
        worst=vp::worst(worst,best); if(!H.allFinite()) worst=1; }
      thr=t0; emit(head+E("err",worst)+"}"); return; }
    if(a[0]=="spin") { Cube h2=scale(A,0.5); Res r=cur.ev(x,c,A), u=cur.ev(x,c,h2,h2), p=cur.ev(x,c,A,B), s=cur.ev(x,c,B,A); double e1=diff(r,u), e2=vp::worst({rel(p.Ha,s.Hb),rel(p.Hb,s.Ha),rs(p.E,s.E),rs(p.N,s.N)}); double sy=0; size_t n=cur.n();
      for(const Matrix & H: {r.Ha,p.Ha,p.Hb}) for(Eigen::Index k=0;k<H.cols()/(Eigen::Index) n;k++) { Matrix K=H.middleCols(k*n,n); sy=vp::worst(sy,rel(K,K.transpose())); }
      emit(head+E("closed",e1)+E("swap",e2)+E("sym",sy)+"}"); return; }
    if(a[0]=="add") { Fn z{0,Vector()}; Res f=cur.ev(x,c,A,B), g=cur.ev(x,z,A,B), h=cur.ev(z,c,A,B), r=cur.ev(x,c,A), s=cur.ev(x,z,A), t=cur.ev(z,c,A);
      double e=vp::worst({std::fabs(f.E-g.E-h.E)/(std::fabs(g.E)+std::fabs(h.E)+1e-12),std::fabs(r.E-s.E-t.E)/(std::fabs(s.E)+std::fabs(t.E)+1e-12),(f.Ha-g.Ha-h.Ha).norm()/(g.Ha.norm()+h.Ha.norm()),(f.Hb-g.Hb-h.Hb).norm()/(g.Hb.norm()+h.Hb.norm()),(r.Ha-s.Ha-t.Ha).norm()/(s.Ha.norm()+t.Ha.norm())});
      emit(head+E("err",e)+",\"ez\":"+b(g.E==0)+"}"); return; }
    if(a[0]=="beta") { Cube Z=zero(cur); Res u=cur.ev(x,c,A,Z,true), v=cur.ev(x,c,A,Z,false); double e=vp::worst({rel(u.Ha,v.Ha),rs(u.E,v.E),rs(u.N,v.N),rs(u.T,v.T)}); emit(head+E("err",e)+",\"hbz\":"+b(v.Hb.rows()==u.Ha.rows() && v.Hb.cols()==u.Ha.cols() && v.Hb.norm()==0)+"}"); return; }
    if(a[0]=="vw") { // one real orbital: the von Weizsacker energy is the kinetic energy
      Cube P=zero(cur); Orbs o1=orbs(cur,1,sd,false); Vector v=o1.c[0]; if(cur.di || cur.at) { Vector w=Vector::Zero(cur.n()); Eigen::VectorXi ms= cur.di? cur.di->get_mval() : cur.at->get_mval(); bool have=false; for(Eigen::Index k=0;k<ms.size();k++) have=have||ms(k)==0; if(!have) { emit(head+",\"applies\":false,\"err\":0}"); return; }
        for(auto i: cur.di? cur.di->m_indices(0) : cur.at->m_indices(0)) w(i)=v(i); v=w; }
      P[0]=v*v.transpose(); Vector pars(2); pars<<1.0,0.0; Fn k52{52,pars}, none{0,Vector()}; double t0=thr; thr=1e-30; Res r=cur.ev(k52,none,P); double T=trT(cur,P);
      emit(head+",\"applies\":true"+E("err",std::fabs(r.E-T)/T)+"}"); thr=t0; return; }
    if(a[0]=="gea") { // the integral of the Laplacian of a density with continuous gradient vanishes
      Fn none{0,Vector()}; double t0=thr; thr=1e-30; Res g=cur.ev({627,Vector()},none,A), w=cur.ev({52,Vector()},none,A); Res tf=cur.ev({50,Vector()},none,A); double vw=w.E-tf.E; Res ug=cur.ev({627,Vector()},none,A,B), uw=cur.ev({52,Vector()},none,A,B), ut=cur.ev({50,Vector()},none,A,B); thr=t0;
      emit(head+E("err",vp::worst(std::fabs(g.E-tf.E-vw/9)/(std::fabs(vw)/9),std::fabs(ug.E-ut.E-(uw.E-ut.E)/9)/(std::fabs(uw.E-ut.E)/9)))+"}"); return; }
    if(a[0]=="pure") { // analytic-angle grid against the full grid (also with equal weights of +m and -m declared)
      Orbs pa=orbs(cur,3,sd,true), pb=orbs(cur,2,sd+1,true); auto both=[&](Orbs o) { // add the mirrored partners
          size_t n0=o.c.size(); Eigen::VectorXi ms=cur.di->get_mval(); for(size_t k=0;k<n0;k++) { Vector w=Vector::Zero(cur.n()); for(Eigen::Index mi=0;mi<ms.size();mi++) { auto I=cur.di->m_indices(ms(mi)),J=cur.di->m_indices(-ms(mi)); for(size_t i=0;i<I.size();i++) w(J[i])=o.c[k](I[i]); } o.c.push_back(w); o.d.push_back(w); o.n.push_back(o.n[k]); o.b.push_back(0); } return o; };
      bool mir= a[4]=="1"; if(mir) { pa=both(pa); pb=both(pb); } Cube PA=dens(cur,pa),PB=dens(cur,pb); std::string k0=kind; kind="di"; Res r3=cur.ev(x,c,PA), u3=cur.ev(x,c,PA,PB); kind="pm"; if(mir) cur.di->set_absm_symmetric(true); Res r2=cur.ev(x,c,PA), u2=cur.ev(x,c,PA,PB); cur.di->set_absm_symmetric(false); kind=k0;
      emit(head+E("r",diff(r3,r2))+E("u",diff(u3,u2))+"}"); return; }
    if(a[0]=="sphere") { // spherical densities: the averaged atom equals the full atom
      int LM=std::stoi(a[4]); rad=std::stoi(a[5]); kind="at"; int keep=conf; conf=0; setup(); conf=keep; lv.clear(); mv.clear(); for(int l=0;l<=LM;l++) for(int m=-l;m<=l;m++) { lv.push_back(l); mv.push_back(m); } lmax=LM; Obj at=make(); kind="sa"; Obj sa=make(); kind="at"; size_t n=sa.n(); Rng g(sd);
      auto mk=[&](Cube & full, Cube & avg) { full=Cube(1,Matrix::Zero(at.n(),at.n())); avg=Cube(LM+1,Matrix::Zero(n,n)); for(int l=0;l<=LM;l++) { Matrix p=Matrix::Zero(n,n); for(int k=0;k<2;k++) { Vector v(n); for(size_t i=0;i<n;i++) v(i)=g.uni()-0.5; p+=(0.3+g.uni())*v*v.transpose(); } avg[l]=p*(2*l+1)/(4*M_PI); for(size_t q2=0;q2<lv.size();q2++) if(lv[q2]==l) full[0].block(q2*n,q2*n,n,n)=p; } };
      Cube fa,aa,fb,ab; mk(fa,aa); mk(fb,ab); Res r=at.ev(x,c,fa), u=at.ev(x,c,fa,fb), sr=sa.ev(x,c,aa), su=sa.ev(x,c,aa,ab); double e=vp::worst({rs(r.E,sr.E),rs(u.E,su.E),rs(r.N,sr.N),rs(u.N,su.N)}), h=0, off=0;
      auto cmp=[&](const Matrix & H, const Matrix & Hs) { double s=H.norm(); for(size_t i=0;i<lv.size();i++) for(size_t j=0;j<lv.size();j++) { Matrix bl=H.block(i*n,j*n,n,n); if(i!=j) off=vp::worst(off,bl.norm()/s); else h=vp::worst(h,(bl-Hs.middleCols(lv[i]*n,n)/(4*M_PI)).norm()/s); } }; cmp(r.Ha,sr.Ha); cmp(u.Ha,su.Ha); cmp(u.Hb,su.Hb);
      emit(head+E("en",e)+E("h",h)+E("off",off)+"}"); return; }
    if(a[0]=="dirac") { // Slater exchange of the averaged atom, summed here from the tabulated functions
      double want=0,wu=0; const double cx=-0.75*std::cbrt(3/M_PI); for(size_t iel=0;iel<cur.sa->get_rad_Nel();iel++) { Vector r=cur.sa->get_r(iel), w=cur.sa->get_wrad(iel); Matrix f=cur.sa->eval_bf(iel); auto idx=cur.sa->bf_list(iel); for(Eigen::Index p=0;p<r.size();p++) { double ra=0,rb=0; for(size_t l=0;l<A.size();l++) for(size_t i=0;i<idx.size();i++) for(size_t j=0;j<idx.size();j++) { ra+=A[l](idx[i],idx[j])*f(p,i)*f(p,j); rb+=B[l](idx[i],idx[j])*f(p,i)*f(p,j); } double g=4*M_PI*w(p)*r(p)*r(p); want+=g*cx*std::pow(ra,4.0/3); wu+=g*0.5*cx*(std::pow(2*ra,4.0/3)+std::pow(2*rb,4.0/3)); } }
      Fn none{0,Vector()}; Res r=cur.ev({1,Vector()},none,A), u=cur.ev({1,Vector()},none,A,B); emit(head+E("err",vp::worst(rs(r.E,want),rs(u.E,wu)))+"}"); return; }
    emit("{\"e\":\"unknown\"}");
  });
}
