// Two-electron operators: preparation histories and physical identities.
#include "vp.h"
#include "atomic/TwoDBasis.h"
#include "atomic/basis.h"
#include "diatomic/basis.h"
#include "sadatom/basis.h"
#include "PolynomialBasis.h"
#include <omp.h>
using namespace vp;
using ABas=helfem::atomic::basis::TwoDBasis; using DBas=helfem::diatomic::basis::TwoDBasis; using SBas=helfem::sadatom::basis::TwoDBasis; using helfem::Matrix; using helfem::Vector; using helfem::Cube;
static Eigen::VectorXi toi(const std::vector<int> & v) { Eigen::VectorXi r(v.size()); for(size_t i=0;i<v.size();i++) r(i)=v[i]; return r; }
static const std::vector<std::pair<std::string,double>> SCR={{"yukA",0.4},{"yukB",1.0},{"yukC",2.5},{"erfcA",0.3},{"erfcB",0.8},{"erfcC",1.7}};
static double par(const std::string & s) { for(auto & x: SCR) if(x.first==s) return x.second; return s=="yuk0"?1e-3:1e-3; }
static std::string kind; static int conf=0,rad=0; static std::vector<int> lv,mv; static int lmax=0; static Vector bv; static std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis> poly; static int nq=0;
struct Obj { std::unique_ptr<ABas> at; std::unique_ptr<SBas> sa; std::unique_ptr<DBas> di;
  size_t n() const { return at? at->Nbf() : sa? sa->Nbf() : di->Nbf(); }
  void prep(const std::string & p, bool x=true) {
    if(p=="full") { if(at) at->compute_tei(x); else if(sa) sa->compute_tei(); else di->compute_tei(x); return; }
    bool y=p.substr(0,3)=="yuk"; double v=par(p);
    if(at) { if(y) at->compute_yukawa(v); else at->compute_erfc(v); } else { if(y) sa->compute_yukawa(v); else sa->compute_erfc(v); } }
  // densities are cubes: one matrix for atoms and molecules, one per l for the averaged atom; results are flattened
  Matrix use(const std::string & op, const Cube & P) const {
    if(sa) { if(op=="J") { Matrix t=P[0]; for(size_t i=1;i<P.size();i++) t+=P[i]; return sa->coulomb(t); }
      Cube K= op=="K"? sa->exchange(P) : sa->rs_exchange(P); Matrix r(K[0].rows(),K[0].cols()*K.size()); for(size_t i=0;i<K.size();i++) r.middleCols(i*K[0].cols(),K[0].cols())=K[i]; return r; }
    if(at) return op=="J"? at->coulomb(P[0]) : op=="K"? at->exchange(P[0]) : at->rs_exchange(P[0]);
    if(op=="R") throw std::domain_error("absent"); return op=="J"? di->coulomb(P[0]) : di->exchange(P[0]); }
  Obj copy() const { Obj o; if(at) o.at=std::make_unique<ABas>(*at); if(sa) o.sa=std::make_unique<SBas>(*sa); if(di) o.di=std::make_unique<DBas>(*di); return o; } };
static Obj cur;
static Obj make(const std::string & k) { Obj o; auto P=helfem::modelpotential::POINT_NUCLEUS;
  if(k=="at") o.at=std::make_unique<ABas>(3,P,0.0,poly,true,nq,bv,toi(lv),toi(mv),0,0,0.0); else if(k=="sa") o.sa=std::make_unique<SBas>(3,P,0.0,poly,true,nq,bv,lmax);
  else o.di=std::make_unique<DBas>(2,1,0.9,poly,nq,bv,toi(lv),toi(mv)); return o; }
static void setup() {
  static const std::vector<std::vector<int>> C={{0,0},{0,0,1,0},{0,0,1,-1,1,1},{1,-1,1,0},{0,0,1,0,1,1,1,-1,2,0},{1,1,2,1,2,-1,1,-1},{0,0,1,-1,1,0,1,1},{0,0,1,0,2,0,1,1,2,1,1,-1,2,-1}};
  lv.clear(); mv.clear(); for(size_t i=0;i<C[conf].size();i+=2) { lv.push_back(C[conf][i]); mv.push_back(C[conf][i+1]); } lmax= conf%3;
  static const int F[]={4,3,4,4}, NN[]={4,2,3,5}, NE[]={2,2,3,1}; poly=std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(F[rad],NN[rad])); int nel=NE[rad];
  bv.resize(nel+1); double R= kind=="di"? 2.5 : 5.0; for(int i=0;i<=nel;i++) bv(i)=R*std::pow((double) i/nel,1.4); nq=5*poly->get_nprim()+4; }
static Cube dens(int d, uint64_t salt=0) { size_t n=make(kind).n(); size_t nb= kind=="sa"? lmax+1 : 1; Cube P; Rng g(977*d+13*conf+rad+salt);
  for(size_t k=0;k<nb;k++) { Matrix M=Matrix::Zero(n,n); int terms= d==1?1 : d==2?3 : d==3?2 : 0; for(int t=0;t<terms;t++) { Vector c(n); for(size_t i=0;i<n;i++) c(i)=g.uni()-0.5; M+=(d==3 && t==1? -0.7 : 0.5+t)*c*c.transpose(); } P.push_back(M); } return P; }
static double nrm(const Matrix & m) { return m.norm(); }
static long long tr(double x) { if(!(x<1e5)) return 2000000000; return (long long) std::ceil(x*1e12> 2e9? 2e9 : x*1e12); }
static double rel(const Matrix & a, const Matrix & b_) { double s=vp::worst(nrm(a),nrm(b_)); return s==0?0:nrm(a-b_)/s; }
static std::map<std::string,Obj> refs; static std::map<std::string,Matrix> refres;
static Obj & refobj(const std::string & k, const std::string & p) { std::string key=k+std::to_string(conf)+"/"+std::to_string(rad)+p; if(!refs.count(key)) { Obj o=make(k); o.prep(p); refs[key]=std::move(o); } return refs[key]; }
static const Matrix & refuse(const std::string & p, const std::string & op, int d) { std::string key=kind+std::to_string(conf)+"/"+std::to_string(rad)+p+op+std::to_string(d); if(!refres.count(key)) refres[key]=refobj(kind,p).use(op,dens(d)); return refres[key]; }
template <class F> static std::string outcome(F f) { try { f(); } catch(std::domain_error &) { return "absent"; } catch(std::logic_error &) { return "logic_error"; } catch(std::exception &) { return "error"; } return "ok"; }
static std::string E(const char * n, double x) { return std::string(",\"")+n+"\":"+std::to_string(tr(x)); }
static double dot(const Matrix & a, const Matrix & b_) { return (a.array()*b_.array()).sum(); }
int main() {
  init(); omp_set_num_threads(1);
  return loop([&]{ cur=Obj(); emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    if(a[0]=="new") { kind=a[1]; conf=std::stoi(a[2]); rad=std::stoi(a[3]); setup(); cur=make(kind); emit("{\"e\":\"new\",\"k\":"+q(kind)+"}"); return; }
    if(a[0]=="prep") { std::string r=outcome([&]{ cur.prep(a[1],a[2]=="1"); }); emit("{\"e\":\"prep\",\"p\":"+q(a[1])+",\"r\":"+q(r)+"}"); return; }
    if(a[0]=="copy") { cur=cur.copy(); }      // a copied object answers like the original
    if(a[0]=="use" || a[0]=="copy") { const std::string & op=a[1]; int d=std::stoi(a[2]); Cube P=dens(d), P0=P; Matrix m; std::string r=outcome([&]{ m=cur.use(op,P); }); std::vector<std::string> like; bool zero=false,kept=true;
      if(r=="ok") { zero= nrm(m)<1e-14; for(size_t i=0;i<P.size();i++) kept=kept && P[i]==P0[i];
        if(op!="R") { if(rel(m,refuse("full",op,d))<1e-9) like.push_back(q("full")); } else for(auto & s: SCR) if(rel(m,refuse(s.first,op,d))<1e-9) like.push_back(q(s.first)); }
      emit("{\"e\":\"use\",\"op\":"+q(op)+",\"d\":"+std::to_string(d)+",\"r\":"+q(r)+",\"like\":"+arrs(like)+",\"zero\":"+b(zero)+",\"kept\":"+b(kept)+"}"); return; }
    if(a[0]=="lin") { const std::string & op=a[1]; double err=0; std::string r=outcome([&]{ Cube A=dens(std::stoi(a[2])), B=dens(std::stoi(a[3]),5), C=A; for(size_t i=0;i<A.size();i++) C[i]=0.75*A[i]-1.5*B[i];
        Matrix x=cur.use(op,A), y=cur.use(op,B), z=cur.use(op,C), x2=cur.use(op,A); double s=nrm(x)+nrm(y); err=nrm(z-0.75*x+1.5*y)/s; if(nrm(x-x2)/s>1e-13) err=1; });
      emit("{\"e\":\"lin\",\"op\":"+q(op)+",\"r\":"+q(r)+E("err",err)+"}"); return; }
    if(a[0]=="thr") { const std::string & op=a[1]; double err=0,perr=0; std::string r=outcome([&]{ Cube A=dens(std::stoi(a[2])); Matrix x=cur.use(op,A); omp_set_num_threads(4); Matrix y=cur.use(op,A); err=rel(x,y);
        // preparation by several threads
        std::string p= op=="R"? (kind=="di"?"full":"erfcB") : "full"; Obj o=make(kind); o.prep(p); Matrix z=o.use(op,A); omp_set_num_threads(1); perr=rel(z,refobj(kind,p).use(op,A)); }); omp_set_num_threads(1);
      emit("{\"e\":\"thr\",\"op\":"+q(op)+",\"r\":"+q(r)+E("err",err)+E("perr",perr)+"}"); return; }
    if(a[0]=="phys" && kind!="sa") { uint64_t salt=std::stoull(a[1]); Obj & o=refobj(kind,"full"); Cube A=dens(1,salt),B=dens(2,salt),C=dens(1,salt+1); Matrix JA=o.use("J",A),JB=o.use("J",B),KA=o.use("K",A),KB=o.use("K",B);
      double jaa=dot(JA,A[0]), kaa=dot(KA,A[0]); 
      emit("{\"e\":\"phys\""+E("symJ",rel(JB,JB.transpose()))+E("symK",rel(KB,KB.transpose()))+E("recJ",std::fabs(dot(JA,B[0])-dot(JB,A[0]))/std::fabs(dot(JA,B[0])))+E("recK",std::fabs(dot(KA,B[0])-dot(KB,A[0]))/std::fabs(dot(KA,B[0])))
        +E("self",std::fabs(jaa+kaa)/std::fabs(jaa))+",\"posJ\":"+b(jaa>0 && dot(JB,B[0])>0)+",\"negK\":"+b(kaa<0 && dot(KB,B[0])<0)+",\"pairpos\":"+b(dot(JA,C[0])+dot(KA,C[0])>-1e-9*jaa)+"}"); return; }
    if(a[0]=="phys") { uint64_t salt=std::stoull(a[1]); Obj & o=refobj(kind,"full"); Cube A=dens(1,salt),B=dens(2,salt); size_t n=o.n(); Cube A0(lmax+1,Matrix::Zero(n,n)); A0[0]=A[0]; Matrix JA=o.sa->coulomb(A[0]),JB=o.sa->coulomb(B[0]); Cube KA=o.sa->exchange(A),KB=o.sa->exchange(B),K0=o.sa->exchange(A0);
      // exchange energies weight each l by its multiplicity
      double rab=0,rba=0,sa=0,saa=0; for(int l=0;l<=lmax;l++) { rab+=(2*l+1)*dot(KA[l],B[l]); rba+=(2*l+1)*dot(KB[l],A[l]); sa=vp::worst(sa,rel(KB[l],KB[l].transpose())); saa+=(2*l+1)*dot(KA[l],A[l]); }
      double jaa=dot(JA,A[0])/(4*M_PI), kaa=dot(K0[0],A[0]); // s density of one electron
      emit("{\"e\":\"phys\""+E("symJ",rel(JB,JB.transpose()))+E("symK",sa)+E("recJ",std::fabs(dot(JA,B[0])-dot(JB,A[0]))/std::fabs(dot(JA,B[0])))+E("recK",std::fabs(rab-rba)/std::fabs(rab))+E("self",std::fabs(jaa+kaa)/std::fabs(jaa))+",\"posJ\":"+b(jaa>0)+",\"negK\":"+b(kaa<0 && saa<0)+",\"pairpos\":true}"); return; }
    if(a[0]=="shell") { // closed shells on the full channel list up to lmax: block structure, m independence, agreement with the averaged atom
      int LM=std::stoi(a[1]); rad=std::stoi(a[2]); conf=100+LM; kind="at"; int keep=conf; conf=0; setup(); conf=keep; lv.clear(); mv.clear(); for(int l=0;l<=LM;l++) for(int m=-l;m<=l;m++) { lv.push_back(l); mv.push_back(m); } lmax=LM;
      Obj at=make("at"), sa=make("sa"); at.prep("full"); sa.prep("full"); const char * sc=SCR[std::stoi(a[3])%SCR.size()].first.c_str(); at.prep(sc); sa.prep(sc); size_t n=sa.n(); Rng g(std::stoull(a[3])*7+LM); Cube p; Matrix P=Matrix::Zero(at.n(),at.n()), tot=Matrix::Zero(n,n);
      for(int l=0;l<=LM;l++) { Vector c(n); for(size_t i=0;i<n;i++) c(i)=g.uni()-0.5; p.push_back(c*c.transpose()*(0.3+g.uni())); tot+=(2*l+1)*p[l]; } for(size_t c=0;c<lv.size();c++) P.block(c*n,c*n,n,n)=p[lv[c]];
      Matrix J=at.at->coulomb(P),K=at.at->exchange(P),Rx=at.at->rs_exchange(P); Matrix Js=sa.sa->coulomb(tot)/(4*M_PI); Cube Ks=sa.sa->exchange(p),Rs=sa.sa->rs_exchange(p);
      double oj=0,ok=0,mj=0,mk=0,sj=0,sk=0,sr=0; for(size_t c=0;c<lv.size();c++) for(size_t d=0;d<lv.size();d++) { Matrix Jb=J.block(c*n,d*n,n,n),Kb=K.block(c*n,d*n,n,n),Rb=Rx.block(c*n,d*n,n,n); if(c!=d) { oj=vp::worst(oj,nrm(Jb)/nrm(J)); ok=vp::worst(ok,nrm(Kb)/nrm(K)); continue; }
        size_t c0=lv[c]*lv[c]; mj=vp::worst(mj,rel(Jb,J.block(c0*n,c0*n,n,n))); mk=vp::worst(mk,rel(Kb,K.block(c0*n,c0*n,n,n))); sj=vp::worst(sj,rel(Jb,Js)); sk=vp::worst(sk,rel(Kb,Ks[lv[c]])); sr=vp::worst(sr,rel(Rb,Rs[lv[c]])); }
      emit("{\"e\":\"shell\",\"L\":"+std::to_string(LM)+E("offJ",oj)+E("offK",ok)+E("mJ",mj)+E("mK",mk)+E("saJ",sj)+E("saK",sk)+E("saR",sr)+"}"); return; }
    if(a[0]=="kernel") { // brute-force double radial integral of the operator's L-th multipole against the assembled exchange matrix
      const std::string & p=a[1]; int L=std::stoi(a[2]); rad=std::stoi(a[3]); kind="at"; conf=0; setup(); if(L==0) { lv={0}; mv={0}; } else { lv={0,L}; mv={0,0}; } lmax=L;
      Obj at=make("at"), sa=make("sa"); at.prep(p); size_t n=sa.n(); Rng g(std::stoull(a[4])*31+L); Matrix V(n,4); for(size_t i=0;i<n;i++) for(int k=0;k<4;k++) V(i,k)=g.uni()-0.3;   // columns x c y o
      auto f=[&](double t)->double { if(p=="full") return 1.0; return p[0]=='y'? std::exp(-par(p)*t) : std::erfc(par(p)*t); };
      static std::vector<double> gx,gw; if(gx.empty()) { const int N=30; for(int i=1;i<=N;i++) { double z=std::cos(M_PI*(i-0.25)/(N+0.5)),pp=0; for(int it=0;it<60;it++) { double p1=1,p2=0; for(int j=1;j<=N;j++) { double p3=p2; p2=p1; p1=((2*j-1)*z*p2-(j-1)*p3)/j; } pp=N*(z*p1-p2)/(z*z-1); double dz=p1/pp; z-=dz; if(std::fabs(dz)<1e-16) break; } gx.push_back(z); gw.push_back(2/((1-z*z)*pp*pp)); } }
      auto aL=[&](double r, double s) { double lo=std::fabs(r-s),hi=r+s,sum=0; for(size_t i=0;i<gx.size();i++) { double t=0.5*(hi+lo)+0.5*(hi-lo)*gx[i],u=(r*r+s*s-t*t)/(2*r*s); sum+=gw[i]*f(t)*std::legendre(L,vp::worst(-1.0,std::min(1.0,u)) ); } return (2*L+1)/2.0/(r*s)*0.5*(hi-lo)*sum; };
      double tot=0,ov=0,mag=0; for(int e=0;e+1<bv.size();e++) for(size_t i=0;i<gx.size();i++) { double r=0.5*(bv(e+1)+bv(e))+0.5*(bv(e+1)-bv(e))*gx[i], wr=0.5*(bv(e+1)-bv(e))*gw[i]; Vector o1=sa.sa->eval_orbs(V,r)*r; double ia=0; ov+=wr*o1(0)*o1(2); double in=0;
        auto seg=[&](double A, double B) { for(size_t j=0;j<gx.size();j++) { double s=0.5*(B+A)+0.5*(B-A)*gx[j], ws=0.5*(B-A)*gw[j]; Vector o2=sa.sa->eval_orbs(V,s)*s; double k=ws*o2(2)*o2(3)*aL(r,s); in+=k; ia+=std::fabs(k); } };
        for(int d=0;d+1<bv.size();d++) { if(d==e) { seg(bv(d),r); seg(r,bv(d+1)); } else seg(bv(d),bv(d+1)); }
        tot+=wr*o1(0)*o1(1)*in; mag+=wr*std::fabs(o1(0)*o1(1))*ia; }
      double sref=V.col(0).dot(sa.sa->overlap()*V.col(2)); size_t off= L? n : 0; Matrix P=Matrix::Zero(at.n(),at.n()); P.block(off,off,n,n)=V.col(1)*V.col(3).transpose(); Matrix K= p=="full"? at.at->exchange(P) : at.at->rs_exchange(P);
      double got=-V.col(0).dot(K.topLeftCorner(n,n)*V.col(2)), want=tot/(2*L+1), err=std::fabs(got-want)*(2*L+1)/mag;
      emit("{\"e\":\"kernel\",\"p\":"+q(p)+",\"L\":"+a[2]+E("err",err)+E("ov",std::fabs(ov-sref)/std::fabs(sref))+"}"); return; }
    if(a[0]=="gauss") { // a spherical charge acts outside its extent like a point charge, and a hollow shell exerts no force inside
      rad=2; kind="at"; conf=0; setup(); lv={0,1}; mv={0,0}; lmax=1; Obj at=make("at"), sa=make("sa"); at.prep("full"); sa.prep("full"); size_t n=sa.n(); Rng g(std::stoull(a[1])); auto f=sa.sa->bf_list(0), l=sa.sa->bf_list(2); Matrix S=sa.sa->overlap(),V=sa.sa->nuclear();
      auto inner=[&](auto i){ return i<l.front(); };   // functions vanishing on the last element
      auto run=[&](bool in){ Vector c=Vector::Zero(n); for(size_t i=0;i<n;i++) if(in ? inner((Eigen::Index) i) && std::find(f.begin(),f.end(),(Eigen::Index) i)!=f.end() && std::find(sa.sa->bf_list(1).begin(),sa.sa->bf_list(1).end(),(Eigen::Index) i)==sa.sa->bf_list(1).end() : false) c(i)=g.uni()+0.1; return c; };
      auto b1=sa.sa->bf_list(1); Vector c=Vector::Zero(n), o=Vector::Zero(n); for(auto i: f) if(std::find(b1.begin(),b1.end(),i)==b1.end()) c(i)=g.uni()+0.1; for(auto i: l) if(std::find(b1.begin(),b1.end(),i)==b1.end()) o(i)=g.uni()+0.1; (void) run;
      double N=c.dot(S*c); Matrix P=Matrix::Zero(at.n(),at.n()); P.topLeftCorner(n,n)=c*c.transpose(); Matrix J=at.at->coulomb(P), Js=sa.sa->coulomb(c*c.transpose())/(4*M_PI); double e=0,ei=0; Matrix want=-N*V/3.0;
      for(auto i: l) for(auto j: l) if(std::find(b1.begin(),b1.end(),i)==b1.end() && std::find(b1.begin(),b1.end(),j)==b1.end()) { double s=std::fabs(want(i,j))+1e-8*nrm(want); e=vp::worst({e,std::fabs(J(i,j)-want(i,j))/(s+1e-3*nrm(want)),std::fabs(Js(i,j)-want(i,j))/(s+1e-3*nrm(want)),std::fabs(J(n+i,n+j)-want(i,j))/(s+1e-3*nrm(want))}); }
      Matrix Jo=sa.sa->coulomb(o*o.transpose())/(4*M_PI); double cst=-(o.dot(V*o))/3.0; for(auto i: f) for(auto j: f) if(std::find(b1.begin(),b1.end(),i)==b1.end() && std::find(b1.begin(),b1.end(),j)==b1.end()) ei=vp::worst(ei,std::fabs(Jo(i,j)-cst*S(i,j))/(cst*nrm(S)));
      emit("{\"e\":\"gauss\""+E("err",e)+E("errin",ei)+"}"); return; }
    if(a[0]=="screen" && kind!="di") { uint64_t salt=std::stoull(a[1]); Cube A=dens(1,salt); size_t n=A[0].rows(); auto en=[&](const std::string & op, const std::string & p){ Obj & o=refobj(kind,p); Matrix m=o.use(op,A); double s=0; for(size_t l=0;l<A.size();l++) s-=(kind=="sa"? 2*(int) l+1 : 1)*dot(m.middleCols(l*n,n),A[l]); return s; };
      double full=en("K","full"), sym=0; std::string y,e; for(int i=0;i<3;i++) { y+=(i?",":"")+std::to_string(std::llround(1e6*en("R",SCR[i].first)/full)); e+=(i?",":"")+std::to_string(std::llround(1e6*en("R",SCR[i+3].first)/full)); Matrix m=refobj(kind,SCR[i].first).use("R",A), m2=refobj(kind,SCR[i+3].first).use("R",A); sym=vp::worst({sym,rel(m.leftCols(n),m.leftCols(n).transpose()),rel(m2.leftCols(n),m2.leftCols(n).transpose())}); }
      emit("{\"e\":\"screen\",\"yuk\":["+y+"],\"erfc\":["+e+"],\"yuk0\":"+std::to_string(std::llround(1e6*en("R","yuk0")/full))+",\"erfc0\":"+std::to_string(std::llround(1e6*en("R","erfc0")/full))+E("sym",sym)+"}"); return; }
    if(a[0]=="mirror" && kind=="di") { // exchange of a density symmetric under m -> -m, with and without that declaration
      Obj o=make("di"); o.prep("full"); size_t n=o.n(); Rng g(std::stoull(a[1])); Matrix P=Matrix::Zero(n,n); std::vector<int> am; for(int m: mv) am.push_back(std::abs(m)); int mm=*std::max_element(am.begin(),am.end());
      for(int m=0;m<=mm;m++) { auto I=o.di->m_indices(m), Jx=o.di->m_indices(-m); if(I.empty() || I.size()!=Jx.size()) continue; std::map<Eigen::Index,Eigen::Index> part; for(size_t t=0;t<2;t++) { Vector c(I.size()); for(size_t i=0;i<I.size();i++) c(i)=g.uni()-0.5; for(size_t i=0;i<I.size();i++) for(size_t j=0;j<I.size();j++) { P(I[i],I[j])+=c(i)*c(j); if(m) P(Jx[i],Jx[j])+=c(i)*c(j); } } }
      Matrix K=o.di->exchange(P); o.di->set_absm_symmetric(true); Matrix K2=o.di->exchange(P); Matrix Jm=o.di->coulomb(P); double e=rel(K,K2); for(int m=1;m<=mm;m++) { auto I=o.di->m_indices(m), Jx=o.di->m_indices(-m); if(I.size()!=Jx.size()) continue; for(size_t i=0;i<I.size();i++) for(size_t j=0;j<I.size();j++) e=vp::worst({e,std::fabs(Jm(I[i],I[j])-Jm(Jx[i],Jx[j]))/nrm(Jm),std::fabs(K(I[i],I[j])-K(Jx[i],Jx[j]))/nrm(K)}); }
      emit("{\"e\":\"mirror\""+E("err",e)+"}"); return; }
  });
}
