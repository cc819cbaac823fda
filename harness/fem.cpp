// Drives the real finite-element basis; tokens are mapped to boundaries by a strictly increasing map.
#include "vp.h"
#include "PolynomialBasis.h"
#include "FiniteElementBasis.h"
#include "RadialBasis.h"
#include "lobatto.h"
#include <omp.h>
using namespace vp;
namespace pb=helfem::polynomial_basis; namespace ab=helfem::atomic::basis;
static uint64_t seed=1; static std::string mode="rand";
template <class T> T next(T x, bool up) { int e; double d=(double) x; (void) d; T eps=std::numeric_limits<T>::epsilon(); T a= x<T(0)?-x:x; if(a<T(1)/T(1000000)) a=T(1)/T(1000000); return up? x+a*eps : x-a*eps; }
// base(k): strictly increasing
template <class T> T base(int k) {
  Rng r(seed*7919+3); T v=T(0);
  if(mode=="neg") v=T(-3)-T((double)r.upto(1000))/T(777);
  T step=T(1)/T(5)+T((double) r.upto(1000))/T(900);
  T grow= mode=="grade"? T(1)+T((double) r.upto(1000))/T(3400) : T(1);
  for(int i=0;i<k;i++) { if(mode=="close") step=(r.upto(2)? T(1)/T(8)+T((double) r.upto(10000))/T(7777) : T(1)/T(10000000)+T((double) r.upto(1000))/T(1000000000)); else if(mode=="rand"||mode=="neg") step=T(1)/T(8)+T((double) r.upto(10000))/T(7777); v+=step; step*=grow; }
  if(k<0) v-=T(-k);
  return v;
}
template <class T> T value(int t) {
  if(mode=="int") return T(2*t);
  int k= t>=0? t/4 : -((-t+3)/4); int m=t-4*k;
  if(m==0) return base<T>(k);
  if(m==1) return next(base<T>(k),true);
  if(m==3) return next(base<T>(k+1),false);
  return (base<T>(k)*T(3)+base<T>(k+1)*T(2))/T(5);
}
template <class T> int token(T v, int lo, int hi) { for(int t=lo;t<=hi;t++) if(value<T>(t)==v) return t; return -9; }
static uint64_t H; static void mix(const void * p, size_t n) { for(size_t i=0;i<n;i++) { H^=((const unsigned char *)p)[i]; H*=1099511628211ull; } }
template <class T> void mixv(T x) { if(x==T(0)) x=T(0); if constexpr(sizeof(T)==8) mix(&x,8); else if constexpr(std::is_same_v<T,long double>) mix(&x,10); else mix(&x,16); }
template <class M> void mixm(const M & m) { long a=m.rows(),b=m.cols(); mix(&a,8); mix(&b,8); for(long j=0;j<b;j++) for(long i=0;i<a;i++) mixv(m(i,j)); }
template <class T> pb::PolynomialBasisT<T> * poly(int fam, int nn) { return pb::get_basis_T<T>(fam,nn); }
template <> pb::PolynomialBasisT<double> * poly<double>(int fam, int nn) { return pb::get_basis(fam,nn); }
struct Drv { virtual ~Drv() {} virtual void mk(const Args & a)=0; virtual void cmd(const Args & a)=0; };
template <class T> struct D: Drv {
  using M=helfem::Mat<T>; using V=helfem::Vec<T>;
  std::unique_ptr<pb::FiniteElementBasisT<T>> fe; int fam=0,nn=0; bool bc[4]; std::vector<int> toks; int hi=0;
  std::shared_ptr<const pb::PolynomialBasisT<T>> pl;
  V vals(const std::vector<int> & t) { V v(t.size()); for(size_t i=0;i<t.size();i++) v(i)=value<T>(t[i]); return v; }
  std::string obs() {
    size_t n=fe->get_nelem(); std::string idx="[",np="["; for(size_t i=0;i<n;i++) { size_t f,l; fe->get_idx(i,f,l); idx+=std::string(i?",":"")+"["+std::to_string((long)f)+","+std::to_string((long)l)+"]"; np+=std::string(i?",":"")+std::to_string(fe->get_nprim(i)); }
    V b=fe->get_bval(); std::vector<int> bt; for(int i=0;i<b.size();i++) bt.push_back(token<T>(b(i),-8,hi+8));
    return "{\"nbf\":"+std::to_string(fe->get_nbf())+",\"nel\":"+std::to_string(n)+",\"max\":"+std::to_string(fe->get_max_nprim())+",\"idx\":"+idx+"],\"np\":"+np+"],\"bv\":"+arr(bt)+",\"id\":["+std::to_string(fe->get_poly_id())+","+std::to_string(fe->get_poly_nnodes())+"]}";
  }
  std::string dig(pb::FiniteElementBasisT<T> & f) {
    H=1469598103934665603ull; mixm(f.get_bval()); V x(3); x<<T(-1)/T(3),T(1)/T(7),T(1)-T(1)/T(64);
    V w(3); w<<T(1),T(2),T(3);
    for(size_t i=0;i<f.get_nelem();i++) { size_t a,b; f.get_idx(i,a,b); mix(&a,8); mix(&b,8); mixm(f.eval_dnf(x,0,i)); mixm(f.eval_dnf(x,1,i)); mixv(f.element_length(i)); mixm(f.eval_coord(x,i)); }
    mixm(f.matrix_element(0,1,x,w,[](T r) { return r; })); mixm(f.eval_dnf(x,0)); mixm(f.vector_element(0,x,w,std::function<T(T)>()));
    char c[32]; snprintf(c,32,"%016lx",(unsigned long) H); return q(c);
  }
  void mk(const Args & a) override {
    // new T fam nn fl dl fr dr toks...
    fam=std::stoi(a[2]); nn=std::stoi(a[3]); for(int i=0;i<4;i++) bc[i]=std::stoi(a[4+i]); toks.clear(); for(size_t i=8;i<a.size();i++) toks.push_back(std::stoi(a[i]));
    hi=0; for(int t: toks) hi=std::max(hi,t);
    hi=std::max(hi,48);
    std::string r="ok",o="0";
    try { pl.reset(poly<T>(fam,nn)); fe=std::make_unique<pb::FiniteElementBasisT<T>>(pl,vals(toks),bc[0],bc[1],bc[2],bc[3]); o=obs(); } catch(std::exception & e) { r="err"; fe.reset(); fprintf(stderr,"EXC %s\n",e.what()); }
    emit("{\"e\":\"new\",\"fam\":"+std::to_string(fam)+",\"nn\":"+std::to_string(nn)+",\"bc\":["+b(bc[0])+","+b(bc[1])+","+b(bc[2])+","+b(bc[3])+"],\"toks\":"+arr(toks)+",\"r\":"+q(r)+",\"o\":"+o+"}");
  }
  std::string side(size_t iel, T x) {
    int ov=pl->get_noverlap(); size_t f,l; fe->get_idx(iel,f,l); V xv(1); xv(0)=x; std::string s="[";
    for(int d=0;d<ov;d++) { M m=fe->eval_dnf(xv,d,iel); T h=fe->element_length(iel); T tol=T(1e-6); for(int i=0;i<d;i++) if(h<T(1)) tol/=h; std::string t="["; bool fi=true;
      for(int j=0;j<m.cols();j++) { T v=m(0,j); T av=v<T(0)?-v:v; if(!(av<=tol)) { T dv=v-T(1); if(dv<T(0)) dv=-dv; t+=std::string(fi?"":",")+"["+std::to_string(f+j)+","+std::to_string(dv<=tol?1:99)+"]"; fi=false; } }
      s+=std::string(d?",":"")+t+"]"; }
    return s+"]";
  }
  T mx(const M & m) { T r=T(0); for(int j=0;j<m.cols();j++) for(int i=0;i<m.rows();i++) { T v=m(i,j); if(v<T(0)) v=-v; if(!(v<=r)) r=v; } return r; }
  bool near(const M & a, const M & b_, double tol, T scale) { if(a.rows()!=b_.rows()||a.cols()!=b_.cols()) return false; if(a.size()==0) return true; T d=mx(M(a-b_)); return d<=T(tol)*scale; }
  M place(std::function<M(size_t)> f) { size_t N=fe->get_nbf(); M r=M::Zero(N,N); for(size_t e=0;e<fe->get_nelem();e++) { M m=f(e); size_t a,l; fe->get_idx(e,a,l); for(int i=0;i<m.rows();i++) for(int j=0;j<m.cols();j++) r(a+i,a+j)+=m(i,j); if(m.rows()!=(int)(l-a+1)||m.cols()!=m.rows()) r(0,0)=std::numeric_limits<T>::quiet_NaN(); } return r; }
  void real(const std::string & op) {
    using BK=typename ab::FEMRadialBasisT<T>::BasisKind;
    std::string r="ok"; bool dev=true,symm=true,thr=true,glob=true; std::string nz="["; size_t n=0;
    try {
      ab::FEMRadialBasisT<T> rb(*fe,5*pl->get_nprim()); V x,w; helfem::lobatto::lobatto_compute<T>(pl->get_nprim()+6,x,w);
      std::function<T(T)> g=[](T r){ return T(1)/(T(1)+r*r); };
      std::function<M()> G; std::function<M(size_t)> E; bool sym=true;
      std::vector<T> bp; for(int t=2;t<=48;t+=4) bp.push_back(value<T>(t));
      if(op=="overlap") { G=[&]{ return rb.overlap(); }; E=[&](size_t e){ return rb.overlap(e); }; }
      else if(op=="kinetic") { G=[&]{ return rb.kinetic(); }; E=[&](size_t e){ return rb.kinetic(e); }; }
      else if(op=="kinetic_l") { G=[&]{ return rb.kinetic_l(); }; E=[&](size_t e){ return rb.kinetic_l(e); }; }
      else if(op=="nuclear") { G=[&]{ return rb.nuclear(); }; E=[&](size_t e){ return rb.nuclear(e); }; }
      else if(op=="b0b1") { sym=false; G=[&]{ return rb.matrix_element(BK::B0,BK::B1,g); }; E=[&](size_t e){ return rb.matrix_element(e,BK::B0,BK::B1,g); }; }
      else if(op=="b2b2") { G=[&]{ return rb.matrix_element(BK::B2,BK::B2); }; E=[&](size_t e){ return rb.matrix_element(e,BK::B2,BK::B2); }; }
      else if(op=="r0r0") { G=[&]{ return rb.matrix_element(BK::R0,BK::R0,g); }; E=[&](size_t e){ return rb.matrix_element(e,BK::R0,BK::R0,g); }; }
      else if(op=="fe11") { G=[&]{ return fe->matrix_element(1,1,x,w,g); }; E=[&](size_t e){ return fe->matrix_element(e,1,1,x,w,g); }; }
      else if(op=="fe01") { sym=false; G=[&]{ return fe->matrix_element(0,1,x,w,std::function<T(T)>()); }; E=[&](size_t e){ return fe->matrix_element(e,0,1,x,w,std::function<T(T)>()); }; }
      else if(op=="auto") { G=[&]{ return fe->matrix_element(0,0,g); }; E=[&](size_t e){ return fe->matrix_element(e,0,0,g,bp); }; }
      else if(op=="autobp") { G=[&]{ return fe->matrix_element(1,1,g,bp,2); }; E=[&](size_t e){ return fe->matrix_element(e,1,1,g); }; }
      else if(op=="panels") { G=[&]{ return rb.matrix_element(BK::B0,BK::B0,g); };
        E=[&](size_t e){ T c=T(2)/T(7); M m=rb.matrix_element(e,BK::B0,BK::B0,g,T(-1),c); m+=rb.matrix_element(e,BK::B0,BK::B0,g,c,T(1)); return m; }; }
      else if(op=="rint") { G=[&]{ return rb.matrix_element(BK::B0,BK::B0,[](T r){ return r*r; },std::vector<T>(),2); };
        E=[&](size_t e){ T c=T(-1)/T(3); M m=rb.radial_integral(2,e,T(-1),c); m+=rb.radial_integral(2,e,c,T(1)); return m; }; }
      else if(op=="kinks"||op=="rkinks") { // a weight with a kink at every breakpoint; the reference splits every element there
        std::function<T(T)> kf=[bp](T r){ T s=T(0); for(size_t k=0;k<bp.size();k++) { T d=r-bp[k]; s+=T(k%3+1)*(d<T(0)?-d:d); } return s; };
        V x1,w1; helfem::lobatto::lobatto_compute<T>(pl->get_nprim()+8,x1,w1); const bool rk= op=="rkinks";
        if(rk) G=[&rb,kf,bp]{ return rb.matrix_element(BK::B0,BK::B1,kf,bp,1); }; else G=[this,kf,bp]{ return fe->matrix_element(0,1,kf,bp,1); };
        sym=false;
        E=[this,kf,bp,x1,w1](size_t e){ std::vector<T> cut{T(-1)}; for(T p: bp) { T xp=(p-fe->element_midpoint(e))/fe->scaling_factor(e); if(xp>T(-1)&&xp<T(1)) cut.push_back(xp); } cut.push_back(T(1)); std::sort(cut.begin(),cut.end());
          M m; for(size_t k=0;k+1<cut.size();k++) { T mid=(cut[k]+cut[k+1])/T(2), hw=(cut[k+1]-cut[k])/T(2); V xs=(V::Constant(x1.size(),mid)+hw*x1).eval(); M l=fe->eval_dnf(xs,0,e), r=fe->eval_dnf(xs,1,e); V y=fe->eval_coord(xs,e); V ww=w1; for(int i=0;i<ww.size();i++) ww(i)*=hw*fe->scaling_factor(e)*kf(y(i)); M c=l.transpose()*ww.asDiagonal()*r; if(k) m+=c; else m=c; }
          return m; };
      }
      omp_set_num_threads(1); M g1=G(); omp_set_num_threads(fe->get_nelem()>3? 8 : 3); M g3=G(); omp_set_num_threads(1);
      T sc=mx(g1); if(!(sc>T(0))) sc=T(1); M s=place(E); n=g1.rows();
      thr=near(g1,g3,1e-10,sc); dev=near(g1,s,1e-9,sc); if(sym) symm=near(g1,M(g1.transpose()),1e-9,sc);
      for(int i=0;i<g1.rows();i++) { int lo=-1,hi_=-1; for(int j=0;j<g1.cols();j++) if(!(g1(i,j)==T(0))) { if(lo<0) lo=j; hi_=j; } nz+=std::string(i?",":"")+(lo<0?"[]":"["+std::to_string(lo)+","+std::to_string(hi_)+"]"); }
      // global evaluation, coordinates and weights are the element ones placed in order
      V cc=fe->eval_coord(x), ww=fe->eval_weights(w); int nx=x.size();
      for(int d=0;d<2;d++) { M f=fe->eval_dnf(x,d); glob=glob && f.rows()==(int)(nx*fe->get_nelem()) && f.cols()==(int) fe->get_nbf() && cc.size()==f.rows() && ww.size()==f.rows(); if(!glob) break;
        for(size_t e=0;e<fe->get_nelem();e++) { M m=M::Zero(nx,fe->get_nbf()); size_t a,l; fe->get_idx(e,a,l); M fe_=fe->eval_dnf(x,d,e); for(int j=0;j<fe_.cols();j++) m.col(a+j)=fe_.col(j); T s2=mx(m); if(!(s2>T(1))) s2=T(1); glob=glob && near(M(f.block(e*nx,0,nx,fe->get_nbf())),m,1e-10,s2);
          V c1=fe->eval_coord(x,e); for(int i=0;i<nx;i++) { T dd=cc(e*nx+i)-c1(i); T d2=ww(e*nx+i)-w(i)*fe->element_length(e)/T(2); if(dd<T(0)) dd=-dd; if(d2<T(0)) d2=-d2; glob=glob && dd<=T(1e-10)*(T(1)+ (c1(i)<T(0)?-c1(i):c1(i))) && d2<=T(1e-10)*fe->element_length(e); } } }
    } catch(std::exception & e) { r="err"; fprintf(stderr,"EXC %s\n",e.what()); }
    emit("{\"e\":\"real\",\"op\":"+q(op)+",\"r\":"+q(r)+",\"dev\":"+b(dev)+",\"sym\":"+b(symm)+",\"thr\":"+b(thr)+",\"glob\":"+b(glob)+",\"n\":"+std::to_string(n)+",\"nz\":"+nz+"]}");
  }
  // ---- evaluation: derivatives of the interpolating polynomial are the oracle ----
  std::unique_ptr<ab::FEMRadialBasisT<T>> rb; int nq=0;
  static V nodes(int N) { V z(N); for(int i=0;i<N;i++) z(i)=T(-std::cos(M_PI*(i+0.5)/N)); return z; }
  // n-th derivative at y of the polynomial through values at z
  static M dmat(const V & z, const V & y, int n) {
    const int N=z.size(); std::vector<T> w(N,T(1)); for(int i=0;i<N;i++) for(int j=0;j<N;j++) if(i!=j) w[i]/=(z(i)-z(j));
    M Dm=M::Zero(N,N); for(int i=0;i<N;i++) for(int j=0;j<N;j++) if(i!=j) { Dm(i,j)=w[j]/w[i]/(z(i)-z(j)); Dm(i,i)-=Dm(i,j); }
    M L(y.size(),N); for(int i=0;i<y.size();i++) for(int j=0;j<N;j++) { T p=w[j]; for(int k=0;k<N;k++) if(k!=j) p*=y(i)-z(k); L(i,j)=p; }
    for(int k=0;k<n;k++) L=(L*Dm).eval();
    return L;
  }
  static T ab_(T x) { return x<T(0)?-x:x; }
  // largest deviation, column by column, in units of 1e-9 of the column's scale
  static long devi(const M & v, const M & r, const std::vector<T> & floor_) {
    if(v.rows()!=r.rows()||v.cols()!=r.cols()) return 2000000000;
    T wst=T(0); for(int j=0;j<v.cols();j++) { T sc=floor_.empty()? T(0) : floor_[j], d=T(0); for(int i=0;i<v.rows();i++) { T e=ab_(v(i,j)-r(i,j)), m=ab_(r(i,j)); if(!(e<=d)) d=e; if(m>sc) sc=m; } if(d==T(0)) continue; T q_=d/sc; if(!(q_<=wst)) wst=q_; }
    T o=wst*T(1e9); return o<T(2e9)? (long) (double) o : 2000000000;
  }
  static std::vector<T> fl_(const M & m, T f) { std::vector<T> r; for(int j=0;j<m.cols();j++) { T s=T(0); for(int i=0;i<m.rows();i++) if(ab_(m(i,j))>s) s=ab_(m(i,j)); r.push_back(s*f); } return r; }
  V pts() { Rng r(seed*31+5); V x(7); x(0)=T(-1); for(int i=1;i<6;i++) x(i)=T(2*r.uni()-1); x(6)=T(1); return x; }
  int deg() { return std::max(1,(int) pl->get_nprim()-1); }
  // n-th derivative of B/r in the first element, from values away from the origin
  M overref(const V & y, int n, std::vector<T> & fl) {
    const int N=deg(); V z=nodes(N); M g=fe->eval_dnf(z,0,(size_t) 0); V r=fe->eval_coord(z,(size_t) 0); for(int i=0;i<N;i++) for(int j=0;j<g.cols();j++) g(i,j)/=r(i);
    T s=fe->scaling_factor(0), f=T(1e-3); for(int k=0;k<n;k++) f*=T(N*N)/s; fl=fl_(g,f);
    M m=dmat(z,y,n)*g; for(int k=0;k<n;k++) m/=s;
    return m;
  }
  M randc(int n) { Rng r(seed*17+n); M m(fe->get_nbf(),n); for(int i=0;i<m.rows();i++) for(int j=0;j<n;j++) m(i,j)=T(2*r.uni()-1); return m; }
  ab::FEMRadialBasisT<T> & radial() { if(!rb) { nq=3+(int) (seed%13); rb=std::make_unique<ab::FEMRadialBasisT<T>>(*fe,nq); } return *rb; }
  static std::string sh(const M & m) { return "["+std::to_string(m.rows())+","+std::to_string(m.cols())+"]"; }
  bool evalcmd(const Args & a) {
    if(a[0]=="dnf"||a[0]=="over") {
      size_t el=std::stoi(a[1]); int n=std::stoi(a[2]); std::string r="ok",s="[0,0]"; long dev=0; V y=pts();
      try {
        M v; if(a[0]=="dnf") v=fe->eval_dnf(y,n,el); else v=fe->eval_over_r(y,n,el);
        s=sh(v); M ref; std::vector<T> fl;
        if(a[0]=="over") ref=overref(y,n,fl);
        else { const int N=deg()+1; V z=nodes(N); M f=fe->eval_dnf(z,n-1,el); T sf=fe->scaling_factor(el); fl=fl_(f,T(1e-3)*T(N*N)/sf); ref=dmat(z,y,1)*f/sf;
          M w; fe->eval_dnf(y,w,n,el); if(devi(w,v,fl)>1000) s="[-1,-1]"; }
        dev=devi(v,ref,fl);
      } catch(std::logic_error & e) { r="err"; } catch(std::exception & e) { r="bad"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":"+q(a[0])+",\"el\":"+std::to_string(el)+",\"n\":"+std::to_string(n)+",\"r\":"+q(r)+",\"np\":7,\"sh\":"+s+",\"dev\":"+std::to_string(dev)+"}"); return true;
    }
    if(a[0]=="fill") {
      std::string r="ok"; try { radial().fill_quadrature_cache(std::stoi(a[1]),std::stoi(a[2])); } catch(std::logic_error & e) { r="err"; } catch(std::exception & e) { r="bad"; }
      emit("{\"e\":\"fill\",\"d\":"+std::string(b(std::stoi(a[1])))+",\"l\":"+b(std::stoi(a[2]))+",\"r\":"+q(r)+"}"); return true;
    }
    if(a[0]=="rad") {
      int n=std::stoi(a[1]); bool xf=a[2]=="x"; size_t el=std::stoi(a[3]); std::string r="ok",s="[0,0]"; long dev=0,wd=0,rd=0; int np=0;
      try {
        auto & B=radial(); V xq=B.get_xq(); V y= xf? pts() : xq; np=y.size();
        M v= n==0? (xf? B.get_bf(y,el) : B.get_bf(el)) : n==1? (xf? B.get_df(y,el) : B.get_df(el)) : (xf? B.get_lf(y,el) : B.get_lf(el)); s=sh(v);
        M ref; std::vector<T> fl;
        if(el==0) ref=overref(y,n,fl);
        else { V rr=fe->eval_coord(y,el); M R=fe->eval_dnf(y,0,el); T rmin=ab_(rr(0)); for(int i=0;i<rr.size();i++) if(ab_(rr(i))<rmin) rmin=ab_(rr(i));
          for(int i=0;i<R.rows();i++) R.row(i)/=rr(i); fl=fl_(R,T(0)); M R0=R;
          for(int k=1;k<=n;k++) { M Bk=fe->eval_dnf(y,k,el); for(int i=0;i<R.rows();i++) for(int j=0;j<R.cols();j++) R(i,j)=(Bk(i,j)-T(k)*R(i,j))/rr(i); for(auto & x: fl) x=T(0); }
          if(n) { T f=T(1e-3); for(int k=0;k<n;k++) f*=T(1)/rmin; fl=fl_(R0,f); } ref=R; }
        dev=devi(v,ref,fl);
        T h=fe->element_length(el), sc=h; T mid=fe->element_midpoint(el); if(ab_(mid)>sc) sc=ab_(mid);
        V w=B.get_wrad(el), w2=V::LinSpaced(nq,T(1),T(2)), wx=B.get_wrad(w2,el), rq=B.get_r(el), ry=B.get_r(y,el);
        V w3=V::LinSpaced(3,T(1),T(2)), w4=V::LinSpaced(nq+2,T(1),T(2)), wy=B.get_wrad(w3,el), wz=B.get_wrad(w4,el); T dw=T(0), dr=T(0); T sw=T(0); for(int i=0;i<w.size();i++) sw+=w(i); dw=ab_(sw-h)/h; for(int i=0;i<nq;i++) { T d=ab_(wx(i)-w2(i)*h/T(2))/h; if(!(d<=dw)) dw=d; }
        for(int i=0;i<3;i++) { T d=ab_(wy(i)-w3(i)*h/T(2))/h; if(!(d<=dw)) dw=d; } for(int i=0;i<nq+2;i++) { T d=ab_(wz(i)-w4(i)*h/T(2))/h; if(!(d<=dw)) dw=d; }
        // first moment of the rule: centre of the element
        T m1=T(0); for(int i=0;i<w.size();i++) m1+=w(i)*rq(i); { T d=ab_(m1/h-mid)/sc; if(!(d<=dr)) dr=d; }
        for(int i=0;i<nq;i++) { T d=ab_(rq(i)-(mid+xq(i)*h/T(2)))/sc; if(!(d<=dr)) dr=d; }
        for(int i=0;i<np;i++) { T d=ab_(ry(i)-(mid+y(i)*h/T(2)))/sc, e=ab_(B.get_r(y(i),el)-ry(i))/sc; if(!(d<=dr)) dr=d; if(!(e<=dr)) dr=e; }
        if((int) w.size()!=nq||(int) rq.size()!=nq) dw=T(1);
        auto u=[](T x) { x*=T(1e9); return x<T(2e9)? (long)(double) x : 2000000000L; }; wd=u(dw); rd=u(dr);
      } catch(std::logic_error & e) { r="err"; } catch(std::exception & e) { r="bad"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"rad\",\"el\":"+std::to_string(el)+",\"n\":"+std::to_string(n)+",\"form\":"+q(a[2])+",\"r\":"+q(r)+",\"np\":"+std::to_string(np)+",\"sh\":"+s+",\"dev\":"+std::to_string(dev)+",\"wdev\":"+std::to_string(wd)+",\"rdev\":"+std::to_string(rd)+"}"); return true;
    }
    if(a[0]=="orb") {
      int t=std::stoi(a[1]); T r=value<T>(t); std::string rs="ok"; long dev=0; bool zero=false; size_t len=0;
      try {
        M C=randc(3); V v=radial().eval_orbs(C,r); len=v.size(); zero=true; for(int i=0;i<v.size();i++) zero=zero && v(i)==T(0);
        long best=0;
        for(size_t e=0;e<fe->get_nelem();e++) if(fe->element_begin(e)<=r && r<=fe->element_end(e)) {
          V x(1); x(0)=(r-fe->element_midpoint(e))/fe->scaling_factor(e); const bool at0= r<T(1e-8)*fe->element_end(0); if(at0) x(0)=T(-1); M bb= at0? fe->eval_dnf(x,1,e) : fe->eval_dnf(x,0,e); size_t f,l_; fe->get_idx(e,f,l_); M o=bb*C.block(f,0,l_-f+1,3); if(!at0) o/=r; T big=T(0); for(int j=0;j<bb.cols();j++) big+=ab_(bb(0,j)); if(!at0) big/=r;
          std::vector<T> fl(3,big); M vm(1,3); for(int i=0;i<3;i++) vm(0,i)=v(i); best=std::max(best,devi(vm,o,fl)); }
        dev=best;
      } catch(std::exception & e) { rs="err"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"orb\",\"t\":"+std::to_string(t)+",\"r\":"+q(rs)+",\"len\":"+std::to_string(len)+",\"zero\":"+b(zero)+",\"dev\":"+std::to_string(dev)+"}"); return true;
    }
    if(a[0]=="nuc") {
      std::string rs="ok",b1="ok",b2="ok"; long o=0,d=0,g=0;
      try {
        auto & B=radial(); M C=randc(3); V x(1); x(0)=T(-1); size_t f,l_; fe->get_idx(0,f,l_); std::vector<T> fa,fb; M R0=overref(x,0,fa)*C.block(f,0,l_-f+1,3), R1=overref(x,1,fb)*C.block(f,0,l_-f+1,3);
        T s0=T(0),s1=T(0); for(auto v: fa) s0+=v*T(1000); for(auto v: fb) s1+=v*T(10);
        M no=B.nuclear_orbital(C); o=devi(no,R0,std::vector<T>(3,s0*T(1e-3)));
        M P=C*C.transpose(); T den=T(0),gr=T(0); for(int i=0;i<3;i++) { den+=R0(0,i)*R0(0,i); gr+=T(2)*R0(0,i)*R1(0,i); }
        M v1(1,1),v2(1,1); v1(0,0)=B.nuclear_density(P); v2(0,0)=den; d=devi(v1,v2,std::vector<T>(1,s0*s0*T(1e-3)));
        v1(0,0)=B.nuclear_density_gradient(P); v2(0,0)=gr; g=devi(v1,v2,std::vector<T>(1,s0*s1*T(1e-3)));
        M bad=M::Zero(P.rows()+1,P.rows()); try { B.nuclear_density(bad); } catch(std::logic_error &) { b1="err"; } try { M bb=bad.transpose(); B.nuclear_density_gradient(bb); } catch(std::logic_error &) { b2="err"; }
      } catch(std::exception & e) { rs="err"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"nuc\",\"r\":"+q(rs)+",\"orb\":"+std::to_string(o)+",\"den\":"+std::to_string(d)+",\"grad\":"+std::to_string(g)+",\"bad\":["+q(b1)+","+q(b2)+"]}"); return true;
    }
    if(a[0]=="prec") {
      using Q=_Float128; size_t el=std::stoi(a[1]); int n=std::stoi(a[2]); std::string rs="ok"; long dev=0,mat=0;
      try {
        std::shared_ptr<const pb::PolynomialBasisT<Q>> pq(fam>=100? nullptr : poly<Q>(fam,nn));
        if(pq) {
          helfem::Vec<Q> bv(toks.size()); for(size_t i=0;i<toks.size();i++) bv(i)=value<Q>(toks[i]);
          pb::FiniteElementBasisT<Q> fq(pq,bv,bc[0],bc[1],bc[2],bc[3]); V y=pts(); helfem::Vec<Q> yq(y.size()); for(int i=0;i<y.size();i++) yq(i)=Q(y(i));
          auto down=[](const helfem::Mat<Q> & m) { M r(m.rows(),m.cols()); for(int i=0;i<m.rows();i++) for(int j=0;j<m.cols();j++) r(i,j)=T(m(i,j)); return r; };
          M ref=down(fq.eval_dnf(yq,n,el)); M z=down(fq.eval_dnf(yq,0,el)); T f=T(1e-3); for(int k=0;k<n;k++) f*=T(deg()*deg())/fe->scaling_factor(el); dev=devi(fe->eval_dnf(y,n,el),ref,fl_(z,f));
          ab::FEMRadialBasisT<Q> rq(fq,10); auto & B=radial(); M o1=B.overlap(el), o2=down(rq.overlap(el)), k1=B.kinetic(el), k2=down(rq.kinetic(el));
          mat=std::max(devi(o1,o2,fl_(o2,T(1))),devi(k1,k2,fl_(k2,T(1)))); }
      } catch(std::exception & e) { rs="err"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"prec\",\"el\":"+std::to_string(el)+",\"n\":"+std::to_string(n)+",\"r\":"+q(rs)+",\"dev\":"+std::to_string(dev)+",\"mat\":"+std::to_string(mat)+"}"); return true;
    }
    return false;
  }
  void cmd(const Args & a) override {
    if(!fe) return;
    if(evalcmd(a)) return;
    if(a[0]=="add") {
      int t=std::stoi(a[1]); hi=std::max(hi,t); std::string before=dig(*fe),r="ok",o="0",d="\"\"",ref="\"\"";
      if(std::find(toks.begin(),toks.end(),t)==toks.end()) toks.push_back(t);
      std::sort(toks.begin(),toks.end());
      try { fe->add_boundary(value<T>(t)); o=obs(); d=dig(*fe); pb::FiniteElementBasisT<T> f(pl,vals(toks),bc[0],bc[1],bc[2],bc[3]); ref=dig(f); } catch(std::exception & e) { r="err"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"add\",\"t\":"+std::to_string(t)+",\"r\":"+q(r)+",\"o\":"+o+",\"before\":"+before+",\"dig\":"+d+",\"ref\":"+ref+"}");
    } else if(a[0]=="find") {
      int t=std::stoi(a[1]); std::string r="ok"; long el=-1; try { el=(long) fe->find_element(value<T>(t)); } catch(std::exception & e) { r="err"; }
      emit("{\"e\":\"find\",\"t\":"+std::to_string(t)+",\"r\":"+q(r)+",\"el\":"+std::to_string(el)+"}");
    } else if(a[0]=="map") {
      size_t el=std::stoi(a[1]); int bt=-9,et=-9; std::string len="err",mid="err",out0="ok",out1="ok",in="ok"; bool inc=true,ends=true,inv=true;
      if(a.size()<3) el=el%(fe->get_nelem()+2);
      try { bt=token<T>(fe->element_begin(el),-8,hi+8); } catch(std::exception &) {}
      try { et=token<T>(fe->element_end(el),-8,hi+8); } catch(std::exception &) {}
      auto ne=[](T x, T y, T s) { T d=x-y; if(d<T(0)) d=-d; if(s<T(0)) s=-s; return d<=T(1e-11)*s; };
      try { T l=fe->element_length(el), bb=fe->element_begin(el), ee=fe->element_end(el); T s=(bb<T(0)?-bb:bb)+(ee<T(0)?-ee:ee); len=ne(l,ee-bb,s)?"ok":"bad"; if(!ne(fe->scaling_factor(el),l/T(2),s)) len="bad"; } catch(std::exception &) {}
      try { T bb=fe->element_begin(el), ee=fe->element_end(el); T s=(bb<T(0)?-bb:bb)+(ee<T(0)?-ee:ee); mid=ne(fe->element_midpoint(el),(bb+ee)/T(2),s)?"ok":"bad"; } catch(std::exception &) { try { fe->element_midpoint(el); mid="noerr"; } catch(std::exception &) {} }
      if(el<fe->get_nelem()) {
        // reference points, dense near both ends
        std::vector<T> xs{T(-1)}; for(int k=7;k>=1;k--) { T e=T(1); for(int j=0;j<k;j++) e/=T(10); xs.push_back(T(-1)+e); } for(int i=-14;i<=14;i++) xs.push_back(T(i)/T(16)); for(int k=1;k<=7;k++) { T e=T(1); for(int j=0;j<k;j++) e/=T(10); xs.push_back(T(1)-e); } xs.push_back(T(1)); std::sort(xs.begin(),xs.end());
        const int nx=xs.size(); V x(nx); for(int i=0;i<nx;i++) x(i)=xs[i]; V y=fe->eval_coord(x,el); T bb=fe->element_begin(el), ee=fe->element_end(el), len_=ee-bb; T s=(bb<T(0)?-bb:bb)+(ee<T(0)?-ee:ee);
        bool wide=len_>T(1e-3)*s; // otherwise neighbouring images coincide to rounding
        for(int i=1;i<nx;i++) inc=inc && (wide? y(i)>y(i-1) : y(i)>=y(i-1));
        for(int i=0;i<nx;i++) inc=inc && ne(fe->eval_coord(x(i),el),y(i),s) && ne(y(i),bb+len_*(T(1)+x(i))/T(2),s);
        V yall=fe->eval_coord(x); inc=inc && yall.size()==(Eigen::Index)(nx*fe->get_nelem()); for(int i=0;inc && i<nx;i++) inc=ne(yall(el*nx+i),y(i),s);
        ends=ne(y(0),bb,s) && ne(y(nx-1),ee,s);
        // interior points only: the images of the end points may fall outside by rounding
        try { V yi=y.segment(1,nx-2); V z=fe->eval_prim(yi,el); for(int i=0;i<nx-2;i++) { T d=z(i)-x(i+1); if(d<T(0)) d=-d; inv=inv && d<=T(1e-10)*(T(1)+s/len_); } V be(2); be<<bb,ee; V zz=fe->eval_prim(be,el); for(int i=0;i<2;i++) { T d=zz(i)-T(i?1:-1); if(d<T(0)) d=-d; inv=inv && d<=T(1e-9)*(T(1)+s/len_); }
          V rv(3); rv<<yi(nx-3),yi(0),yi(nx/2); V rz=fe->eval_prim(rv,el); for(int i=0;i<3;i++) { T d=rz(i)-z(i==0?nx-3:i==1?0:nx/2); if(d<T(0)) d=-d; inv=inv && d<=T(1e-10)*(T(1)+s/len_); } } catch(std::exception &) { in="err"; }
        // one point outside, in any position, by much or by little
        out0=out1="err"; for(int far=0;far<3;far++) for(int pos=0;pos<4;pos++) { T o= far==2? T(100)*len_ : far? len_/T(100) : len_/T(1000000); V yo=V::Constant(4,(bb+ee)/T(2)); yo(1)=bb+len_/T(5); yo(pos)=bb-o; try { fe->eval_prim(yo,el); out0="ok"; } catch(std::exception &) {}
          yo(pos)=ee+o; try { fe->eval_prim(yo,el); out1="ok"; } catch(std::exception &) {} }
        for(int side=0;side<2;side++) { V yo(1); yo<<(side? ee+len_/T(100) : bb-len_/T(100)); try { fe->eval_prim(yo,el); (side?out1:out0)="ok"; } catch(std::exception &) {} }
      }
      emit("{\"e\":\"map\",\"el\":"+std::to_string(el)+",\"beg\":"+std::to_string(bt)+",\"end\":"+std::to_string(et)+",\"len\":"+q(len)+",\"mid\":"+q(mid)+",\"inc\":"+b(inc)+",\"ends\":"+b(ends)+",\"inv\":"+b(inv)+",\"out\":["+q(out0)+","+q(out1)+"],\"in\":"+q(in)+"}");
    } else if(a[0]=="bnd") {
      size_t n=fe->get_nelem(); std::string L="[",R="[";
      for(size_t k=0;k<=n;k++) { L+=std::string(k?",":"")+(k>0?side(k-1,T(1)):"[]"); R+=std::string(k?",":"")+(k<n?side(k,T(-1)):"[]"); }
      emit("{\"e\":\"bnd\",\"left\":"+L+"],\"right\":"+R+"]}");
    } else if(a[0]=="asm") {
      int s=std::stoi(a[1]), f=std::stoi(a[2]); V x(2),w(2); x<<T(-1),T(1); w<<T(1),T(2);
      auto ev=[&](int c0,int c1,int c2,int c3,int kind,int md,int off) { return [=,this](V xx, size_t e) { M m(2,fe->get_nprim(e)); for(int i=0;i<2;i++) for(int j=0;j<m.cols();j++) { int ee=(int) e; m(i,j)=T(((c0*s+c1*ee+c2*i+c3*j+(kind?ee*i:ee*j))%md)-off); } return m; }; };
      std::function<M(V,size_t)> A=ev(1,7,3,5,0,7,3), B=ev(2,5,4,3,1,5,2); T big=T(1); for(int i=0;i<40;i++) big*=T(2); const T fs= f==2? big : f==3? T(1)/big : T(1); std::function<T(T)> ff; if(f) ff=[fs](T r){ return fs*r; };
      omp_set_num_threads(1+s%8); M m=fe->matrix_element(A,B,x,w,ff); V v=fe->vector_element(A,x,w,ff); omp_set_num_threads(1);
      std::vector<long long> mi,vi; for(int i=0;i<m.rows();i++) for(int j=0;j<m.cols();j++) mi.push_back((long long) (m(i,j)/fs)); for(int i=0;i<v.size();i++) vi.push_back((long long) (v(i)/fs));
      emit("{\"e\":\"asm\",\"s\":"+std::to_string(s)+",\"f\":"+std::to_string(f)+",\"n\":["+std::to_string(m.rows())+","+std::to_string(m.cols())+"],\"m\":"+arr(mi)+",\"v\":"+arr(vi)+"}");
    } else if(a[0]=="real") real(a[1]);
  }
};
int main() {
  init(); std::unique_ptr<Drv> d;
  auto reset=[&]() { d.reset(); mode="rand"; emit("{\"e\":\"begin\"}"); };
  return loop(reset,[&](const Args & a, const std::string &) {
    if(a[0]=="seed") { seed=std::stoull(a[1]); return; }
    if(a[0]=="mode") { mode=a[1]; return; }
    if(a[0]=="new") { if(a[1]=="d") d=std::make_unique<D<double>>(); else if(a[1]=="l") d=std::make_unique<D<long double>>(); else d=std::make_unique<D<_Float128>>(); d->mk(a); return; }
    if(d) d->cmd(a);
  });
}
