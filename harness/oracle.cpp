// Matrices of the two-dimensional bases against integrals of the functions they stand for, done directly.
#include "vp.h"
#include "atomic/TwoDBasis.h"
#include "sadatom/basis.h"
#include "diatomic/basis.h"
#include "PolynomialBasis.h"
#include "FiniteElementBasis.h"
#include <Eigen/Dense>
#include <omp.h>
using namespace vp; using namespace helfem; using helfem::Matrix; using helfem::Vector; typedef std::vector<double> V;
static std::string N(long long x) { return std::to_string(x); }
static long long fx(double x, double u) { double y=x*u; if(!(std::fabs(y)<2e9)) return 2000000000ll; return std::llround(y); }
// ---- elementary tools ----
struct Rule { V x,w; };
static const Rule & gauss(int n) { static std::map<int,Rule> c; auto i=c.find(n); if(i!=c.end()) return i->second; Rule r; r.x.resize(n); r.w.resize(n); for(int k=0;k<n;k++) { double x=std::cos(M_PI*(k+0.75)/(n+0.5)), dp=1; for(int t=0;t<100;t++) { double p0=1,p1=x; for(int l=2;l<=n;l++) { double p2=((2*l-1)*x*p1-(l-1)*p0)/l; p0=p1; p1=p2; } dp=n*(x*p1-p0)/(x*x-1); double d=p1/dp; x-=d; if(std::fabs(d)<1e-16) break; } r.x[k]=x; r.w[k]=2/((1-x*x)*dp*dp); } return c[n]=r; }
// normalised associated Legendre function with its phase, and its derivative by the polar angle
static double plm(int l, int m, double c) { double s=std::sqrt(std::max(0.0,(1-c)*(1+c))), p=std::sqrt(1/(4*M_PI)); for(int k=1;k<=m;k++) p*=-std::sqrt((2*k+1)/(2.0*k))*s; if(l==m) return p; double q=p*c*std::sqrt(2*m+3.0); for(int k=m+2;k<=l;k++) { double a=std::sqrt((4.0*k*k-1)/((double)k*k-m*m)), b=std::sqrt(((k-1.0)*(k-1)-m*m)/(4.0*(k-1)*(k-1)-1)); double t=a*(c*q-b*p); p=q; q=t; } return q; }
static double Th(int l, int m, double c) { if(std::abs(m)>l) return 0; double v=plm(l,std::abs(m),c); return m<0 && m%2? -v : v; }
static double dTh(int l, int m, double c) { double a= m+1<=l? std::sqrt((l-m)*(l+m+1.0))*Th(l,m+1,c) : 0, b= m-1>=-l? std::sqrt((l+m)*(l-m+1.0))*Th(l,m-1,c) : 0; return 0.5*(a-b); } // d/dtheta
static double PL(int L, double x) { double p=1,q=x; if(L==0) return 1; for(int l=2;l<=L;l++) { double t=((2*l-1)*x*q-(l-1)*p)/l; p=q; q=t; } return q; }
// functions of a spheroidal radius above one: first kind all L for an M, second kind (positive)
static void Pout(int M, int Lm, double x, V & p) { p.assign(Lm+1,0); double v=1, s=std::sqrt((x-1)*(x+1)); for(int k=1;k<=M;k++) v*=(2*k-1)*s; if(M<=Lm) p[M]=v; if(M+1<=Lm) p[M+1]=(2*M+1)*x*v; for(int l=M+2;l<=Lm;l++) p[l]=((2*l-1)*x*p[l-1]-(l+M-1)*p[l-2])/(l-M); }
static double Qone(int M, int L, double x) { double s=std::sqrt((x-1)*(x+1)), h=0.04, r=0; for(int k=0;k<4000;k++) { double t=k*h, v= std::cosh(M*t)*std::pow(x+s*std::cosh(t),-(L+1)); r+= k? v : 0.5*v; if(k>10 && v<1e-18*r) break; } double f=1; for(int k=L-M+1;k<=L;k++) f*=k; return r*h*f; }
static void Qout(int M, int Lm, double x, V & q) { q.assign(Lm+2,0); int a=std::max(Lm,M); V t(a+2,0); t[a+1]=Qone(M,a+1,x); t[a]=Qone(M,a,x); for(int l=a;l>M;l--) t[l-1]=((2*l+1)*x*t[l]-(l-M+1)*t[l+1])/(l+M); for(int l=M;l<=Lm;l++) q[l]=t[l]; }
static double sph_i(int l, double x) { double t=1; for(int k=1;k<=l;k++) t*=x/(2*k+1); double s=0; for(int k=0;k<4000;k++) { s+=t; t*=x*x/2/((k+1)*(2*l+2*k+3)); if(t<1e-18*s) break; } return s; }
static double sph_k(int l, double x) { double a=std::exp(-x)/x, b=a*(1+1/x); if(l==0) return a; for(int k=1;k<l;k++) { double c=a+(2*k+1)/x*b; a=b; b=c; } return b; }
// multipole of erfc(mu r12)/r12, r>s
static double erfcF(int L, double mu, double r, double s) { if(r<s) std::swap(r,s); double hi=std::min(1.0,-1+8/(mu*s)); const Rule & g=gauss(28); double v=0; int np= mu*s*(hi+1)>4? 2 : 1; for(int p=0;p<np;p++) { double a=-1+(hi+1)*p/np,b=-1+(hi+1)*(p+1)/np; for(size_t k=0;k<g.x.size();k++) { double x=0.5*(a+b)+0.5*(b-a)*g.x[k]; v+=0.5*(b-a)*g.w[k]*PL(L,s*(1-x*x)/(2*r)-x)*std::erfc(mu*(r+s*x)); } } return v*(2*L+1)/(2*r); }
// ---- the basis ----
struct B { std::string k; int fam,nn,Z,Zl,Zr,lmax; bool zd,prep=false; V g; std::vector<int> l,m,off,sz,first; double Rh; std::unique_ptr<atomic::basis::TwoDBasis> at; std::unique_ptr<sadatom::basis::TwoDBasis> sad; std::unique_ptr<diatomic::basis::TwoDBasis> dia; std::unique_ptr<polynomial_basis::FiniteElementBasis> fem; int nr=0,nbf=0; std::map<std::string,std::vector<Matrix>> R; Matrix S1; };
static std::unique_ptr<B> W;
struct Pt { size_t e; double x,w; Matrix f,d; size_t i0; };
static void eval(Pt & p) { double lo=W->g[p.e],hi=W->g[p.e+1]; Vector t(1); t(0)=(2*p.x-lo-hi)/(hi-lo); t(0)=std::max(-1.0,std::min(1.0,t(0))); p.f=W->fem->eval_dnf(t,0,p.e); p.d=W->fem->eval_dnf(t,1,p.e); size_t i1; W->fem->get_idx(p.e,p.i0,i1); }
static void panel(std::vector<Pt> & v, size_t e, double lo, double hi, int n) { const Rule & g=gauss(n); for(int k=0;k<n;k++) { Pt p; p.e=e; p.x=0.5*(lo+hi)+0.5*(hi-lo)*g.x[k]; p.w=0.5*(hi-lo)*g.w[k]; eval(p); v.push_back(p); } }
static std::vector<Pt> points(int n, double split) { std::vector<Pt> v; for(size_t e=0;e+1<W->g.size();e++) { double lo=W->g[e],hi=W->g[e+1]; if(split>lo && split<hi) { panel(v,e,lo,split,n); panel(v,e,split,hi,n); } else panel(v,e,lo,hi,n); } return v; }
static std::vector<Pt> outer(int n, int dyad) { std::vector<Pt> v; for(size_t e=0;e+1<W->g.size();e++) { double lo=W->g[e],hi=W->g[e+1]; if(e==0) { double t=hi; for(int k=0;k<dyad;k++) { panel(v,e,t/2,t,n*2/3); t/=2; } panel(v,e,0,t,n*2/3); } else panel(v,e,lo,hi,n); } return v; }
// radial matrix of f between functions (da,db: derivatives)
typedef std::function<double(double)> F1;
static Matrix radial(const std::vector<Pt> & v, const F1 & f, bool da, bool db) { Matrix M=Matrix::Zero(W->nr,W->nr); for(auto & p: v) { const Matrix & x=da? p.d : p.f, & y=db? p.d : p.f; double w=p.w*f(p.x); M.block(p.i0,p.i0,x.cols(),y.cols())+=w*x.transpose()*y; } return M; }
static double angint(int la, int lb, int m, const F1 & f, bool deriv=false) { const Rule & g=gauss(40); double s=0; for(size_t k=0;k<g.x.size();k++) { double c=g.x[k]; s+=g.w[k]*f(c)*(deriv? dTh(la,m,c)*dTh(lb,m,c) : Th(la,m,c)*Th(lb,m,c)); } return 2*M_PI*s; }
// radial density matrices between functions i of channel a and j of b with weight f(x,cos): integral over the polar angle at every radius
typedef std::function<double(double,double)> F2;
static Matrix block(const std::vector<Pt> & v, int la, int lb, int m, const F2 & f, bool da, bool db, bool dth) { const Rule & g=gauss(32); V t(g.x.size()); for(size_t k=0;k<g.x.size();k++) t[k]=2*M_PI*g.w[k]*(dth? dTh(la,m,g.x[k])*dTh(lb,m,g.x[k]) : Th(la,m,g.x[k])*Th(lb,m,g.x[k])); Matrix M=Matrix::Zero(W->nr,W->nr); for(auto & p: v) { double w=0; for(size_t k=0;k<t.size();k++) w+=t[k]*f(p.x,g.x[k]); const Matrix & x=da? p.d : p.f, & y=db? p.d : p.f; M.block(p.i0,p.i0,x.cols(),y.cols())+=(w*p.w)*x.transpose()*y; } return M; }
static Matrix one(const std::string & op, double fld) {
  Matrix O=Matrix::Zero(W->nbf,W->nbf); bool at=W->k!="dia"; auto v=points(40,W->k=="at"? W->Rh : -1); double Rh=W->Rh, R3=Rh*Rh*Rh;
  for(size_t a=0;a<W->l.size();a++) for(size_t c=0;c<W->l.size();c++) { if(W->m[a]!=W->m[c]) continue; int la=W->l[a],lc=W->l[c],m=W->m[a]; Matrix X=Matrix::Zero(W->nr,W->nr);
    if(at) {
      auto go=[&](const F2 & f) { X+=block(v,la,lc,m,f,false,false,false); };
      if(op=="overlap") go([](double,double){ return 1.0; });
      else if(op=="kinetic") { X+=block(v,la,lc,m,[](double,double){ return 0.5; },true,true,false); X+=block(v,la,lc,m,[](double r,double){ return 0.5/(r*r); },false,false,true); if(m!=0) go([m](double r, double t){ return 0.5*m*m/(r*r*(1-t*t)); }); }
      else if(op=="nuclear") { int Z=W->Z; go([Z](double r,double){ return -Z/r; }); if(W->k=="at" && (W->Zl || W->Zr)) for(int L=std::abs(la-lc);L<=la+lc;L++) { double A=angint(la,lc,m,[L](double t){ return PL(L,t); })*(-(double)W->Zr-(L%2? -1 : 1)*(double)W->Zl); X+=A*radial(v,[&,L](double r){ double s=std::min(r,Rh),h=std::max(r,Rh); return std::pow(s/h,L)/h; },false,false); } }
      else if(op=="dipole") go([](double r,double t){ return r*t; });
      else if(op=="quadrupole") go([](double r,double t){ return r*r*(3*t*t-1)/2; });
      else if(op=="Bz") go([m,fld](double r,double t){ return -0.5*fld*m+fld*fld/8*r*r*(1-t*t); });
    } else {
      auto dV=[R3](double u,double t){ double c=std::cosh(u); return R3*std::sinh(u)*(c*c-t*t); };
      auto go=[&](const F2 & f) { X+=block(v,la,lc,m,[&](double u,double t){ return f(u,t)*dV(u,t); },false,false,false); };
      if(op=="overlap") go([](double,double){ return 1.0; });
      else if(op=="kinetic") { auto w=[Rh](double u,double){ return 0.5*Rh*std::sinh(u); }; X+=block(v,la,lc,m,w,true,true,false); X+=block(v,la,lc,m,w,false,false,true); if(m!=0) X+=block(v,la,lc,m,[&](double u,double t){ double s=std::sinh(u); return 0.5*m*m*Rh*(s*s+1-t*t)/(s*(1-t*t)); },false,false,false); }
      else if(op=="nuclear") { double z1=W->Zl,z2=W->Zr; go([=](double u,double t){ return -z1/(Rh*(std::cosh(u)+t))-z2/(Rh*(std::cosh(u)-t)); }); }
      else if(op=="dipole") go([=](double u,double t){ return Rh*std::cosh(u)*t; });
      else if(op=="quadrupole") go([=](double u,double t){ double z=Rh*std::cosh(u)*t, s=Rh*std::sinh(u); return (2*z*z-s*s*(1-t*t))/2; });
      else if(op=="Bz") go([=](double u,double t){ double s=Rh*std::sinh(u); return -0.5*fld*m+fld*fld/8*s*s*(1-t*t); });
    }
    O.block(W->off[a],W->off[c],W->sz[a],W->sz[c])=X.block(W->first[a],W->first[c],W->sz[a],W->sz[c]); }
  return O;
}
// ---- two-electron integrals: radial[LM] as matrix over pairs of radial functions, channel pairs in order 00 02 20 22 ----
static std::vector<Matrix> radial2(const std::vector<std::pair<int,int>> & LM, int nch, const std::function<void(double,std::vector<V> &,std::vector<V> &)> & in, const std::function<void(double,std::vector<V> &,std::vector<V> &)> & ou, int nout, int dyad) {
  // in(x): p[lm][ch]; ou(x): q[lm][ch]
  int n=W->nr, np=n*n; size_t nl=LM.size(); std::vector<Matrix> T(nl*nch*nch,Matrix::Zero(np,np)); auto pts=outer(nout,dyad); const Rule & g=gauss(20); std::vector<V> p(nl,V(nch)),q(nl,V(nch)),dum; std::vector<Matrix> A(nl,Matrix::Zero(np,nch)); size_t cur=0;
  auto inner=[&](size_t e, double lo, double hi, std::vector<Matrix> & C) { int np2= lo==0? 1 : 1; for(int s=0;s<np2;s++) for(size_t k=0;k<g.x.size();k++) { Pt t; t.e=e; t.x=0.5*(lo+hi)+0.5*(hi-lo)*g.x[k]; t.w=0.5*(hi-lo)*g.w[k]; eval(t); in(t.x,p,dum); int m=t.f.cols(); for(size_t l=0;l<nl;l++) for(int c=0;c<nch;c++) { double w=t.w*p[l][c]; for(int i=0;i<m;i++) for(int j=0;j<m;j++) C[l]((t.i0+i)*n+t.i0+j,c)+=w*t.f(0,i)*t.f(0,j); } } };
  for(auto & t: pts) { while(cur<t.e) { inner(cur,W->g[cur],W->g[cur+1],A); cur++; } auto C=A; inner(t.e,W->g[t.e],t.x,C); ou(t.x,q,dum); int m=t.f.cols(); for(size_t l=0;l<nl;l++) for(int c=0;c<nch;c++) for(int d=0;d<nch;d++) { Matrix & X=T[(l*nch+c)*nch+d]; double w=t.w*q[l][c]; for(int i=0;i<m;i++) for(int j=0;j<m;j++) X.row((t.i0+i)*n+t.i0+j)+=(w*t.f(0,i)*t.f(0,j))*C[l].col(d).transpose(); } }
  std::vector<Matrix> R(T.size()); for(size_t l=0;l<nl;l++) for(int c=0;c<nch;c++) for(int d=0;d<nch;d++) R[(l*nch+c)*nch+d]=T[(l*nch+c)*nch+d]+T[(l*nch+d)*nch+c].transpose(); return R;
}
static std::vector<Matrix> radial_erfc(int Lm, double mu) { int n=W->nr,np=n*n; std::vector<Matrix> T(Lm+1,Matrix::Zero(np,np)); auto pts=outer(18,4); for(auto & t: pts) { std::vector<Pt> in; for(size_t e=0;e<t.e;e++) panel(in,e,W->g[e],W->g[e+1],18); panel(in,t.e,W->g[t.e],t.x,18); std::vector<Vector> C(Lm+1,Vector::Zero(np)); for(auto & s: in) { int m=s.f.cols(); for(int L=0;L<=Lm;L++) { double w=s.w*erfcF(L,mu,t.x,s.x); if(w==0) continue; for(int i=0;i<m;i++) for(int j=0;j<m;j++) C[L]((s.i0+i)*n+s.i0+j)+=w*s.f(0,i)*s.f(0,j); } } int m=t.f.cols(); for(int L=0;L<=Lm;L++) for(int i=0;i<m;i++) for(int j=0;j<m;j++) T[L].row((t.i0+i)*n+t.i0+j)+=(t.w*t.f(0,i)*t.f(0,j))*C[L].transpose(); } for(auto & X: T) X=Matrix(X+X.transpose()); return T; }
static double ang3(int la, int ma, int lb, int mb, int L, int M, int cp) { if(ma-mb!=M || std::abs(M)>L) return 0; static std::map<std::vector<int>,double> memo; std::vector<int> key{la,ma,lb,mb,L,cp}; auto it=memo.find(key); if(it!=memo.end()) return it->second; const Rule & g=gauss(32); double s=0; for(size_t k=0;k<g.x.size();k++) { double c=g.x[k]; s+=g.w[k]*Th(la,ma,c)*Th(lb,mb,c)*Th(L,M,c)*(cp? c*c : 1); } return memo[key]=2*M_PI*s; }
// integrals of the atomic kind, by operator
static const std::vector<Matrix> & tables(const std::string & o, double lam) {
  std::string key=o+(o=="J"? "" : std::to_string(lam)); auto it=W->R.find(key); if(it!=W->R.end()) return it->second; std::vector<Matrix> R; int Lm= W->k=="dia"? 2*W->lmax+2 : 2*W->lmax;
  if(W->k=="dia") { int mm=0; for(int m: W->m) for(int k: W->m) mm=std::max(mm,std::abs(m-k)); std::vector<std::pair<int,int>> LM; for(int M=0;M<=mm;M++) for(int L=M;L<=Lm;L++) LM.push_back({L,M}); auto mk=[&](bool Q) { return [&,Q](double u, std::vector<V> & r, std::vector<V> &) { V t; int M=-1; double c=std::cosh(u), s=std::sinh(u); for(size_t k=0;k<LM.size();k++) { if(LM[k].second!=M) { M=LM[k].second; if(Q) Qout(M,Lm,c,t); else Pout(M,Lm,c,t); } r[k][0]=t[LM[k].first]*s*c*c; r[k][1]=t[LM[k].first]*s; } }; }; R=radial2(LM,2,mk(false),mk(true),24,10); }
  else if(o=="E") R=radial_erfc(Lm,lam);
  else { std::vector<std::pair<int,int>> LM; for(int L=0;L<=Lm;L++) LM.push_back({L,0}); bool Y=o=="Y"; auto in=[&](double x, std::vector<V> & r, std::vector<V> &) { for(int L=0;L<=Lm;L++) r[L][0]= Y? sph_i(L,lam*x) : std::pow(x,L); }; auto ou=[&](double x, std::vector<V> & r, std::vector<V> &) { for(int L=0;L<=Lm;L++) r[L][0]= Y? (2*L+1)*lam*sph_k(L,lam*x) : std::pow(x,-L-1); }; R=radial2(LM,1,in,ou,30,8); }
  return W->R[key]=R;
}
// Coulomb (x=false) or exchange of a density in the full basis
static Matrix two(const std::string & o, double lam, const Matrix & P, bool x) {
  bool dia=W->k=="dia"; const auto & R=tables(o,lam); int n=W->nr, nch= dia? 2 : 1, Lm= dia? 2*W->lmax+2 : 2*W->lmax; size_t na=W->l.size(); Matrix O=Matrix::Zero(W->nbf,W->nbf);
  auto full=[&](size_t c, size_t d) { Matrix D=Matrix::Zero(n,n); D.block(W->first[c],W->first[d],W->sz[c],W->sz[d])=P.block(W->off[c],W->off[d],W->sz[c],W->sz[d]); return D; };
  for(size_t a=0;a<na;a++) for(size_t e=0;e<na;e++) { Matrix X=Matrix::Zero(n,n); for(size_t c=0;c<na;c++) for(size_t d=0;d<na;d++) {
      // coulomb: (a e | c d): pairs (a,e) and (c,d); exchange: (a c | d e): pairs (a,c) and (e,d)
      size_t p1=a,p2= x? c : e,q1= x? e : c,q2=d; int M=W->m[p1]-W->m[p2]; if(M!=W->m[q1]-W->m[q2]) continue; Matrix D=full(c,d); if(D.cwiseAbs().maxCoeff()==0) continue;
      // rows of the table: pair (i of p1, j of p2)
      for(int L=std::abs(M);L<=Lm;L++) { double f= dia? 4*M_PI*std::pow(W->Rh,5) : 4*M_PI/(2*L+1); size_t at=L; if(dia) { int m=std::abs(M); for(int k=L-m+1;k<=L+m;k++) f/=k; f*= 1; at=0; for(int k=0;k<m;k++) at+=Lm+1-k; at+=L-m; }
        for(int s=0;s<nch;s++) for(int t=0;t<nch;t++) { double A=ang3(W->l[p1],W->m[p1],W->l[p2],W->m[p2],L,M,s)*ang3(W->l[q1],W->m[q1],W->l[q2],W->m[q2],L,M,t); if(std::fabs(A)<1e-14) continue; A*=f*(s? -1 : 1)*(t? -1 : 1); const Matrix & T=R[(at*nch+s)*nch+t];
          if(!x) { Vector dv(n*n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) dv(i*n+j)=D(i,j); Vector r=A*(T*dv); for(int i=0;i<n;i++) for(int j=0;j<n;j++) X(i,j)+=r(i*n+j); }
          else for(int i=0;i<n;i++) for(int k=0;k<n;k++) for(int j=0;j<n;j++) { double v=0; for(int l=0;l<n;l++) v+=T(i*n+k,j*n+l)*D(k,l); X(i,j)+=A*v; } } } }
    O.block(W->off[a],W->off[e],W->sz[a],W->sz[e])=X.block(W->first[a],W->first[e],W->sz[a],W->sz[e]); }
  return O;
}
static double threej2(int a, int c, int L) { const Rule & g=gauss(24); double s=0; for(size_t k=0;k<g.x.size();k++) s+=g.w[k]*PL(a,g.x[k])*PL(c,g.x[k])*PL(L,g.x[k]); return s/2; }
static Matrix sadK(const std::string & o, double lam, const Cube & P, int lo) { const auto & R=tables(o,lam); int n=W->nr; Matrix X=Matrix::Zero(n,n); for(size_t li=0;li<P.size();li++) for(int L=std::abs((int)li-lo);L<=(int)li+lo;L++) { double A=(2*li+1)*threej2(lo,li,L); if(std::fabs(A)<1e-13) continue; const Matrix & T=R[L]; for(int i=0;i<n;i++) for(int k=0;k<n;k++) for(int j=0;j<n;j++) for(int l=0;l<n;l++) X(i,j)+=A*T(i*n+k,j*n+l)*P[li](k,l); } return X; }
// deviation of a matrix from its integrals, block by block, each against the largest of the block
struct Dev { double err=0; std::vector<std::string> nz; };
static Dev compare(const Matrix & A, const Matrix & O, const Vector & nrm, double floor_=0, double slack=0) { Dev r; if(A.rows()!=O.rows() || A.cols()!=O.cols()) { r.err=1e9; return r; } Matrix A2=A; if(slack>0) for(Eigen::Index i=0;i<A.rows();i++) for(Eigen::Index j=0;j<A.cols();j++) { double d=A(i,j)-O(i,j); if(std::fabs(d)<=slack) A2(i,j)=O(i,j); else if(d>0) A2(i,j)-=slack; else if(d<0) A2(i,j)+=slack; } Matrix X=nrm.asDiagonal()*A2*nrm.asDiagonal(), Y=nrm.asDiagonal()*O*nrm.asDiagonal(); double sc=std::max(floor_,Y.size()? Y.cwiseAbs().maxCoeff() : 0.0); for(size_t a=0;a<W->l.size();a++) for(size_t c=0;c<W->l.size();c++) { if(!W->sz[a] || !W->sz[c]) continue; auto x=X.block(W->off[a],W->off[c],W->sz[a],W->sz[c]), y=Y.block(W->off[a],W->off[c],W->sz[a],W->sz[c]); double bm=y.cwiseAbs().maxCoeff(), xm=x.cwiseAbs().maxCoeff<Eigen::PropagateNaN>(); double d=(x-y).cwiseAbs().maxCoeff<Eigen::PropagateNaN>(); r.err=worst(r.err,d/(bm+1e-4*sc+1e-250)); if(!(xm<=1e-8*sc)) r.nz.push_back("["+N(a+1)+","+N(c+1)+"]"); } return r; }
static Vector norms(const Matrix & S) { Vector v(S.rows()); for(Eigen::Index i=0;i<v.size();i++) v(i)=1/std::sqrt(std::fabs(S(i,i))); return v; }
int main() {
  init(); omp_set_num_threads(1);
  return loop([&]{ W.reset(); emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    if(a[0]=="mk") { // mk kind fam nn zd RMAX(1000) Rhalf(1000) Z Zl Zr ngrid grid.. nch l m ..
      W.reset(new B); W->k=a[1]; W->fam=std::stoi(a[2]); W->nn=std::stoi(a[3]); W->zd=std::stoi(a[4]); double rm=std::stoi(a[5])/1000.0; W->Rh= W->k=="dia"? std::stoi(a[6])/1000.0 : rm*std::stoi(a[6])/24.0; W->Z=std::stoi(a[7]); W->Zl=std::stoi(a[8]); W->Zr=std::stoi(a[9]); int ng=std::stoi(a[10]); Vector bv(ng); std::vector<int> gi; for(int i=0;i<ng;i++) { gi.push_back(std::stoi(a[11+i])); bv(i)=rm*gi[i]/24.0; W->g.push_back(bv(i)); } int nc=std::stoi(a[11+ng]); for(int i=0;i<nc;i++) { W->l.push_back(std::stoi(a[12+ng+2*i])); W->m.push_back(std::stoi(a[13+ng+2*i])); }
      W->lmax=0; for(int l: W->l) W->lmax=std::max(W->lmax,l);
      auto p=std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(W->fam,W->nn)); int nq=5*p->get_nprim()+2; if(a.back()=="fine") nq=64; Eigen::VectorXi l(nc),m(nc); for(int i=0;i<nc;i++) { l(i)=W->l[i]; m(i)=W->m[i]; } std::string r="ok";
      try {
      if(W->k=="at") W->at.reset(new atomic::basis::TwoDBasis(W->Z,modelpotential::POINT_NUCLEUS,0.0,p,W->zd,nq,bv,l,m,W->Zl,W->Zr,W->Rh));
      else if(W->k=="sad") W->sad.reset(new sadatom::basis::TwoDBasis(W->Z,modelpotential::POINT_NUCLEUS,0.0,p,W->zd,nq,bv,W->lmax));
      else W->dia.reset(new diatomic::basis::TwoDBasis(W->Zl,W->Zr,W->Rh,p,nq,bv,l,m));
      if(W->k=="dia") W->fem.reset(new polynomial_basis::FiniteElementBasis(p,bv,false,false,true,true)); else W->fem.reset(new polynomial_basis::FiniteElementBasis(p,bv,true,false,true,W->zd));
      W->nr=W->fem->get_nbf(); W->nbf=0; for(int i=0;i<(W->k=="sad"? 1 : nc);i++) { int f=(W->k=="dia" && W->m[i]!=0)? 1 : 0; W->first.push_back(f); W->off.push_back(W->nbf); W->sz.push_back(W->nr-f); W->nbf+=W->nr-f; } } catch(std::exception & e) { r=e.what(); }
      if(W->k=="sad") { W->l={0}; W->m={0}; }
      long n= W->at? W->at->Nbf() : W->sad? W->sad->Nbf() : W->dia? W->dia->Nbf() : 0; std::vector<std::string> ch; for(int i=0;i<nc;i++) ch.push_back("["+a[12+ng+2*i]+","+a[13+ng+2*i]+"]");
      emit("{\"e\":\"mk\",\"k\":"+q(W->k)+",\"fam\":"+N(W->fam)+",\"nn\":"+N(W->nn)+",\"grid\":"+arr(gi)+",\"zd\":"+vp::b(W->zd)+",\"ch\":"+arrs(ch)+",\"chg\":["+a[7]+","+a[8]+","+a[9]+"],\"nbf\":"+N(n)+",\"r\":"+q(r)+"}"); return; }
    if(!W) return;
    if(a[0]=="one") { double fld=std::stoi(a[2])/8.0; std::string r="ok"; Dev d; try { Matrix M; auto get=[&](auto & x) { const std::string & op=a[1]; return op=="overlap"? x.overlap() : op=="kinetic"? x.kinetic() : op=="nuclear"? x.nuclear() : op=="dipole"? x.dipole_z() : op=="quadrupole"? x.quadrupole_zz() : x.Bz_field(fld); };
        if(W->sad) { M= a[1]=="overlap"? W->sad->overlap() : a[1]=="kinetic"? W->sad->kinetic() : a[1]=="kinetic_l"? W->sad->kinetic_l() : W->sad->nuclear(); } else M= W->at? get(*W->at) : get(*W->dia);
        Matrix S=one("overlap",0), O; if(a[1]=="kinetic_l") { O=radial(points(40,-1),[](double r){ return 0.5/(r*r); },false,false); } else O=one(a[1],fld); double rm= W->k=="dia"? W->Rh*std::cosh(W->g.back()) : W->g.back(); const std::string & op=a[1]; double fl= op=="overlap"? 1 : op=="dipole"? rm : op=="quadrupole"? rm*rm : op=="Bz"? std::fabs(fld)+fld*fld*rm*rm/8 : op=="nuclear"? 1/rm : 1/(rm*rm); d=compare(M,O,norms(S),0.01*fl); } catch(std::exception & e) { r="err"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"one\",\"op\":"+q(a[1])+",\"f\":"+a[2]+",\"r\":"+q(r)+",\"err\":"+N(fx(d.err,1e15))+",\"nz\":"+arrs(d.nz)+"}"); return; }
    if(a[0]=="cpl") { // angular factors of the multipole matrices: least squares against the radial matrix
      if(!W->at) return; int k=std::stoi(a[1]); Matrix M= k==1? W->at->dipole_z() : W->at->quadrupole_zz(); Matrix Rk=radial(points(40,-1),[k](double r){ return std::pow(r,k); },false,false); std::vector<std::string> s; for(size_t i=0;i<W->l.size();i++) for(size_t j=0;j<W->l.size();j++) { Matrix X=M.block(W->off[i],W->off[j],W->sz[i],W->sz[j]); double c=(X.cwiseProduct(Rk)).sum()/Rk.squaredNorm(), res=(X-c*Rk).norm()/Rk.norm(); s.push_back("["+N(fx(c*c,1e8))+","+N(c>1e-6? 1 : c<-1e-6? -1 : 0)+","+N(fx(res,1e12))+"]"); }
      emit("{\"e\":\"cpl\",\"k\":"+a[1]+",\"c\":"+arrs(s)+"}"); return; }
    if(a[0]=="two") { // two op seed lam8 sym
      std::string o=a[1],r="ok"; int seed=std::stoi(a[2]); double lam=std::stoi(a[3])/8.0; bool mir=std::stoi(a[4]); Rng g(seed*7+1); double e1=0; Matrix S=one("overlap",0); Vector nv=norms(S); const int pw[4]={0,0,-14,-28}; double ps=std::ldexp(1.0,pw[seed%4]); try {
      if(W->sad) { Cube P; for(int l=0;l<=W->lmax;l++) { Matrix D(W->nr,W->nr); for(int i=0;i<W->nr;i++) for(int j=0;j<=i;j++) D(i,j)=D(j,i)=ps*((int)(g.next()%9)-4)*nv(i)*nv(j); P.push_back(D); } if(o=="Y") W->sad->compute_yukawa(lam); else if(o=="E") W->sad->compute_erfc(lam); else W->sad->compute_tei();
        if(o=="J") { Matrix O=Matrix::Zero(W->nr,W->nr); const Matrix & T=tables("J",0)[0]; int n=W->nr; for(int i=0;i<n;i++) for(int j=0;j<n;j++) for(int k=0;k<n;k++) for(int l=0;l<n;l++) O(i,j)+=T(i*n+j,k*n+l)*P[0](k,l); e1=compare(W->sad->coulomb(P[0]),4*M_PI*O,nv,0,1e-10*P[0].cwiseAbs().sum()).err; }
        else { double sp=0; for(auto & D: P) sp+=D.cwiseAbs().sum(); Cube K= o=="K"? W->sad->exchange(P) : W->sad->rs_exchange(P); if((int) K.size()!=W->lmax+1) e1=1e9; else for(int l=0;l<=W->lmax;l++) { Matrix O=-sadK(o=="K"? "J" : o,lam,P,l); e1=worst(e1,compare(K[l],O,nv,0,1e-11*sp).err); } } }
      else { int n=W->nbf; Matrix P=Matrix::Zero(n,n); size_t na=W->l.size(); std::vector<std::vector<bool>> on(na,std::vector<bool>(na,false)); for(size_t i=0;i<na;i++) for(size_t j=0;j<=i;j++) on[i][j]=on[j][i]=(i==j || g.upto(3)>0); for(int i=0;i<n;i++) for(int j=0;j<=i;j++) { size_t ci=0,cj=0; while(ci+1<na && W->off[ci+1]<=i) ci++; while(cj+1<na && W->off[cj+1]<=j) cj++; int v=(int)(g.next()%9)-4; if(on[ci][cj]) P(i,j)=P(j,i)=ps*v*nv(i)*nv(j); }
        if(mir && W->dia) { // density that does not depend on the sign of m, and conserves it
          for(size_t i=0;i<na;i++) for(size_t j=0;j<na;j++) { auto X=P.block(W->off[i],W->off[j],W->sz[i],W->sz[j]); if(W->m[i]!=W->m[j]) { X.setZero(); continue; } if(W->m[i]<0) { for(size_t i2=0;i2<na;i2++) for(size_t j2=0;j2<na;j2++) if(W->l[i2]==W->l[i] && W->l[j2]==W->l[j] && W->m[i2]==-W->m[i] && W->m[j2]==-W->m[j]) X=Matrix(P.block(W->off[i2],W->off[j2],W->sz[i2],W->sz[j2])); } } Matrix t=0.5*(P+P.transpose()); P=t; }
        auto run=[&](auto & x) { Matrix M= o=="J"? x.coulomb(P) : x.exchange(P); return M; }; Matrix M; if(W->at) { if(o=="Y") W->at->compute_yukawa(lam); else if(o=="E") W->at->compute_erfc(lam); else W->at->compute_tei(true); M= o=="Y" || o=="E"? W->at->rs_exchange(P) : run(*W->at); } else { if(!W->prep) W->dia->compute_tei(true); W->prep=true; W->dia->set_absm_symmetric(mir); M=run(*W->dia); W->dia->set_absm_symmetric(false); }
        Matrix O=two(o=="J" || o=="K"? "J" : o,lam,P,o!="J"); if(o!="J") O=-O; e1=compare(M,O,nv,0,1e-11*P.cwiseAbs().sum()).err; }
      } catch(std::exception & e) { r="err"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"two\",\"o\":"+q(o)+",\"s\":"+a[2]+",\"lam\":"+a[3]+",\"mir\":"+vp::b(mir)+",\"r\":"+q(r)+",\"err\":"+N(fx(e1,1e12))+"}"); return; }
    emit("{\"e\":\"unknown\"}");
  });
}
