// One-electron problems: spectra and expectation values of hydrogen-like systems in the three kinds of basis.
#include "vp.h"
#include "atomic/TwoDBasis.h"
#include "atomic/basis.h"
#include "diatomic/basis.h"
#include "sadatom/basis.h"
#include "PolynomialBasis.h"
#include <omp.h>
#include <Eigen/Dense>
using namespace vp;
using ABas=helfem::atomic::basis::TwoDBasis; using DBas=helfem::diatomic::basis::TwoDBasis; using SBas=helfem::sadatom::basis::TwoDBasis; using helfem::Matrix; using helfem::Vector;
static Eigen::VectorXi toi(const std::vector<int> & v) { Eigen::VectorXi r(v.size()); for(size_t i=0;i<v.size();i++) r(i)=v[i]; return r; }
static std::string N(long long x) { return std::to_string(x); }
// values in units of 10^-5, negative beyond range marks nonsense
static long long fx(double x, double u=1e4) { double y=x*u; if(!(std::fabs(y)<1e9)) return 1000000000ll; return std::llround(y); }
static std::string V(const std::vector<double> & v, double u=1e4) { std::string r="["; for(size_t i=0;i<v.size();i++) r+=(i?",":"")+N(fx(v[i],u)); return r+"]"; }
typedef std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis> Pol;
static Pol pol(int rad) { static const int F[]={4,4,3,5,100,8}, NN[]={9,12,10,6,8,4}; return Pol(helfem::polynomial_basis::get_basis(F[rad],NN[rad])); }
static Vector grid(int nel, double R, double z) { Vector b(nel+1); for(int i=0;i<=nel;i++) b(i)=R*std::pow((double) i/nel,z); return b; }
struct Eig { Vector e; Matrix c; };
static Eig solve(const Matrix & H, const Matrix & S) { Vector d=S.diagonal().array().rsqrt(); Matrix h=d.asDiagonal()*H*d.asDiagonal(), o=d.asDiagonal()*S*d.asDiagonal(); Eigen::GeneralizedSelfAdjointEigenSolver<Matrix> s(0.5*(h+h.transpose()),0.5*(o+o.transpose())); return {s.eigenvalues(),d.asDiagonal()*s.eigenvectors()}; }
static double ex(const Matrix & O, const Vector & c) { return c.dot(O*c); }
int main() {
  init(); omp_set_num_threads(1);
  return loop([&]{ emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    if(a[0]=="atom") { // atom rad Z nmax model size | l m ... : spectrum of the whole matrix and expectation values per channel
      int rad=std::stoi(a[1]),Z=std::stoi(a[2]),nm=std::stoi(a[3]),mod=std::stoi(a[4]); double par=std::stod(a[5]); std::vector<int> l,m; for(size_t i=6;i+1<a.size();i+=2) { l.push_back(std::stoi(a[i])); m.push_back(std::stoi(a[i+1])); }
      Pol p=pol(rad); int nel= p->get_nprim()>8? 8 : 11; double R=(nm>=3?60.0:nm==2?40.0:24.0)/Z; ABas b(Z,(helfem::modelpotential::nuclear_model_t) mod,par/Z,p,true,5*p->get_nprim()+4,grid(nel,R,2.0),toi(l),toi(m),0,0,0.0);
      Matrix S=b.overlap(),T=b.kinetic(),Vn=b.nuclear(),D=b.dipole_z(),Q=b.quadrupole_zz(),B0=b.Bz_field(0.0),B1=b.Bz_field(2.0),B2=b.Bz_field(-2.0); Eig s=solve(T+Vn,S); size_t n=b.Nrad(),nc=l.size();
      std::vector<double> lev; for(int i=0;i<s.e.size() && s.e(i)<-0.5*Z*Z/((nm+0.5)*(nm+0.5));i++) lev.push_back(2*s.e(i)/(Z*Z));
      std::vector<std::string> st; std::vector<Matrix> C; for(size_t c=0;c<nc;c++) { auto blk=[&](const Matrix & M){ return Matrix(M.block(c*n,c*n,n,n)); }; Eig x=solve(blk(T)+blk(Vn),blk(S)); C.push_back(x.c);
        for(int k=0;k+l[c]+1<=nm;k++) { Vector v=x.c.col(k); double dia=ex(blk(B1)+blk(B2)-2*blk(B0),v)/2, par2=ex(blk(B1)-blk(B2),v)/2;
          st.push_back("{\"l\":"+N(l[c])+",\"m\":"+N(m[c])+",\"n\":"+N(k+l[c]+1)+",\"t\":"+N(fx(ex(blk(T),v)/Z/Z))+",\"v\":"+N(fx(ex(blk(Vn),v)/Z/Z))+",\"z\":"+N(fx(ex(blk(D),v)*Z))+",\"q\":"+N(fx(ex(blk(Q),v)*Z*Z))+",\"dia\":"+N(fx(dia*Z*Z))+",\"par\":"+N(fx(par2))+",\"b0\":"+N(fx(nc? blk(B0).norm() : 0))+"}"); } }
      // squared dipole transition moments between the lowest states of different channels
      std::vector<std::string> tr; for(size_t c=0;c<nc;c++) for(size_t d=0;d<nc;d++) if(c!=d && l[c]+1<=nm && l[d]+1<=nm) { double x=C[c].col(0).dot(D.block(c*n,d*n,n,n)*C[d].col(0))*Z; if(l[c]<l[d] || x*x>1e-9) tr.push_back("{\"l\":"+N(l[c])+",\"m\":"+N(m[c])+",\"k\":"+N(l[d])+",\"j\":"+N(m[d])+",\"x2\":"+N(fx(x*x))+"}"); }
      emit("{\"e\":\"atom\",\"nm\":"+N(nm)+",\"mod\":"+N(mod)+",\"l\":"+arr(l)+",\"m\":"+arr(m)+",\"lev\":"+V(lev,1e6)+",\"st\":"+arrs(st)+",\"tr\":"+arrs(tr)+"}"); return; }
    if(a[0]=="sad") { // sad rad Z nmax lmax: radial operators of the averaged atom
      int rad=std::stoi(a[1]),Z=std::stoi(a[2]),nm=std::stoi(a[3]),lm=std::stoi(a[4]); Pol p=pol(rad); int nel= p->get_nprim()>8? 8 : 11; double R=(nm>=3?60.0:nm==2?40.0:24.0)/Z; SBas b(Z,helfem::modelpotential::POINT_NUCLEUS,0.0,p,true,5*p->get_nprim()+4,grid(nel,R,2.0),lm);
      Matrix S=b.overlap(),T=b.kinetic(),Tl=b.kinetic_l(),Vn=b.nuclear(); std::map<int,Matrix> rm; for(auto & x: b.Rmatrices()) rm[x.first]=x.second; std::vector<std::string> st; std::vector<double> fk;
      helfem::modelpotential::PointNucleus pn(Z); double mp=(b.model_potential(&pn)-Vn).norm()/Vn.norm(), sh=(b.Sinvh().transpose()*S*b.Sinvh()-Matrix::Identity(b.Nbf(),b.Nbf())).norm();
      for(int l=0;l<=lm;l++) { Eig x=solve(T+l*(l+1)*Tl+Vn,S); for(int k=0;k+l+1<=nm;k++) { Vector v=x.c.col(k); std::string r="["; for(int q: {-2,-1,1,2,3}) r+=(q==-2?"":",")+N(fx(ex(rm[q],v)*std::pow((double) Z,q)));
          st.push_back("{\"l\":"+N(l)+",\"n\":"+N(k+l+1)+",\"en\":"+N(fx(2*x.e(k)/Z/Z,1e6))+",\"r\":"+r+"],\"rho0\":"+N(l? 0 : fx(4*M_PI*b.nuclear_density(v*v.transpose())/std::pow((double) Z,3)))+",\"f\":["+N(k?0:fx(b.slater_F(0,v)/Z))+","+N(k?0:fx(b.slater_F(2,v)/Z))+"]}"); } }
      emit("{\"e\":\"sad\",\"nm\":"+N(nm)+",\"lm\":"+N(lm)+",\"st\":"+arrs(st)+",\"mp\":"+N(fx(mp,1e9))+",\"sh\":"+N(fx(sh,1e9))+"}"); return; }
    if(a[0]=="di") { // di rad Z1 Z2 R(in units of 1/max charge, tenths) lmax mmax: one nucleus charged (exact states) or two
      int rad=std::stoi(a[1]),Z1=std::stoi(a[2]),Z2=std::stoi(a[3]),R10=std::stoi(a[4]),lm=std::stoi(a[5]),mm=std::stoi(a[6]); int Z=std::max(Z1,Z2); double Rh=R10/20.0/Z; Pol p=pol(rad); int nel= p->get_nprim()>8? 4 : 6;
      std::vector<int> l,m; for(int M=-mm;M<=mm;M++) for(int L=std::abs(M);L<=lm+std::abs(M);L++) { l.push_back(L); m.push_back(M); } double mumax=std::acosh(1+(mm>=2?48.0:mm==1?36.0:24.0)/Z/Rh);
      DBas b(Z1,Z2,Rh,p,5*p->get_nprim()+4,grid(nel,mumax,1.3),toi(l),toi(m)); Matrix S=b.overlap(),T=b.kinetic(),Vn=b.nuclear(),D=b.dipole_z(),Q=b.quadrupole_zz(),B1=b.Bz_field(2.0),B2=b.Bz_field(-2.0);
      std::vector<std::string> st; for(int M=-mm;M<=mm;M++) { auto I=b.m_indices(M); auto sub=[&](const Matrix & X){ Matrix r(I.size(),I.size()); for(size_t i=0;i<I.size();i++) for(size_t j=0;j<I.size();j++) r(i,j)=X(I[i],I[j]); return r; }; Eig x=solve(sub(T)+sub(Vn),sub(S)); Vector v=x.c.col(0); Matrix Qs=sub(Q);
        double z=ex(sub(D),v); st.push_back("{\"m\":"+N(M)+",\"en\":"+N(fx(2*x.e(0)/Z/Z,1e6))+",\"en2\":"+N(fx(2*x.e(1)/Z/Z,1e6))+",\"t\":"+N(fx(ex(sub(T),v)/Z/Z))+",\"z\":"+N(fx(z*Z))+",\"q\":"+N(fx(ex(Qs,v)*Z*Z))+",\"dia\":"+N(fx(ex(sub(B1)+sub(B2),v)/2*Z*Z))+",\"par\":"+N(fx(ex(sub(B1)-sub(B2),v)/2))+"}"); }
      emit("{\"e\":\"di\",\"z1\":"+N(Z1)+",\"z2\":"+N(Z2)+",\"R\":"+N(R10)+",\"mm\":"+N(mm)+",\"st\":"+arrs(st)+"}"); return; }
    if(a[0]=="off") { // off rad Z Zl Zr R10 [model of the central nucleus, small enough not to matter]: potential of off-centre charges averaged over the ground state of a central charge, and for p states
      int rad=std::stoi(a[1]),Z=std::stoi(a[2]),Zl=std::stoi(a[3]),Zr=std::stoi(a[4]); double Rh=std::stoi(a[5])/10.0; Pol p=pol(rad); int nel= p->get_nprim()>8? 8 : 12; Vector bv=grid(nel,50.0/Z,2.0); { std::vector<double> c; bool in=false; for(int i=0;i<bv.size();i++) { if(!in && bv(i)>Rh) { c.push_back(Rh); in=true; } if(i==0 || i==bv.size()-1 || std::fabs(bv(i)-Rh)>0.1*Rh) c.push_back(bv(i)); } bv=Eigen::Map<Vector>(c.data(),c.size()); }
      std::vector<int> l={0,1,1,2,1},m={0,0,1,0,-1}; auto mod=(helfem::modelpotential::nuclear_model_t) (a.size()>6? std::stoi(a[6]) : 0); double Rrms=mod? 1e-3/Z : 0.0; ABas b(Z,mod,Rrms,p,true,5*p->get_nprim()+4,bv,toi(l),toi(m),Zl,Zr,Rh), h(Z,mod,Rrms,p,true,5*p->get_nprim()+4,bv,toi(l),toi(m),0,0,0.0);
      Matrix S=h.overlap(),T=h.kinetic(),Vn=h.nuclear(),W=b.nuclear()-Vn; size_t n=h.Nrad(); std::vector<Vector> C; for(size_t c=0;c<l.size();c++) C.push_back(solve((T+Vn).block(c*n,c*n,n,n),S.block(c*n,c*n,n,n)).c.col(0));
      for(auto & v: C) if(v.sum()<0) v=-v; double Rz=Z*Rh; auto X=[&](int i, int j){ return C[i].dot(W.block(i*n,j*n,n,n)*C[j]); };
      // exact: multipole expansion with hydrogenic radial functions, by quadrature
      auto rad_=[&](int L, double r){ return L==0? 2*std::exp(-r) : L==1? r*std::exp(-r/2)/(2*std::sqrt(6.0)) : 4*r*r*std::exp(-r/3)/(81*std::sqrt(30.0)); };
      auto I=[&](int L1, int L2, int k){ double s=0; const int M=4000; for(int part=0;part<2;part++) { double A=part?Rz:0,B=part?60:Rz; double hh=(B-A)/M; for(int i=0;i<M;i++) for(int g=-1;g<=1;g++) { double r=A+hh*(i+0.5+g*0.5*std::sqrt(0.6)), w=(g?5.0:8.0)/18*hh; double kk= part? std::pow(Rz,k)/std::pow(r,k+1) : std::pow(r,k)/std::pow(Rz,k+1); s+=w*r*r*rad_(L1,r)*rad_(L2,r)*kk; } } return s; };
      double P=Zl+Zr, M=Zr-Zl; struct { int i,j; double want; } ch[]={{0,0,-P*I(0,0,0)},{1,1,-P*(I(1,1,0)+0.4*I(1,1,2))},{2,2,-P*(I(1,1,0)-0.2*I(1,1,2))},{4,4,-P*(I(1,1,0)-0.2*I(1,1,2))},{3,3,-P*(I(2,2,0)+2.0/7*I(2,2,2)+2.0/7*I(2,2,4))},{0,3,-P*I(0,2,2)/std::sqrt(5.0)},{0,1,-M*I(0,1,1)/std::sqrt(3.0)}};
      double e=0; for(auto & c: ch) { double g=X(c.i,c.j)/Z; if(getenv("DBG")) fprintf(stderr,"%d %d got %.9f want %.9f\n",c.i,c.j,g,c.want); bool offd=c.i!=c.j; e=vp::worst(e,offd? std::fabs(std::fabs(g)-std::fabs(c.want)) : std::fabs(g-c.want)); } double e2=vp::worst({std::fabs(X(0,2)),std::fabs(X(1,2)),std::fabs(X(2,4))}); // different m
      double z01=C[0].dot(h.dipole_z().block(0,n,n,n)*C[1]); bool toward= M==0? true : (X(0,1)/z01<0)==(M>0);
      emit("{\"e\":\"off\",\"err\":"+N(fx(e,1e9))+",\"zero\":"+N(fx(e2,1e9))+",\"toward\":"+vp::b(toward)+"}"); return; }
  });
}
