// Overlaps and matrix elements between two finite-element bases.
#include "vp.h"
#include "atomic/TwoDBasis.h"
#include "sadatom/basis.h"
#include "diatomic/basis.h"
#include "PolynomialBasis.h"
#include "CoulombExchangeFE.h"
#include <Eigen/Dense>
#include <omp.h>
using namespace vp; using namespace helfem; using helfem::Matrix; using helfem::Vector;
static std::string N(long long x) { return std::to_string(x); }
static long long fx(double x, double u) { double y=x*u; if(!(std::fabs(y)<2e9)) return 2000000000ll; return std::llround(y); }
static const double RHALF=0.7;
struct B { std::string k; int fam,nn; bool zd=false,prep=false; std::vector<int> grid,l,m; std::shared_ptr<atomic::basis::FEMRadialBasis> rad; std::shared_ptr<sadatom::basis::TwoDBasis> sad; std::shared_ptr<atomic::basis::TwoDBasis> at; std::shared_ptr<diatomic::basis::TwoDBasis> dia;
  std::vector<std::vector<int>> idx; int nbf=0; };
static std::vector<B> bs; static double RMAX=1;
static std::map<std::pair<const B*,const B*>,Matrix> known;
static Matrix self_(const B & b) { return b.rad? b.rad->overlap() : b.sad? b.sad->overlap() : b.at? b.at->overlap() : b.dia->overlap(); }
static const Matrix & self(const B & b) { auto k=std::make_pair(&b,(const B *) nullptr); auto i=known.find(k); if(i==known.end()) i=known.emplace(k,self_(b)).first; return i->second; }
static Matrix cross_(const B & a, const B & b) { return a.rad? a.rad->overlap(*b.rad) : a.sad? a.sad->overlap(*b.sad) : a.at? a.at->overlap(*b.at) : a.dia->overlap(*b.dia); }
static const Matrix & cross(const B & a, const B & b) { auto k=std::make_pair(&a,&b); auto i=known.find(k); if(i==known.end()) i=known.emplace(k,cross_(a,b)).first; return i->second; }
// coefficients of the functions of a in b: least squares in the metric of b
static Matrix expand(const Matrix & Sbb, const Matrix & Sba) { Vector d=Sbb.diagonal().array().sqrt().inverse(); Matrix S=d.asDiagonal()*Sbb*d.asDiagonal(); Matrix r=d.asDiagonal()*Sba; Eigen::LDLT<Matrix> f(S); Matrix x=f.solve(r); x+=f.solve(r-S*x); return d.asDiagonal()*x; }
static double rel(const Matrix & x, const Matrix & y, const Vector & nr, const Vector & nc) { if(x.rows()!=y.rows() || x.cols()!=y.cols()) return 1e9; double e=0; for(Eigen::Index i=0;i<x.rows();i++) for(Eigen::Index j=0;j<x.cols();j++) { double v=std::fabs(x(i,j)-y(i,j))/(nr(i)*nc(j)); e=vp::worst(e,v); } return e; }
int main() {
  init(); omp_set_num_threads(1);
  return loop([&]{ bs.clear(); bs.reserve(64); known.clear(); emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    if(a[0]=="R") { RMAX=std::stod(a[1]); return; }
    if(a[0]=="mk") { // mk kind fam nn zd ngrid grid... nch l m ...
      B b; b.k=a[1]; b.fam=std::stoi(a[2]); b.nn=std::stoi(a[3]); b.zd=std::stoi(a[4]); int ng=std::stoi(a[5]); for(int i=0;i<ng;i++) b.grid.push_back(std::stoi(a[6+i])); int nc=std::stoi(a[6+ng]); for(int i=0;i<nc;i++) { b.l.push_back(std::stoi(a[7+ng+2*i])); b.m.push_back(std::stoi(a[8+ng+2*i])); }
      auto p=std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(b.fam,b.nn)); Vector bv(ng); for(int i=0;i<ng;i++) bv(i)=RMAX*b.grid[i]/24.0;
      int nq=5*((b.fam==8? 3 : b.fam==9? 4 : b.fam==5||b.fam==101? 2 : 1)*b.nn);
      Eigen::VectorXi l(nc),m(nc); for(int i=0;i<nc;i++) { l(i)=b.l[i]; m(i)=b.m[i]; }
      if(b.k=="rad") { polynomial_basis::FiniteElementBasis fem(p,bv,true,false,true,b.zd); b.rad.reset(new atomic::basis::FEMRadialBasis(fem,nq)); b.nbf=b.rad->Nbf(); }
      else if(b.k=="sad") { b.sad.reset(new sadatom::basis::TwoDBasis(1,modelpotential::POINT_NUCLEUS,0.0,p,b.zd,nq,bv,2)); b.nbf=b.sad->Nbf(); }
      else if(b.k=="at") { b.at.reset(new atomic::basis::TwoDBasis(1,modelpotential::POINT_NUCLEUS,0.0,p,b.zd,nq,bv,l,m,0,0,0.0)); b.nbf=b.at->Nbf(); }
      else { b.dia.reset(new diatomic::basis::TwoDBasis(1,1,RHALF,p,nq,bv,l,m,a.back()!="nolegendre")); b.nbf=b.dia->Nbf(); }
      // functions of every channel, in the order of the channels
      int nr= b.k=="dia"? (int) b.dia->Nrad() : b.nbf/nc, at=0; for(int i=0;i<nc;i++) { int n=nr-(b.k=="dia" && b.m[i]!=0 ? 1 : 0); std::vector<int> x; for(int j=0;j<n;j++) x.push_back(at++); b.idx.push_back(x); }
      bs.push_back(b); std::vector<std::string> ch; for(int i=0;i<nc;i++) ch.push_back("["+N(b.l[i])+","+N(b.m[i])+"]");
      emit("{\"e\":\"mk\",\"k\":"+q(b.k)+",\"fam\":"+N(b.fam)+",\"nn\":"+N(b.nn)+",\"grid\":"+arr(b.grid)+",\"zd\":"+vp::b(b.zd)+",\"ch\":"+arrs(ch)+",\"nbf\":"+N(b.nbf)+"}"); return; }
    if(a[0]=="ov") {
      const B & x=bs[std::stoi(a[1])-1], & y=bs[std::stoi(a[2])-1]; Matrix S=cross(x,y), T=cross(y,x), X=self(x), Y=self(y); Vector nx=X.diagonal().array().sqrt(), ny=Y.diagonal().array().sqrt();
      double sym=rel(S,T.transpose(),nx,ny), same=rel(S,X,nx,nx); std::vector<std::string> nz; std::vector<long long> res;
      for(size_t i=0;i<x.idx.size();i++) for(size_t j=0;j<y.idx.size();j++) { double v=0; for(int p: x.idx[i]) for(int r: y.idx[j]) if(p<S.rows() && r<S.cols()) { double w=std::fabs(S(p,r))/(nx(p)*ny(r)); v=vp::worst(v,w); } if(v>1e-9 || std::isnan(v)) nz.push_back("["+N(i+1)+","+N(j+1)+"]"); }
      for(size_t i=0;i<x.idx.size();i++) { double v=0; if(S.rows()==X.rows() && S.cols()==Y.cols()) { Matrix Sba(Y.rows(),x.idx[i].size()); for(size_t p=0;p<x.idx[i].size();p++) Sba.col(p)=S.row(x.idx[i][p]).transpose()/nx(x.idx[i][p]); Matrix C=expand(Y,Sba); for(size_t p=0;p<x.idx[i].size();p++) { double w=std::fabs(1.0-2*C.col(p).dot(Sba.col(p))+C.col(p).dot(Y*C.col(p))); v=vp::worst(v,w); } } else v=1e9; res.push_back(fx(v,1e12)); }
      emit("{\"e\":\"ov\",\"a\":"+a[1]+",\"b\":"+a[2]+",\"rows\":"+N(S.rows())+",\"cols\":"+N(S.cols())+",\"sym\":"+N(fx(sym,1e15))+",\"same\":"+N(fx(same,1e15))+",\"nz\":"+arrs(nz)+",\"res\":"+arr(res)+"}"); return; }
    if(a[0]=="tri") { const B & x=bs[std::stoi(a[1])-1], & y=bs[std::stoi(a[2])-1], & z=bs[std::stoi(a[3])-1]; Matrix Z=self(z), S=cross(x,y); Matrix Cx=expand(Z,cross(z,x)), Cy=expand(Z,cross(z,y)); Vector nx=self(x).diagonal().array().sqrt(), ny=self(y).diagonal().array().sqrt();
      emit("{\"e\":\"tri\",\"a\":"+a[1]+",\"b\":"+a[2]+",\"c\":"+a[3]+",\"err\":"+N(fx(rel(S,Cx.transpose()*Z*Cy,nx,ny),1e15))+"}"); return; }
    if(a[0]=="op") { const B & x=bs[std::stoi(a[1])-1], & y=bs[std::stoi(a[2])-1], & z=bs[std::stoi(a[3])-1]; int n=std::stoi(a[4]); bool dl=std::stoi(a[5]), dr=std::stoi(a[6]); typedef atomic::basis::FEMRadialBasis::BasisKind K; double s=RMAX;
      auto self_op=[&](const B & b, bool l, bool r) { return b.rad->matrix_element(l?K::B1:K::B0,r?K::B1:K::B0,[n,s](double t){ return std::pow(t/s,n); }); };
      Matrix S=x.rad->radial_integral(*y.rad,n,dl,dr)*std::pow(s,-n), Z=self(z), O=self_op(z,dl,dr); Matrix Cx=expand(Z,cross(z,x)), Cy=expand(Z,cross(z,y)); Vector nx=self_op(x,dl,dl).diagonal().cwiseAbs().array().sqrt(), ny=self_op(y,dr,dr).diagonal().cwiseAbs().array().sqrt();
      emit("{\"e\":\"op\",\"a\":"+a[1]+",\"b\":"+a[2]+",\"c\":"+a[3]+",\"n\":"+N(n)+",\"dl\":"+b(dl)+",\"dr\":"+b(dr)+",\"err\":"+N(fx(rel(S,Cx.transpose()*O*Cy,nx,ny),1e15))+"}"); return; }
    if(a[0]=="two") { // two op a c seed lam8: operator of a density of a, in a and in c
      const std::string & o=a[1]; B & x=bs[std::stoi(a[2])-1], & z=bs[std::stoi(a[3])-1]; int seed=std::stoi(a[4]); double lam=std::stoi(a[5])/8.0/RMAX; int L=seed%5; Rng g(seed*7+1); auto dens=[&](int n) { Matrix P(n,n); for(int i=0;i<n;i++) for(int j=0;j<=i;j++) P(i,j)=P(j,i)=(int)(g.next()%9)-4; Vector d=self(x).diagonal().array().sqrt().inverse(); return Matrix(d.asDiagonal()*P*d.asDiagonal()); };
      Matrix C=expand(self(z),cross(z,x)); double err=0;
      // judged against the rounding of the normalised result and against what integrals factorised to an absolute 1e-12 may differ by
      auto law=[&](const Matrix & A, const Matrix & Z, double sp, double sq) { Vector n=self(x).diagonal().array().sqrt(); Matrix E=C.transpose()*Z*C; Vector c=C.cwiseAbs().colwise().sum().transpose(); double sc=0; for(Eigen::Index i=0;i<A.rows();i++) for(Eigen::Index j=0;j<A.cols();j++) sc=vp::worst(sc,std::fabs(A(i,j))/(n(i)*n(j))); double ab= x.rad? 0 : 1e-10; sc=vp::worst(sc,1e-30); for(Eigen::Index i=0;i<A.rows();i++) for(Eigen::Index j=0;j<A.cols();j++) { double e=std::fabs(A(i,j)-E(i,j))/(sc*n(i)*n(j)+1e9*ab*(sp+c(i)*c(j)*sq)); err=vp::worst(err,e); } };
      auto sum=[](const Matrix & M) { return M.cwiseAbs().sum(); };
      std::string r="ok"; try {
      if(x.rad) { Matrix P=dens(x.nbf), Q=C*P*C.transpose(); using namespace atomic::basis; auto f=[&](const B & b, const Matrix & D) { return o=="J"? assemble_J_FE_one_multipole<double>(*b.rad,L,D) : o=="K"? assemble_K_FE_one_multipole<double>(*b.rad,L,D) : o=="YJ"? assemble_J_FE_one_multipole_yukawa<double>(*b.rad,L,lam,D) : assemble_K_FE_one_multipole_yukawa<double>(*b.rad,L,lam,D); }; law(f(x,P),f(z,Q),sum(P),sum(Q)); }
      else if(x.sad) { for(B * b: {&x,&z}) { if(o=="Y") b->sad->compute_yukawa(lam); else if(o=="E") b->sad->compute_erfc(lam); else b->sad->compute_tei(); } helfem::Cube P,Q; for(int l=0;l<3;l++) { P.push_back(dens(x.nbf)); Q.push_back(C*P[l]*C.transpose()); } if(o=="J") law(x.sad->coulomb(P[0]),z.sad->coulomb(Q[0]),sum(P[0]),sum(Q[0])); else { helfem::Cube k= o=="K"? x.sad->exchange(P) : x.sad->rs_exchange(P), q= o=="K"? z.sad->exchange(Q) : z.sad->rs_exchange(Q); double sp=0,sq=0; for(int l=0;l<3;l++) { sp+=sum(P[l]); sq+=sum(Q[l]); } for(int l=0;l<3;l++) law(k[l],q[l],sp,sq); } }
      else if(x.at) { for(B * b: {&x,&z}) { if(o=="Y") b->at->compute_yukawa(lam); else if(o=="E") b->at->compute_erfc(lam); else { b->at->compute_tei(true); b->prep=true; } } Matrix P=dens(x.nbf), Q=C*P*C.transpose(); if(o=="J") law(x.at->coulomb(P),z.at->coulomb(Q),sum(P),sum(Q)); else if(o=="K") law(x.at->exchange(P),z.at->exchange(Q),sum(P),sum(Q)); else law(x.at->rs_exchange(P),z.at->rs_exchange(Q),sum(P),sum(Q)); }
      else { for(B * b: {&x,&z}) if(!b->prep) { b->dia->compute_tei(true); b->prep=true; } Matrix P=dens(x.nbf), Q=C*P*C.transpose(); if(o=="J") law(x.dia->coulomb(P),z.dia->coulomb(Q),sum(P),sum(Q)); else law(x.dia->exchange(P),z.dia->exchange(Q),sum(P),sum(Q)); }
      } catch(std::logic_error &) { r="logic_error"; } catch(std::exception &) { r="error"; }
      emit("{\"e\":\"two\",\"o\":"+q(o)+",\"a\":"+a[2]+",\"c\":"+a[3]+",\"s\":"+a[4]+",\"lam\":"+a[5]+",\"r\":"+q(r)+",\"err\":"+N(fx(err,(x.k=="dia" || o=="E")? 1e9 : 1e15))+"}"); return; }
    if(a[0]=="fac") { // fac a L lam8 tolexp: factors of the integrals within one element
      const B & x=bs[std::stoi(a[1])-1]; int L=std::stoi(a[2]); double lam=std::stoi(a[3])/8.0/RMAX, tol=RMAX*std::pow(10.0,-std::stoi(a[4])); double sym=0,err=0,con=0; std::vector<long long> rank,full; using namespace atomic::basis;
      for(size_t e=0;e<x.rad->Nel();e++) { Matrix T= lam>0? x.rad->yukawa_integral(L,lam,e) : x.rad->twoe_integral(L,e), F= lam>0? x.rad->yukawa_integral_cholesky(L,lam,e,tol) : x.rad->twoe_integral_cholesky(L,e,tol); double sc=T.cwiseAbs().maxCoeff<Eigen::PropagateNaN>(); size_t i0,i1; x.rad->get_idx(e,i0,i1); int n=i1-i0+1; if(T.rows()!=n*n || F.rows()!=n*n) { err=1e9; continue; }
        sym=vp::worst(sym,(T-T.transpose()).cwiseAbs().maxCoeff<Eigen::PropagateNaN>()/sc); for(int i=0;i<n;i++) for(int j=0;j<n;j++) sym=vp::worst(sym,(T.row(i+j*n)-T.row(j+i*n)).cwiseAbs().maxCoeff<Eigen::PropagateNaN>()/sc); double d=(F*F.transpose()-T).cwiseAbs().maxCoeff<Eigen::PropagateNaN>(); err=vp::worst(err,d/(tol+1e-13*sc)); rank.push_back(F.cols()); full.push_back(n*(n+1)/2); }
      // assembled operators: from the integrals and from their factors
      { std::map<size_t,Matrix> s,b,t,k,f; Rng g(L+17); int nb=x.nbf; Matrix P(nb,nb); Vector nd=self(x).diagonal().array().sqrt().inverse(); for(int i=0;i<nb;i++) for(int j=0;j<=i;j++) P(i,j)=P(j,i)=nd(i)*nd(j)*((int)(g.next()%9)-4); std::vector<Matrix> ds,db; compute_disjoint_radial_integrals<double>(*x.rad,L+1,ds,db,lam>0,lam); size_t ne=x.rad->Nel();
        auto rs=[&](size_t e)->const Matrix & { return ds[L*ne+e]; }; auto rb=[&](size_t e)->const Matrix & { return db[L*ne+e]; }; auto fc=[&](size_t e)->const Matrix & { auto i=f.find(e); if(i==f.end()) i=f.emplace(e,lam>0? x.rad->yukawa_integral_cholesky(L,lam,e,1e-13*RMAX) : x.rad->twoe_integral_cholesky(L,e,1e-13*RMAX)).first; return i->second; };
        Matrix J= lam>0? assemble_J_FE_one_multipole_yukawa<double>(*x.rad,L,lam,P) : assemble_J_FE_one_multipole<double>(*x.rad,L,P), K= lam>0? assemble_K_FE_one_multipole_yukawa<double>(*x.rad,L,lam,P) : assemble_K_FE_one_multipole<double>(*x.rad,L,P); Matrix Jc=assemble_J_FE_one_multipole_cached_chol<double>(*x.rad,rs,rb,fc,P), Kc=assemble_K_FE_one_multipole_cached_chol<double>(*x.rad,rs,rb,fc,P); double sp=P.cwiseAbs().sum(); auto gap=[&](const Matrix & A, const Matrix & M) { double sc=0,e=0; for(int i=0;i<nb;i++) for(int j=0;j<nb;j++) sc=vp::worst(sc,std::fabs(A(i,j))*nd(i)*nd(j)); sc=vp::worst(sc,1e-30); for(int i=0;i<nb;i++) for(int j=0;j<nb;j++) { double w=std::fabs(A(i,j)-M(i,j))/(sc/(nd(i)*nd(j))+1e9*1e-12*RMAX*sp); e=vp::worst(e,w); } return e; }; con=vp::worst(gap(J,Jc),gap(K,Kc)); }
      emit("{\"e\":\"fac\",\"a\":"+a[1]+",\"L\":"+a[2]+",\"lam\":"+a[3]+",\"t\":"+a[4]+",\"sym\":"+N(fx(sym,1e15))+",\"err\":"+N(fx(err,1e3))+",\"con\":"+N(fx(con,1e15))+",\"rank\":"+arr(rank)+",\"full\":"+arr(full)+"}"); return; }
    if(a[0]=="prep") { B & x=bs[std::stoi(a[1])-1]; x.at->compute_tei(true); x.prep=true; emit("{\"e\":\"prep\",\"a\":"+a[1]+"}"); return; }
    if(a[0]=="df") { // df a tolexp: factors of the radial integrals of every multipole
      const B & x=bs[std::stoi(a[1])-1]; double tol=RMAX*std::pow(10.0,-std::stoi(a[2])); std::vector<std::vector<Matrix>> F; std::string r="ok"; try { F=x.at->radial_df_factors(tol); } catch(std::logic_error &) { r="logic_error"; } catch(std::exception &) { r="error"; }
      double err=0; long long nb=x.nbf/x.l.size(); std::vector<long long> rank; bool shape=true,sym=true; if(r=="ok") { auto p=std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(x.fam,x.nn)); Vector bv(x.grid.size()); for(size_t i=0;i<x.grid.size();i++) bv(i)=RMAX*x.grid[i]/24.0; polynomial_basis::FiniteElementBasis fem(p,bv,true,false,true,x.zd); atomic::basis::FEMRadialBasis rad(fem,40);
        for(size_t L=0;L<F.size();L++) { rank.push_back(F[L].size()); for(auto & M: F[L]) { shape=shape && M.rows()==nb && M.cols()==nb; if(shape) sym=sym && (M-M.transpose()).cwiseAbs().maxCoeff<Eigen::PropagateNaN>()<=1e-9*M.cwiseAbs().maxCoeff<Eigen::PropagateNaN>()+1e-300; } if(!shape) break; Rng g(L*3+5); for(int t=0;t<6;t++) { int e=g.upto(rad.Nel()); size_t i0,i1; rad.get_idx(e,i0,i1); int n=i1-i0+1, i=i0+g.upto(n), j= t%3==0? i1 : (t%3==1? i0 : i0+g.upto(n)); Matrix P=Matrix::Zero(nb,nb); P(i,j)+=0.5; P(j,i)+=0.5; Matrix J=atomic::basis::assemble_J_FE_one_multipole<double>(rad,L,P), D=Matrix::Zero(nb,nb); for(auto & M: F[L]) D+=M(i,j)*M; double e2=(J-D).cwiseAbs().maxCoeff<Eigen::PropagateNaN>()/(tol+1e-11*J.cwiseAbs().maxCoeff<Eigen::PropagateNaN>()); err=vp::worst(err,e2); } } }
      emit("{\"e\":\"df\",\"a\":"+a[1]+",\"t\":"+a[2]+",\"r\":"+q(r)+",\"n\":"+N(F.size())+",\"shape\":"+b(shape && sym)+",\"rank\":"+arr(rank)+",\"err\":"+N(fx(err,1e3))+"}"); return; }
    emit("{\"e\":\"unknown\"}");
  });
}
