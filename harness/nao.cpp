// Numerical atomic orbital bases over finite elements: polynomial orbitals, Slater and Gaussian projections, two-electron operators.
#include "vp.h"
#include "sadatom/basis.h"
#include "NAORadialBasis.h"
#include "STO.h"
#include "GTO.h"
#include "CoulombExchangeFE.h"
#include "PolynomialBasis.h"
#include <Eigen/Dense>
#include <omp.h>
using namespace vp; using namespace helfem; using helfem::Matrix; using helfem::Vector; using namespace helfem::atomic::basis;
static std::string N(long long x) { return std::to_string(x); }
static long long fx(double x, double u) { double y=x*u; if(!(std::fabs(y)<2e9)) return 2000000000ll; return std::llround(y); }
static std::string guard(std::function<void()> f) { try { f(); return "ok"; } catch(std::logic_error &) { return "logic_error"; } catch(std::exception &) { return "error"; } }
static std::string mat(const Matrix & m, double u) { std::vector<std::string> rows; for(Eigen::Index i=0;i<m.rows();i++) { std::vector<long long> v; for(Eigen::Index j=0;j<m.cols();j++) v.push_back(fx(m(i,j),u)); rows.push_back(arr(v)); } return arrs(rows); }
static std::vector<std::shared_ptr<const FEMRadialBasis>> fes; static std::vector<std::unique_ptr<NAORadialBasis>> bs; static std::vector<std::vector<std::array<int,2>>> gs; static std::vector<int> under;
static FEMRadialBasis makefe(int rad, int nel, double R) { static const int F[]={4,4,3,5,100,8}, NN[]={6,9,7,4,6,4}; auto p=std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(F[rad],NN[rad])); Vector bv(nel+1); for(int i=0;i<=nel;i++) bv(i)=R*std::pow(double(i)/nel,1.3); polynomial_basis::FiniteElementBasis fem(p,bv,true,false,true,false); return FEMRadialBasis(fem,30); }
static double uval(int a, int b, double r) { return r*(1-r)*(a+b*r); }
static Vector coef(const FEMRadialBasis & f, int a, int b) { Eigen::Index np=0; for(size_t e=0;e<f.Nel();e++) np+=f.get_r(e).size(); Matrix A=Matrix::Zero(np,f.Nbf()); Vector y(np); Eigen::Index k=0; for(size_t e=0;e<f.Nel();e++) { Matrix B=f.get_bf(e); Vector r=f.get_r(e); size_t i0,i1; f.get_idx(e,i0,i1); for(Eigen::Index i=0;i<r.size();i++,k++) { A.block(k,i0,1,i1-i0+1)=B.row(i)*r(i); y(k)=uval(a,b,r(i)); } } return A.colPivHouseholderQr().solve(y); }
static Matrix dm(const Args & a, size_t from, int n) { Matrix D=Matrix::Zero(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) D(i,j)=std::stoi(a.at(from+i*n+j)); return D; }
static std::string dmj(const Args & a, size_t from, int n) { std::vector<std::string> rows; for(int i=0;i<n;i++) { std::vector<long long> v; for(int j=0;j<n;j++) v.push_back(std::stoi(a.at(from+i*n+j))); rows.push_back(arr(v)); } return arrs(rows); }
// radial Yukawa kernel i_k(l r<) k_k(l r>), without the factors the drivers multiply in
static double ik(int k, double x) { double t=1,s=0; double f=1; for(int j=1;j<=k;j++) f*=x/(2*j+1); t=f; for(int n=0;n<60;n++) { s+=t; t*=0.5*x*x/((n+1)*(2*(n+k)+3)); } return s; }
static double kk(int k, double x) { double a=std::exp(-x)/x, b=std::exp(-x)*(1/x+1/(x*x)); if(k==0) return a; for(int j=1;j<k;j++) { double c=a+(2*j+1)/x*b; a=b; b=c; } return b; }
static double yuk(int k, double l, double r, double s) { double lo=std::min(r,s),hi=vp::worst(r,s); return ik(k,l*lo)*kk(k,l*hi); }
static double brute(std::function<double(double)> p, std::function<double(double)> q, int k, double l) { static const int n=24; static Vector x,w; if(x.size()==0) { x.resize(n); w.resize(n); for(int i=0;i<n;i++) { double z=std::cos(M_PI*(i+0.75)/(n+0.5)),pp; for(int it=0;it<100;it++) { double p1=1,p2=0; for(int j=0;j<n;j++) { double p3=p2; p2=p1; p1=((2*j+1)*z*p2-j*p3)/(j+1); } pp=n*(z*p1-p2)/(z*z-1); double z1=z; z=z1-p1/pp; if(std::fabs(z-z1)<1e-15) break; } x(i)=0.5*(1-z); w(i)=1/((1-z*z)*pp*pp); } }
  double s=0; const int m=6; for(int c=0;c<m;c++) for(int i=0;i<n;i++) { double r=(c+x(i))/m, wr=w(i)/m; double in=0; for(int d=0;d<2;d++) for(int j=0;j<n;j++) { double t= d==0? r*x(j) : r+(1-r)*x(j), wt= d==0? r*w(j) : (1-r)*w(j); in+=wt*q(t)*yuk(k,l,r,t); } s+=wr*p(r)*in; } return s; }
int main() {
  init(); omp_set_num_threads(1);
  return loop([&]{ fes.clear(); bs.clear(); gs.clear(); under.clear(); emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    std::string H="{\"e\":"+q(a[0]);
    if(a[0]=="fe") { fes.push_back(std::make_shared<FEMRadialBasis>(makefe(std::stoi(a[1]),std::stoi(a[2]),1.0))); emit(H+"}"); return; }
    if(a[0]=="mk") { // mk fe n a1 b1 ..., n=0: no columns; fe 0: null; n<0: wrong number of rows
      int f=std::stoi(a[1]),n=std::stoi(a[2]); std::vector<std::array<int,2>> g; for(int i=0;i<n;i++) g.push_back({std::stoi(a[3+2*i]),std::stoi(a[4+2*i])}); std::unique_ptr<NAORadialBasis> x; size_t rows= f? fes[f-1]->Nbf() : 4; if(n<0) rows++; Matrix C=Matrix::Zero(rows,std::abs(n)); if(f && n>0) for(int i=0;i<n;i++) C.col(i)=coef(*fes[f-1],g[i][0],g[i][1]);
      std::string r=guard([&]{ x.reset(new NAORadialBasis(f? fes[f-1] : nullptr,C)); }); if(r=="ok") { bs.push_back(std::move(x)); gs.push_back(g); under.push_back(f); }
      std::vector<std::string> gj; for(auto & y: g) gj.push_back("["+N(y[0])+","+N(y[1])+"]"); emit(H+",\"f\":"+N(f)+",\"n\":"+N(n)+",\"g\":"+arrs(gj)+",\"r\":"+q(r)+",\"nbf\":"+N(r=="ok"? (long long) bs.back()->Nbf() : 0)+"}"); return; }
    if(a[0]=="one") { int b=std::stoi(a[1]); NAORadialBasis & x=*bs[b-1]; Matrix m= a[2]=="S"? x.overlap() : a[2]=="T"? x.kinetic() : a[2]=="L"? x.kinetic_l() : x.nuclear(); emit(H+",\"b\":"+N(b)+",\"o\":"+q(a[2])+",\"m\":"+mat(m,1e8)+"}"); return; }
    if(a[0]=="orb") { int b=std::stoi(a[1]),k=std::stoi(a[2]); int wrong=std::stoi(a[3]); NAORadialBasis & x=*bs[b-1]; Matrix C=Matrix::Identity(x.Nbf()+wrong,x.Nbf()+wrong); std::vector<long long> v; std::string r=guard([&]{ Vector y=x.eval_orbs(C,k/16.0); for(Eigen::Index i=0;i<y.size();i++) v.push_back(fx(y(i),4096*16)); }); emit(H+",\"b\":"+N(b)+",\"k\":"+N(k)+",\"w\":"+N(wrong)+",\"r\":"+q(r)+",\"v\":"+arr(v)+"}"); return; }
    if(a[0]=="two") { // two J|K k b c n D
      int k=std::stoi(a[2]),b=std::stoi(a[3]),c=std::stoi(a[4]),n=std::stoi(a[5]); Matrix D=dm(a,6,n),m; bool J=a[1]=="J"; std::string r=guard([&]{ m= J? bs[b-1]->coulomb_radial(k,*bs[c-1],D) : bs[b-1]->exchange_radial(k,*bs[c-1],D); }); emit(H+",\"o\":"+q(a[1])+",\"k\":"+N(k)+",\"b\":"+N(b)+",\"c\":"+N(c)+",\"n\":"+N(n)+",\"D\":"+dmj(a,6,n)+",\"r\":"+q(r)+",\"m\":"+(r=="ok"? mat(m,1e8) : "[]")+"}"); return; }
    if(a[0]=="yuk") { // yuk J|K k lam16 b c n D : against brute force integration
      int k=std::stoi(a[2]),lam=std::stoi(a[3]),b=std::stoi(a[4]),c=std::stoi(a[5]),n=std::stoi(a[6]); double l=lam/16.0; Matrix D=dm(a,7,n),m; bool J=a[1]=="J"; std::string r=guard([&]{ m= J? bs[b-1]->coulomb_radial_yukawa(k,l,*bs[c-1],D) : bs[b-1]->exchange_radial_yukawa(k,l,*bs[c-1],D); }); long long err=0;
      if(r=="ok") { Matrix z=m; z.setZero(); int nb=gs[b-1].size(),nc=gs[c-1].size(); auto U=[&](int bb, int i, double t){ return uval(gs[bb-1][i][0],gs[bb-1][i][1],t); }; for(int i=0;i<nb;i++) for(int j=0;j<nb;j++) { if(J) z(i,j)=brute([&](double t){ return U(b,i,t)*U(b,j,t); },[&](double t){ double s=0; for(int u=0;u<nc;u++) for(int v=0;v<nc;v++) s+=D(u,v)*U(c,u,t)*U(c,v,t); return s; },k,l); else for(int u=0;u<nc;u++) for(int v=0;v<nc;v++) if(D(u,v)!=0) z(i,j)+=D(u,v)*brute([&](double t){ return U(b,i,t)*U(c,u,t); },[&](double t){ return U(b,j,t)*U(c,v,t); },k,l); } err= m.rows()==z.rows() && m.cols()==z.cols() ? fx((m-z).cwiseAbs().maxCoeff<Eigen::PropagateNaN>()/(1e-4+z.cwiseAbs().maxCoeff<Eigen::PropagateNaN>()),1e7) : 2000000000ll; }
      emit(H+",\"o\":"+q(a[1])+",\"k\":"+N(k)+",\"lam\":"+N(lam)+",\"b\":"+N(b)+",\"c\":"+N(c)+",\"n\":"+N(n)+",\"r\":"+q(r)+",\"err\":"+N(err)+"}"); return; }
    if(a[0]=="prim") { // prim sto|gto n1 z1 n2 z2 : matrices of two primitives; z in halves
      int n[2]={std::stoi(a[2]),std::stoi(a[4])}, z[2]={std::stoi(a[3]),std::stoi(a[5])}; Matrix S,T,L,V; double con=0; std::string r=guard([&]{ std::unique_ptr<NAORadialBasis> x; Vector one=Vector::Ones(1); Vector c2(2); c2<<0.7,-0.4;
        if(a[1]=="sto") { std::vector<STOContracted> B; for(int i=0;i<2;i++) { STOContracted c; c.primitives.push_back({n[i],z[i]/2.0}); c.contraction=one; B.push_back(c); } STOContracted c; c.primitives={{n[0],z[0]/2.0},{n[1],z[1]/2.0}}; c.contraction=c2; B.push_back(c); x.reset(new NAORadialBasis(make_nao_sto(B))); }
        else { std::vector<GTOContracted> B; for(int i=0;i<2;i++) { GTOContracted c; c.primitives.push_back({n[i],z[i]/2.0}); c.contraction=one; B.push_back(c); } GTOContracted c; c.primitives={{n[0],z[0]/2.0},{n[1],z[1]/2.0}}; c.contraction=c2; B.push_back(c); x.reset(new NAORadialBasis(make_nao_gto(B))); }
        S=x->overlap(); T=x->kinetic(); L=x->kinetic_l(); V=x->nuclear(); for(const Matrix & M: {S,T,L,V}) { Matrix P=M.topLeftCorner(2,2); Vector m=P*c2; for(int i=0;i<2;i++) con=vp::worst(con,std::fabs(M(i,2)-m(i))); con=vp::worst(con,std::fabs(M(2,2)-c2.dot(m))); } if(x->Nbf()!=3) con=1e9; });
      std::string body; if(r=="ok") { auto rat=[&](const Matrix & M, double f) { std::vector<std::string> rows; for(int i=0;i<2;i++) { std::vector<long long> v; for(int j=0;j<2;j++) v.push_back(fx(M(i,j)/S(i,j),f)); rows.push_back(arr(v)); } return arrs(rows); }; body=",\"S\":"+mat(S.topLeftCorner(2,2),1e8)+",\"T\":"+rat(T,1e6)+",\"L\":"+rat(L,1e6)+",\"V\":"+rat(V,1e6)+",\"W\":"+rat((M_PI*V.topLeftCorner(2,2).array().square()/S.topLeftCorner(2,2).array()).matrix(),1e6)+",\"con\":"+N(fx(con,1e9)); }
      emit(H+",\"o\":"+q(a[1])+",\"p\":["+N(n[0])+","+N(n[1])+"],\"z\":["+N(z[0])+","+N(z[1])+"],\"r\":"+q(r)+body+"}"); return; }
    if(a[0]=="bad") { // malformed contractions
      std::string r=guard([&]{ if(a[1]=="sto") { std::vector<STOContracted> B; if(a[2]!="empty") { STOContracted c; if(a[2]!="noprim") c.primitives.push_back({1,1.0}); c.contraction=Vector::Ones(a[2]=="mismatch"?2:a[2]=="noprim"?0:1); B.push_back(c); } make_nao_sto(B,1e-12,5,5); } else { std::vector<GTOContracted> B; if(a[2]!="empty") { GTOContracted c; if(a[2]!="noprim") c.primitives.push_back({1,1.0}); c.contraction=Vector::Ones(a[2]=="mismatch"?2:a[2]=="noprim"?0:1); B.push_back(c); } make_nao_gto(B,1e-12,5,5); } }); emit(H+",\"o\":"+q(a[1])+",\"w\":"+q(a[2])+",\"r\":"+q(r)+"}"); return; }
    if(a[0]=="extract") { // extract nslices ncols_1..n  nkeep keep_1..n
      int ns=std::stoi(a[1]); std::vector<long long> nc,kp; for(int i=0;i<ns;i++) nc.push_back(std::stoi(a[2+i])); int nk=std::stoi(a[2+ns]); std::vector<int> keep; for(int i=0;i<nk;i++) { keep.push_back(std::stoi(a[3+ns+i])); kp.push_back(keep.back()); }
      static auto p=std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(4,6)); Vector bv(3); bv<<0,0.4,1; sadatom::basis::TwoDBasis sb(1,modelpotential::POINT_NUCLEUS,0.0,p,false,30,bv,3); helfem::Cube C; Rng g(ns*17+nk); for(int i=0;i<ns;i++) { Matrix M(sb.get_radial().Nbf(),nc[i]); for(Eigen::Index x=0;x<M.rows();x++) for(Eigen::Index y=0;y<M.cols();y++) M(x,y)=(int)(g.next()%7)-3; C.push_back(M); }
      std::vector<long long> ls,ns2; bool same=true; std::string r=guard([&]{ auto v=sadatom::basis::extract_naos_per_l(sb,C,keep); for(auto & y: v) { ls.push_back(y.first); ns2.push_back(y.second.Nbf()); same=same && y.second.coeffs()==C[y.first].leftCols(y.second.Nbf()) && y.second.underlying().Nbf()==sb.get_radial().Nbf(); } }); emit(H+",\"nc\":"+arr(nc)+",\"kp\":"+arr(kp)+",\"r\":"+q(r)+",\"l\":"+arr(ls)+",\"n\":"+arr(ns2)+",\"same\":"+b(same)+"}"); return; }
    emit("{\"e\":\"unknown\"}");
  });
}
