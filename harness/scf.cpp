// Building blocks of the self-consistent-field drivers: electron counting, density and Fock bookkeeping, block-wise diagonalisation.
#include "vp.h"
#include "general/scf_helpers.h"
#include "general/scf_driver_common.h"
#include "atomic/TwoDBasis.h"
#include "diatomic/basis.h"
#include "PolynomialBasis.h"
static std::string b_(bool x) { return vp::b(x); }
using namespace vp; using namespace helfem; namespace sd=helfem::scf_driver;
typedef std::vector<Eigen::Index> Ix; using OOOF=OpenOrbitalOptimizer::FockMatrix<double>; using OOOO=OpenOrbitalOptimizer::Orbitals<double>; using OOOC=OpenOrbitalOptimizer::OrbitalOccupations<double>;
static int n=0; static std::vector<Ix> blk,mir; static std::vector<Matrix> sinv; static Matrix dens; static uint64_t seed=1;
static std::string N(long long x) { return std::to_string(x); }
static std::string num(double v) { double r=std::round(v); if(!(std::abs(v-r)<=1e-7*(1+std::abs(v))) || std::abs(r)>2e9) return "1999999999"; return N((long long) r); }
static std::string mat(const Matrix & m, double s=1) { std::vector<std::string> rows; for(int i=0;i<m.rows();i++) { std::vector<std::string> r; for(int j=0;j<m.cols();j++) r.push_back(num(s*m(i,j))); rows.push_back(arrs(r)); } return arrs(rows); }
static std::string vecs(const Vector & v, double s=1) { std::vector<std::string> r; for(int j=0;j<v.size();j++) r.push_back(num(s*v(j))); return arrs(r); }
static std::string arrr(const std::vector<Ix> & v) { std::vector<std::string> s; for(auto & x: v) s.push_back(arr(x)); return arrs(s); }
static Matrix rint(Rng & g, int r, int c, int lo, int hi) { Matrix m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=lo+g.upto(hi-lo+1); return m; }
static Matrix rsym(Rng & g, int r) { Matrix m=rint(g,r,r,-3,3); for(int i=0;i<r;i++) for(int j=0;j<i;j++) m(i,j)=m(j,i); return m; }
static Matrix rinv(Rng & g, int k) { // well-conditioned random invertible
  Matrix m=Matrix::Identity(k,k); for(int i=0;i<k;i++) for(int j=0;j<k;j++) m(i,j)+=0.35*(g.uni()-0.5); return m; }
static Matrix rorth(Rng & g, int k) { if(k==0) return Matrix::Zero(0,0); Matrix m(k,k); for(int i=0;i<k;i++) for(int j=0;j<k;j++) m(i,j)=g.uni()-0.5; Eigen::HouseholderQR<Matrix> q(m); return Matrix(q.householderQ()); }
static std::vector<std::string> mats(const std::vector<Matrix> & v, double s=1) { std::vector<std::string> r; for(auto & m: v) r.push_back(mat(m,s)); return r; }
static Ix sup(const Vector & v) { Ix r; double m= v.size()? v.cwiseAbs().maxCoeff<Eigen::PropagateNaN>() : 0; for(int i=0;i<v.size();i++) if(std::abs(v(i))>1e-10*m) r.push_back(i); return r; }
static double mx(const Matrix & m) { return m.size()? m.cwiseAbs().maxCoeff<Eigen::PropagateNaN>() : 0; }
static void sinv_event(const std::string & what, const Matrix & S, const Matrix & X, const std::vector<Ix> & b, const std::string & r) {
  size_t nc=0; for(auto & x: b) nc+=x.size(); bool id= r=="ok" && (size_t) X.cols()>=nc; std::vector<std::string> s;
  if(id) { Matrix Y=X.leftCols(nc); Matrix I=Y.transpose()*S*Y; id=mx(I-Matrix::Identity(nc,nc))<1e-7; for(size_t c=0;c<nc;c++) s.push_back(arr(sup(Y.col(c)))); }
  emit("{\"e\":\"sinv\",\"what\":"+q(what)+",\"r\":"+q(r)+",\"id\":"+b_(id)+",\"blk\":"+arrr(b)+",\"sup\":"+arrs(s)+"}");
}
int main() {
  init();
  return loop([&]{ n=0; blk.clear(); mir.clear(); sinv.clear(); emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    auto I=[&](size_t k) { return std::stoi(a.at(k)); };
    if(a[0]=="seed") { seed=std::stoull(a[1]); return; }
    if(a[0]=="parse") { int Z=I(1),Q=I(2),M=I(3),na=I(4),nb=I(5); int q_=Q,m_=M,x=na,y=nb; std::string r="ok"; try { scf::parse_nela_nelb(x,y,q_,m_,Z); } catch(std::exception &) { r="err"; }
      emit("{\"e\":\"parse\",\"Z\":"+N(Z)+",\"Q\":"+N(Q)+",\"M\":"+N(M)+",\"na\":"+N(na)+",\"nb\":"+N(nb)+",\"r\":"+q(r)+",\"out\":["+N(x)+","+N(y)+","+N(q_)+","+N(m_)+"]}"); return; }
    if(a[0]=="derive") { int Z=I(1),Q=I(2),M=I(3),na=I(4),nb=I(5),rs=I(6); int x=na,y=nb,t=rs,nt=-77; bool re=false; std::string r="ok"; try { sd::derive_nela_nelb_restricted(x,y,t,Q,M,Z,re,nt); } catch(std::exception &) { r="err"; }
      emit("{\"e\":\"derive\",\"Z\":"+N(Z)+",\"Q\":"+N(Q)+",\"M\":"+N(M)+",\"na\":"+N(na)+",\"nb\":"+N(nb)+",\"restr\":"+N(rs)+",\"r\":"+q(r)+",\"out\":["+N(x)+","+N(y)+","+N(nt)+"],\"restricted\":"+b(re)+"}"); return; }
    if(a[0]=="part") { // part N spec seed ; spec = "0.2/1,3,," : blocks separated by ',', members by '.', mirror after '/'
      n=I(1); blk.clear(); mir.clear(); sinv.clear(); Rng g(I(3)*977+5);
      std::istringstream is(a[2]); std::string t; auto lst=[](const std::string & s) { Ix r; std::istringstream x(s); std::string y; while(std::getline(x,y,'.')) if(y.size()) r.push_back(std::stoi(y)); return r; };
      while(std::getline(is,t,',')) { if(t=="-") t=""; size_t p=t.find('/'); blk.push_back(lst(t.substr(0,p))); mir.push_back(p==std::string::npos? Ix() : lst(t.substr(p+1))); }
      for(auto & x: blk) sinv.push_back(rint(g,x.size(),x.size(),-2,2)); dens=Matrix::Zero(n,n);
      emit("{\"e\":\"part\",\"n\":"+N(n)+",\"blk\":"+arrr(blk)+",\"mir\":"+arrr(mir)+",\"sinv\":"+arrs(mats(sinv))+"}"); return; }
    if(n==0) return;
    size_t nb=blk.size(); int u= a.size()>2? I(2) : 0, t= a.size()>1? I(1) : 0; Rng g(seed*1000003+(uint64_t) t*131+u);
    auto orbs=[&](size_t k, bool square) { int s=blk[k].size(); int no= square? s : (s? 1+g.upto(s) : 0); return rint(g,s,no,-2,2); };
    auto occs=[&](int no) { Vector w(no); for(int i=0;i<no;i++) w(i)=g.upto(3); return w; };
    if(a[0]=="acc") { size_t k=t%nb; Matrix C=orbs(k,false); Vector w=occs(C.cols());
      bool nul= mir[k].empty() && g.upto(2); sd::accumulate_density_block<double>(dens,blk,k,sinv,C,w,nul? nullptr : &mir[k]);
      emit("{\"e\":\"acc\",\"k\":"+N(k)+",\"C\":"+mat(C)+",\"occ\":"+vecs(w,4)+",\"P\":"+mat(dens,4)+"}");
    } else if(a[0]=="final") { bool restr=t%2; OOOO C; OOOC w; for(size_t k=0;k<nb*(restr?1:2);k++) { C.push_back(orbs(k%nb,false)); w.push_back(occs(C.back().cols())); }
      bool any=false; for(auto & x: mir) any=any||x.size(); auto r= (!any && u%2)? sd::assemble_final_density<double>(n,restr,blk,sinv,C,w) : sd::assemble_final_density<double>(n,restr,blk,sinv,C,w,&mir);
      std::vector<std::string> ws; for(auto & x: w) ws.push_back(vecs(x,4));
      emit("{\"e\":\"final\",\"restricted\":"+b_(restr)+",\"C\":"+arrs(mats(C))+",\"occ\":"+arrs(ws)+",\"Pa\":"+mat(r.first,4)+",\"Pb\":"+mat(r.second,4)+"}");
    } else if(a[0]=="ortho") { size_t k=t%nb, bi=k+(u%2? nb : 0); OOOF F(2*nb); Matrix A=rint(g,n,n,-3,3); sd::orthonormalize_fock_block<double>(F,bi,blk,k,sinv,A); std::vector<int> sz; for(auto & x: F) sz.push_back(x.size());
      emit("{\"e\":\"ortho\",\"k\":"+N(k)+",\"b\":"+N(bi)+",\"A\":"+mat(A)+",\"F\":"+mat(F[bi])+",\"sizes\":"+arr(sz)+"}");
    } else if(a[0]=="fock") { bool restr=t&1,xc=t&2,exx=t&4,bf=t&8; double Bz=2.0*(1+g.upto(3))*(g.upto(2)?1:-1); Matrix H=rsym(g,n),Jm=rsym(g,n),Xa=rsym(g,n),Xb=rsym(g,n),Ka=rsym(g,n),Kb=rsym(g,n),S=rsym(g,n);
      OOOF F(2*nb); std::vector<int> slot,from; std::vector<Matrix> got; sd::assemble_fock_blocks<double>(F,H,Jm,Xa,Xb,Ka,Kb,S,nb,restr,xc,exx,bf,Bz,[&](OOOF &, size_t bi, const Matrix & M, size_t k) { slot.push_back(bi); from.push_back(k); got.push_back(M); });
      emit("{\"e\":\"fock\",\"restricted\":"+b_(restr)+",\"xc\":"+b_(xc)+",\"exx\":"+b_(exx)+",\"bf\":"+b_(bf)+",\"Bz\":"+num(Bz)+",\"H\":"+mat(H)+",\"J\":"+mat(Jm)+",\"Xa\":"+mat(Xa)+",\"Xb\":"+mat(Xb)+",\"Ka\":"+mat(Ka)+",\"Kb\":"+mat(Kb)+",\"S\":"+mat(S)+",\"slot\":"+arr(slot)+",\"from\":"+arr(from)+",\"F\":"+arrs(mats(got))+"}");
    } else if(a[0]=="core") { int nt=1+t%2; bool bf=u%2; double Bz=2.0*(1+g.upto(3))*(g.upto(2)?1:-1); Matrix H=rsym(g,n),S=rsym(g,n); auto F=sd::build_coreH_from_H0<double>(H,S,blk,sinv,nt,bf,Bz);
      emit("{\"e\":\"core\",\"nt\":"+N(nt)+",\"bf\":"+b_(bf)+",\"Bz\":"+num(Bz)+",\"H\":"+mat(H)+",\"S\":"+mat(S)+",\"F\":"+arrs(mats(F))+"}");
    } else if(a[0]=="hfx") { bool restr=t&1,exx=t%8!=0; Matrix A=rsym(g,n),Pa=rsym(g,n),Pb=rsym(g,n),Ka=Matrix::Zero(n,n),Kb=Matrix::Zero(n,n); double E=3.25; sd::assemble_hf_exchange(Ka,Kb,E,Pa,Pb,restr,exx,[&](const Matrix & P) { return Matrix(A*P*A); });
      emit("{\"e\":\"hfx\",\"restricted\":"+b_(restr)+",\"exx\":"+b_(exx)+",\"A\":"+mat(A)+",\"Pa\":"+mat(Pa)+",\"Pb\":"+mat(Pb)+",\"Ka\":"+mat(Ka)+",\"Kb\":"+mat(Kb)+",\"E2\":"+num(2*E)+"}");
    } else if(a[0]=="meta") { bool restr=t%2; int nt= restr? 1 : 2, ns=g.upto(5), na=g.upto(20),nbe=g.upto(20); if(u%7==0) nt=1+g.upto(2); std::vector<std::string> lab,ql; std::vector<int> deg; int bad=u%9; for(int i=0;i<ns+(bad==1)-(bad==2 && ns);i++) { lab.push_back("m="+N(g.upto(9))); ql.push_back(q(lab.back())); } for(int i=0;i<ns+(bad==3)-(bad==4 && ns);i++) deg.push_back(1+g.upto(2));
      OpenOrbitalOptimizer::IndexVector x; Vector mo,np; std::vector<std::string> d{"junk"},dq; std::string r="ok"; int ntot=na+nbe; try { sd::build_ooo_block_metadata<double>(ns,nt,restr,ntot,na,nbe,lab,deg,x,mo,np,d); } catch(std::exception &) { r="err"; } for(auto & s: d) dq.push_back(q(s));
      std::vector<int> xv; if(r=="ok") for(int i=0;i<x.size();i++) xv.push_back(x(i));
      emit("{\"e\":\"meta\",\"nsym\":"+N(ns)+",\"nt\":"+N(nt)+",\"restricted\":"+b_(restr)+",\"ntot\":"+N(ntot)+",\"na\":"+N(na)+",\"nbe\":"+N(nbe)+",\"lab\":"+arrs(ql)+",\"deg\":"+arr(deg)+",\"r\":"+q(r)+",\"nb\":"+arr(xv)+",\"np\":"+(r=="ok"?vecs(np):"[]")+",\"mo\":"+(r=="ok"?vecs(mo):"[]")+",\"desc\":"+arrs(dq)+"}");
    } else if(a[0]=="fill") { size_t k=t%nb; int s=blk[k].size(); Matrix P=rsym(g,n); int mo=1+g.upto(4); Vector d(s); for(int i=0;i<s;i++) d(i)=g.upto(9)-2;
      // block density U^T... chosen so that X^T P X = Q diag(d) Q^T with X the block's orthogonaliser
      Matrix X=rinv(g,s),Q=rorth(g,s); Matrix Y=s? Matrix(X.inverse()) : X; bool pr=mir[k].size(); Vector d1=d; Matrix E=Matrix::Zero(s,s); if(pr && s) { E=rsym(g,s); }
      Matrix B= s? Matrix(Y.transpose()*Q*d1.asDiagonal()*Q.transpose()*Y) : X; for(int i=0;i<s;i++) for(int j=0;j<s;j++) { P(blk[k][i],blk[k][j])=B(i,j)-E(i,j); if(pr) P(mir[k][i],mir[k][j])=E(i,j); }
      OOOO C(nb); OOOC w(nb); sd::fill_block_from_density<double>(k,C,w,P,blk[k],X,mo,(pr||t%2)? &mir[k] : nullptr); Matrix O= s? Matrix(X.transpose()*B*X) : B; Vector raw=Vector::Zero(C[k].cols()); bool ok=C[k].rows()==s && C[k].cols()==s && w[k].size()==s;
      if(ok && s) { for(int i=0;i<s;i++) raw(i)=C[k].col(i).dot(O*C[k].col(i)); ok=mx(C[k].transpose()*C[k]-Matrix::Identity(s,s))<1e-8 && mx(O*C[k]-C[k]*raw.asDiagonal())<1e-7; }
      emit("{\"e\":\"fill\",\"k\":"+N(k)+",\"max\":"+N(mo)+",\"d\":"+vecs(d)+",\"raw\":"+vecs(raw)+",\"w\":"+vecs(w[k])+",\"ok\":"+b_(ok)+"}");
    } else if(a[0]=="rt") { // density with the block structure -> orbitals -> density
      bool restr=t%2; double m0= restr? 2 : 1; std::vector<Matrix> X(nb); Matrix Pa=Matrix::Zero(n,n),Pb=Pa; for(size_t k=0;k<nb;k++) { int s=blk[k].size(); X[k]=rinv(g,s); if(!s) continue; for(int sp=0;sp<2;sp++) { Vector w(s); for(int i=0;i<s;i++) w(i)=g.uni(); Matrix Z=X[k]*rorth(g,s); Z=Matrix(Z*w.asDiagonal()*Z.transpose()); if(restr && sp) continue; for(int i=0;i<s;i++) for(int j=0;j<s;j++) { (sp?Pb:Pa)(blk[k][i],blk[k][j])=Z(i,j); if(mir[k].size()) (sp?Pb:Pa)(mir[k][i],mir[k][j])=Z(i,j); } } }
      if(restr) Pb=Pa;
      // X is the block's orthogonaliser: metric is X^-T X^-1; orbitals in the orthonormal basis need X^-1 P X^-T = X^T (S P S) X
      Matrix SPSa=Matrix::Zero(n,n),SPSb=SPSa; for(size_t k=0;k<nb;k++) { int s=blk[k].size(); if(!s) continue; Matrix Y=X[k].inverse(); Matrix S=Y.transpose()*Y; auto put=[&](Matrix & D, const Matrix & P, const Ix & ix) { Matrix c(s,s); for(int i=0;i<s;i++) for(int j=0;j<s;j++) c(i,j)=P(ix[i],ix[j]); c=Matrix(S*c*S); for(int i=0;i<s;i++) for(int j=0;j<s;j++) D(ix[i],ix[j])=c(i,j); }; put(SPSa,Pa,blk[k]); put(SPSb,Pb,blk[k]); if(mir[k].size()) { put(SPSa,Pa,mir[k]); put(SPSb,Pb,mir[k]); } }
      OOOO C(2*nb); OOOC w(2*nb); for(size_t k=0;k<nb;k++) { double deg= mir[k].size()? 2 : 1; if(restr) sd::fill_block_from_density<double>(k,C,w,Matrix(SPSa+SPSb),blk[k],X[k],deg*m0,&mir[k]); else { sd::fill_block_from_density<double>(k,C,w,SPSa,blk[k],X[k],deg*m0,&mir[k]); sd::fill_block_from_density<double>(nb+k,C,w,SPSb,blk[k],X[k],deg*m0,&mir[k]); } }
      auto r=sd::assemble_final_density<double>(n,restr,blk,X,C,w,&mir); bool ok=mx(r.first-Pa)<1e-8 && mx(r.second-Pb)<1e-8;
      emit("{\"e\":\"rt\",\"restricted\":"+b_(restr)+",\"ok\":"+b_(ok)+"}");
    } else if(a[0]=="nel") { bool restr=t%2; Matrix S=Matrix::Zero(n,n); for(size_t k=0;k<nb;k++) { int s=blk[k].size(); Matrix X=rinv(g,s); Matrix B= s? Matrix(X.transpose()*X) : X; for(int i=0;i<s;i++) for(int j=0;j<s;j++) { S(blk[k][i],blk[k][j])=B(i,j); if(mir[k].size()) S(mir[k][i],mir[k][j])=B(i,j); } }
      auto X=sd::build_per_block_Sinvh(S,blk); OOOO C; OOOC w; std::vector<std::string> oc; for(size_t k=0;k<nb*(restr?1:2);k++) { int s=blk[k%nb].size(); C.push_back(rorth(g,s)); Vector x(s); for(int i=0;i<s;i++) x(i)=2*std::floor(g.uni()*1e6)/1e6; w.push_back(x); oc.push_back(num(1e6*x.sum())); }
      auto r=sd::assemble_final_density<double>(n,restr,blk,X,C,w,&mir); bool even=true; for(size_t k=0;k<nb;k++) for(size_t i=0;i<mir[k].size();i++) for(size_t j=0;j<mir[k].size();j++) even=even && std::abs(r.first(blk[k][i],blk[k][j])-r.first(mir[k][i],mir[k][j]))<1e-9 && std::abs(r.second(blk[k][i],blk[k][j])-r.second(mir[k][i],mir[k][j]))<1e-9;
      emit("{\"e\":\"nel\",\"restricted\":"+b_(restr)+",\"occ\":"+arrs(oc)+",\"na\":"+N(std::llround(1e6*(r.first*S).trace()))+",\"nb\":"+N(std::llround(1e6*(r.second*S).trace()))+",\"even\":"+b_(even)+"}");
    } else if(a[0]=="eig") { std::vector<Ix> bs; for(size_t k=0;k<nb;k++) { if(blk[k].size() || u%3==0) bs.push_back(blk[k]); if(mir[k].size()) bs.push_back(mir[k]); }
      Matrix S=Matrix::Zero(n,n),F=S,X=S; std::vector<std::string> es; int off=0; bool chol=t%2; for(auto & ix: bs) { int s=ix.size(); Matrix C=rinv(g,s),Y= s? Matrix(C.inverse()) : C; Vector e(s); for(int i=0;i<s;i++) e(i)=g.upto(12); es.push_back(vecs(e)); if(t%3==0) for(int i=0;i<s;i++) e(i)+=1e-9*(double) g.upto(20); if(!s) continue; Matrix Sb=Y.transpose()*Y, Fb=Y.transpose()*e.asDiagonal()*Y; Matrix Xb=scf::form_Sinvh<double>(Sb,chol); for(int i=0;i<s;i++) for(int j=0;j<s;j++) { S(ix[i],ix[j])=Sb(i,j); F(ix[i],ix[j])=Fb(i,j); X(ix[i],u%2? off+j : ix[j])=Xb(i,j); } off+=s; }
      // functions of very different size: the same problem in rescaled functions, judged after scaling back
      Vector D=Vector::Ones(n); if(u%4==1) for(int i=0;i<n;i++) D(i)=std::pow(10.0,(double) g.upto(13)-6); if(u%8==5) for(auto & ix: bs) { double q_=std::pow(10.0,(double) (9*(g.upto(3)-1))); for(auto i: ix) D(i)*=q_; } Matrix Fs=D.asDiagonal()*F*D.asDiagonal(), Xs=X; if(u%4==1) { Xs=D.cwiseInverse().asDiagonal()*X; }
      Vector E; Matrix C; std::string r="ok"; try { scf::eig_gsym_sub(E,C,Fs,Xs,bs,false); } catch(std::exception & x) { r="err"; } if(r=="ok" && C.rows()==n && u%4==1) C=Matrix(D.asDiagonal()*C); bool res=false,orth=false,asc=true; std::vector<std::string> got,sp; if(r=="ok" && C.rows()==n && C.cols()==n && E.size()==n) { res=mx(F*C-S*C*E.asDiagonal())<1e-7; orth=mx(C.transpose()*S*C-Matrix::Identity(n,n))<1e-8; for(int i=0;i<n;i++) { if(i) asc=asc && E(i-1)<=E(i); got.push_back(num(E(i))); sp.push_back(arr(sup(C.col(i)))); } }
      emit("{\"e\":\"eig\",\"r\":"+q(r)+",\"blk\":"+arrr(bs)+",\"es\":"+arrs(es)+",\"got\":"+arrs(got)+",\"sup\":"+arrs(sp)+",\"res\":"+b_(res)+",\"orth\":"+b_(orth)+",\"asc\":"+b_(asc)+"}");
    } else if(a[0]=="sinv") { // orthogonalisers of real bases, block by block
      int st=t%5; bool chol=u%2; int fam=std::vector<int>{3,4,5,8}[g.upto(4)]; auto p=std::shared_ptr<const polynomial_basis::PolynomialBasis>(polynomial_basis::get_basis(fam,3)); Vector bv(3); bv<<0,0.5+g.uni(),2+g.uni(); int L[4][4]={{0,1,1,1},{2,1,0,1},{0,0,0,0},{3,1,2,2}},M[4][4]={{0,0,1,-1},{0,-1,0,1},{0,0,0,0},{1,1,-1,1}}; int ty=(t/5)%4, nc= ty==2? 1 : 4; Eigen::VectorXi l(nc),m(nc); for(int i=0;i<nc;i++) { l(i)=L[ty][i]; m(i)=M[ty][i]; }
      std::string r="ok"; Matrix S,X; std::vector<Ix> bs; std::string what;
      try { if(st<=2) { atomic::basis::TwoDBasis x(2,modelpotential::POINT_NUCLEUS,0.0,p,false,5*p->get_nprim()+2,bv,l,m,0,0,0.0); S=x.overlap(); bs=x.get_sym_idx(st); X=x.Sinvh(chol,st); what="at"+N(st); } else { int sy=(u/2)%4; diatomic::basis::TwoDBasis x(1,1,0.7,p,5*p->get_nprim()+2,bv,l,m); S=x.overlap(); bs=x.get_sym_idx(sy); X=x.Sinvh(chol,sy); what="di"+N(sy); } } catch(std::exception & e) { r="err"; fprintf(stderr,"%s\n",e.what()); }
      sinv_event(what,S,X,bs,r);
    }
  });
}
