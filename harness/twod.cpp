// Two-dimensional bases: symmetry blocks, index maps, channel lists, operator block structure.
#include "vp.h"
#include "atomic/TwoDBasis.h"
#include "atomic/basis.h"
#include "diatomic/basis.h"
#include "PolynomialBasis.h"
using namespace vp;
using ABas=helfem::atomic::basis::TwoDBasis; using DBas=helfem::diatomic::basis::TwoDBasis; typedef std::vector<Eigen::Index> Ix; using helfem::Matrix; using helfem::Vector;
static std::unique_ptr<ABas> at; static std::unique_ptr<DBas> di; static std::vector<int> lv,mv; static uint64_t seed=1;
static Eigen::VectorXi toi(const std::vector<int> & v) { Eigen::VectorXi r(v.size()); for(size_t i=0;i<v.size();i++) r(i)=v[i]; return r; }
static std::string arrr(const std::vector<Ix> & v) { std::vector<std::string> s; for(auto & x: v) s.push_back(arr(x)); return arrs(s); }
static std::string N(long x) { return std::to_string(x); }
static std::vector<int> vec(const Eigen::VectorXi & v) { return std::vector<int>(v.data(),v.data()+v.size()); }
int main() {
  init();
  return loop([&]{ at.reset(); di.reset(); emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    if(a[0]=="seed") { seed=std::stoull(a[1]); return; }
    if(a[0]=="chan") {
      std::vector<int> v; for(size_t i=2;i<a.size();i++) v.push_back(std::stoi(a[i])); Eigen::VectorXi L,M_;
      if(a[1]=="ang") helfem::atomic::basis::angular_basis(v[0],v[1],L,M_); else helfem::diatomic::basis::lm_to_l_m(toi(v),L,M_);
      emit("{\"e\":\"chan\",\"kind\":"+q(a[1])+",\"a\":"+arr(v)+",\"l\":"+arr(vec(L))+",\"m\":"+arr(vec(M_))+"}"); return;
    }
    if(a[0]=="basis") { // basis kind fam nn zd nel z z1 z2 l m ...
      int fam=std::stoi(a[2]),nn=std::stoi(a[3]),zd=std::stoi(a[4]),nel=std::stoi(a[5]); int z[3]; for(int i=0;i<3;i++) z[i]=std::stoi(a[6+i]); lv.clear(); mv.clear(); for(size_t i=9;i+1<a.size();i+=2) { lv.push_back(std::stoi(a[i])); mv.push_back(std::stoi(a[i+1])); }
      std::string r="ok"; Rng g(seed*31+nel); Vector bv(nel+1); bv(0)=0; for(int i=1;i<=nel;i++) bv(i)=bv(i-1)+0.4+g.uni();
      auto p=std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(fam,nn)); int nq=5*p->get_nprim()+2;
      try { if(a[1]=="at") at=std::make_unique<ABas>(z[0],helfem::modelpotential::POINT_NUCLEUS,0.0,p,(bool) zd,nq,bv,toi(lv),toi(mv),z[1],z[2],bv(1)); else di=std::make_unique<DBas>(z[0],z[1],0.7+g.uni(),p,nq,bv,toi(lv),toi(mv)); } catch(std::exception & e) { r="err"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"basis\",\"k\":"+q(a[1])+",\"fam\":"+N(fam)+",\"nn\":"+N(nn)+",\"zd\":"+b(zd)+",\"nel\":"+N(nel)+",\"l\":"+arr(lv)+",\"m\":"+arr(mv)+",\"chg\":["+N(z[0])+","+N(z[1])+","+N(z[2])+"],\"r\":"+q(r)+"}");
      if(at) emit("{\"e\":\"count\",\"nbf\":"+N(at->Nbf())+",\"ndummy\":"+N(at->Ndummy())+",\"nrad\":"+N(at->Nrad())+",\"nang\":"+N(at->Nang())+"}");
      if(di) emit("{\"e\":\"count\",\"nbf\":"+N(di->Nbf())+",\"ndummy\":"+N(di->Ndummy())+",\"nrad\":"+N(di->Nrad())+",\"nang\":"+N(di->Nang())+"}");
      return;
    }
    if(!at && !di) return;
    if(a[0]=="sym") {
      int s=std::stoi(a[1]); std::string r="ok",rl="ok"; std::vector<Ix> idx,mir; std::vector<std::string> lab,ql;
      try { idx= at? at->get_sym_idx(s) : di->get_sym_idx(s); if(di) mir=di->get_sym_mirror_idx(s); } catch(std::exception &) { r="err"; }
      try { lab= at? at->get_sym_labels(s) : di->get_sym_labels(s); } catch(std::exception &) { rl="err"; }
      for(auto & x: lab) ql.push_back(q(x));
      emit("{\"e\":\"sym\",\"s\":"+N(s)+",\"r\":"+q(r)+",\"rl\":"+q(rl)+",\"idx\":"+arrr(idx)+",\"lab\":"+arrs(ql)+",\"mir\":"+arrr(mir)+"}");
    } else if(a[0]=="midx") {
      int m=std::stoi(a[1]),l=std::stoi(a[2]); Ix x,y; if(at) { x=at->m_indices(m); y=at->lm_indices(l,m); } else { x=di->m_indices(m); y=di->m_indices(m,(bool)(l%2)); }
      emit("{\"e\":\"midx\",\"mm\":"+N(m)+",\"ll\":"+N(l)+",\"m\":"+arr(x)+",\"lm\":"+arr(y)+"}");
    } else if(a[0]=="idx") {
      int m=std::stoi(a[1]); size_t ne= at? at->get_rad_Nel() : di->get_rad_Nel(); std::vector<Ix> bf,bd,bm; Ix pure; if(di) pure=di->pure_indices();
      for(size_t e=0;e<ne;e++) { bf.push_back(at? at->bf_list(e) : di->bf_list(e)); if(di) { bd.push_back(di->bf_list_dummy(e)); bm.push_back(di->bf_list_dummy(e,m)); } }
      emit("{\"e\":\"idx\",\"mm\":"+N(m)+",\"pure\":"+arr(pure)+",\"bf\":"+arrr(bf)+",\"bd\":"+arrr(bd)+",\"bm\":"+arrr(bm)+"}");
    } else if(a[0]=="pad") {
      if(!di) return; int s=std::stoi(a[1]); int n=di->Nbf(), d=di->Ndummy(); Matrix P(n,n),D(d,d); for(int i=0;i<n;i++) for(int j=0;j<n;j++) P(i,j)=((3*i+5*j+s)%7)+1; for(int i=0;i<d;i++) for(int j=0;j<d;j++) D(i,j)=((2*i+3*j+s)%9)+1;
      Matrix E=di->expand_boundaries(P), R=di->remove_boundaries(D); std::vector<int> e,r; for(int i=0;i<E.rows();i++) for(int j=0;j<E.cols();j++) e.push_back((int) E(i,j)); for(int i=0;i<R.rows();i++) for(int j=0;j<R.cols();j++) r.push_back((int) R(i,j));
      Matrix B=di->remove_boundaries(E); bool rt=B.rows()==n && B.cols()==n && (n==0 || (B-P).cwiseAbs().maxCoeff<Eigen::PropagateNaN>()==0);
      std::vector<std::string> bad; int sz[5][2]={{n+1,n+1},{n-1,n-1},{n,n+1},{n+1,n},{n+2,n-1}}; for(auto & x: sz) { if(x[0]<1||x[1]<1) continue; try { di->expand_boundaries(Matrix::Ones(x[0],x[1])); bad.push_back(q("ok")); } catch(std::exception &) { bad.push_back(q("err")); } }
      int sd[5][2]={{d+1,d+1},{d-1,d-1},{d,d+1},{d+1,d},{d+2,d-1}}; for(auto & x: sd) { if(x[0]<1||x[1]<1) continue; try { di->remove_boundaries(Matrix::Ones(x[0],x[1])); bad.push_back(q("ok")); } catch(std::exception &) { bad.push_back(q("err")); } }
      emit("{\"e\":\"pad\",\"s\":"+N(s)+",\"ex\":"+arr(e)+",\"rm\":"+arr(r)+",\"rt\":"+b(rt)+",\"bad\":"+arrs(bad)+"}");
    } else if(a[0]=="d2r") {
      if(!di) return; int s=std::stoi(a[1]); Rng g(seed*97+s); Ix in; int nd=di->Ndummy(); int n=g.upto(9); for(int i=0;i<n;i++) in.push_back(g.upto(nd)); if(s%5==0) in.push_back(nd+g.upto(3)); Ix out; std::string r="ok"; try { out=di->dummy_idx_to_real_idx(in); } catch(std::exception &) { r="err"; }
      emit("{\"e\":\"d2r\",\"in\":"+arr(in)+",\"r\":"+q(r)+",\"out\":"+arr(out)+"}");
    } else if(a[0]=="op") {
      std::string op=a[1],r="ok"; double f=std::stod(a[2]); Matrix m; std::vector<std::string> nz; bool sym=true,mir=true;
      try {
        auto get=[&](auto & x) { if(op=="overlap") m=x.overlap(); else if(op=="kinetic") m=x.kinetic(); else if(op=="nuclear") m=x.nuclear(); else if(op=="dipole") m=x.dipole_z(); else if(op=="quadrupole") m=x.quadrupole_zz(); else m=x.Bz_field(f); };
        if(at) { if(op=="conf") m=at->confinement(2,1.0,1,0.5,0.0); else get(*at); } else get(*di);
        size_t nr= at? at->Nrad() : di->Nrad(); std::vector<long> off(lv.size()+1,0),sz(lv.size()); for(size_t i=0;i<lv.size();i++) { sz[i]= (di && mv[i]!=0)? nr-1 : nr; off[i+1]=off[i]+sz[i]; }
        if(m.rows()==off[lv.size()] && m.cols()==m.rows()) {
          double sc=m.size()? m.cwiseAbs().maxCoeff<Eigen::PropagateNaN>() : 0; if(!(sc<1e300)) sc=std::nan("");
          sym= m.size()==0 || (m-m.transpose()).cwiseAbs().maxCoeff<Eigen::PropagateNaN>()<=1e-9*sc;
          auto blk=[&](size_t i, size_t j) { return Matrix(m.block(off[i],off[j],sz[i],sz[j])); };
          for(size_t i=0;i<lv.size();i++) for(size_t j=0;j<lv.size();j++) {
            Matrix x=blk(i,j); double v=x.size()? x.cwiseAbs().maxCoeff<Eigen::PropagateNaN>() : 0; if(!(v<=1e-10*sc)) nz.push_back("["+N(i)+","+N(j)+"]");
            if(op!="Bz") for(size_t i2=0;i2<lv.size();i2++) for(size_t j2=0;j2<lv.size();j2++) if(lv[i2]==lv[i]&&mv[i2]==-mv[i]&&lv[j2]==lv[j]&&mv[j2]==-mv[j]) { Matrix y=blk(i2,j2); mir=mir && (x.size()==0 || (x-y).cwiseAbs().maxCoeff<Eigen::PropagateNaN>()<=1e-9*sc); } }
        }
      } catch(std::exception & e) { r="err"; fprintf(stderr,"EXC %s\n",e.what()); }
      emit("{\"e\":\"op\",\"op\":"+q(op)+",\"f\":"+N(f!=0)+",\"r\":"+q(r)+",\"sym\":"+b(sym)+",\"mir\":"+b(mir)+",\"n\":["+N(m.rows())+","+N(m.cols())+"],\"nz\":"+arrs(nz)+"}");
    }
  });
}
