// Replays operation sequences on the real Checkpoint class and records outcome, open state and leaked HDF5 objects.
#include "vp.h"
#include "general/checkpoint.h"
#include "PolynomialBasis.h"
using namespace vp;
typedef _Float128 q128;
static uint64_t seed=1;
static const std::vector<std::string> KINDS={"dmat","lmat","qmat","dvec","lvec","qvec","imat","dstd","lstd","qstd","hstd","dsc","lsc","qsc","int","hsz","bool","str"};
// ---- token -> value. Same token must mean the same value in every precision that can hold it.
static q128 scalar(Rng & r, int tok) {
  // random double with a wide exponent
  double m=(r.uni()-0.5)*4.0; int e=r.upto(80)-40;
  q128 x=(q128) std::ldexp(m,e);
  if(tok/10>=1) { // needs long double: add a bit at 2^-60 relative
    long double l=(long double) std::ldexp(m,e); l+=std::ldexp((long double)(1+r.upto(3)), std::ilogb(l)-62); x=(q128) l;
    if((q128)(double) x==x) { l=(long double) x; l+=std::ldexp(1.0L, std::ilogb(l)-60); x=(q128) l; }
  }
  if(tok/10>=2) { // needs binary128
    int ex=std::ilogb((long double) x); x=x+(q128) std::ldexp(1.0L,ex-90)*(q128)(1+r.upto(5));
  }
  return x;
}
static void dims2(int tok, int & nr, int & nc) {
  Rng r(seed*1000003+tok*7+11);
  int a=2+r.upto(4), b=a+1+r.upto(4);
  switch(tok) {
    case 1: case 11: case 21: case 8: nr=a; nc=b; break;
    case 2: nr=b; nc=a; break;
    case 3: case 13: case 23: nr=b; nc=1; break;
    case 4: nr=1; nc=1; break;
    case 5: nr=0; nc=0; break;
    case 6: nr=1; nc=b; break;
    case 7: nr=0; nc=1; break;
    default: nr=nc=0;
  }
}
template <class T> T special(int i) {
  switch(i%6) { case 0: return -T(0); case 1: return std::numeric_limits<T>::infinity(); case 2: return -std::numeric_limits<T>::infinity();
    case 3: return std::numeric_limits<T>::quiet_NaN(); case 4: return std::numeric_limits<T>::denorm_min(); default: return std::numeric_limits<T>::max(); }
}
static std::vector<q128> flat(int fam, int tok, size_t n) {
  Rng r(seed*7777777+fam*131+tok*17+5); std::vector<q128> v(n); for(auto & x: v) x=scalar(r,tok); return v;
}
template <class T> std::vector<T> flatT(int fam, int tok, size_t n) {
  auto f=flat(fam,tok,n); std::vector<T> v(n);
  for(size_t i=0;i<n;i++) v[i]= (tok%10==8 || tok%10==9) ? special<T>((int) i+tok) : (T) f[i];
  return v;
}
template <class T> helfem::Mat<T> matval(int tok) {
  int nr,nc; dims2(tok,nr,nc); auto f=flatT<T>(2,tok,nr*nc); helfem::Mat<T> m(nr,nc);
  for(int i=0;i<nr*nc;i++) m.data()[i]=f[i]; return m;
}
template <class T> helfem::Vec<T> vecval(int tok) { helfem::Mat<T> m=matval<T>(tok); return m.col(0); }
static size_t len1(int tok) { Rng r(seed*31+tok%10+77); return tok%10==2?1: tok%10==3?0 : tok==8? 6 : 2+r.upto(6); }
template <class T> std::vector<T> stdval(int tok) { return flatT<T>(1,tok,len1(tok)); }
template <class T> T scval(int tok) { return flatT<T>(0,tok,1)[0]; }
static Eigen::MatrixXi imatval(int tok) {
  Rng r(seed*99991+tok*13); int a=2+r.upto(4), b=a+1+r.upto(4); int nr,nc;
  switch(tok) { case 1: nr=a;nc=b;break; case 2: nr=b;nc=1;break; case 3: nr=1;nc=b;break; case 4: nr=0;nc=0;break; default: nr=b;nc=a; }
  Eigen::MatrixXi m(nr,nc); for(int i=0;i<nr*nc;i++) m.data()[i]=(int)(uint32_t) r.next(); return m;
}
static std::vector<hsize_t> hstdval(int tok) {
  Rng r(seed*5003+tok*3); size_t n= tok==1? 2+r.upto(6) : tok==2?1:0; std::vector<hsize_t> v(n); for(auto & x: v) x=r.next()>>1; return v;
}
static int intval(int tok) { Rng r(seed*17+1); return tok==1?0: tok==2? -1-(int)r.upto(100000000): 1+r.upto(2000000000); }
static hsize_t hszval(int tok) { Rng r(seed*17+9); return tok==4 ? (hsize_t)(r.next()>>1)|(1ull<<40) : (hsize_t) intval(tok); }
static bool boolval(int tok) { return tok==2; }
static std::string strval(int tok) {
  Rng r(seed*41+tok); if(tok==2) return ""; if(tok==1) return "abc"+std::to_string(r.upto(1000));
  if(tok==3) { std::string s="multi line\n\t text with \"quotes\" \xc3\xa4\xc3\xb6 "; int n=50+r.upto(300); for(int i=0;i<n;i++) s+=(char)(33+r.upto(90)); return s; }
  std::string s; s.push_back((char)('a'+r.upto(26))); return s;
}
template <class T> bool eqT(const T & a, const T & b, bool bits) {
  if(bits) { size_t n=sizeof(T); if(std::is_same<T,long double>::value) n=10; return memcmp(&a,&b,n)==0; }
  return a==b || (a!=a && b!=b);
}
template <class T> int findmat(const helfem::Mat<T> & m, bool vec) {
  for(int tok: {1,2,3,4,5,6,7,8,11,13,21,23}) {
    if(tok/10>=1 && std::is_same<T,double>::value) continue;
    if(tok/10>=2 && std::is_same<T,long double>::value) continue;
    helfem::Mat<T> w=matval<T>(tok);
    if(w.rows()!=m.rows() || w.cols()!=m.cols()) continue;
    bool ok=true; for(Eigen::Index i=0;i<w.size()&&ok;i++) ok=eqT<T>(w.data()[i],m.data()[i],true);
    if(ok) return tok;
  }
  return -1;
}
template <class T> int findstd(const std::vector<T> & v) {
  for(int tok: {1,2,3,8,11,21}) {
    if(tok/10>=1 && std::is_same<T,double>::value) continue;
    if(tok/10>=2 && std::is_same<T,long double>::value) continue;
    auto w=stdval<T>(tok); if(w.size()!=v.size()) continue; bool ok=true; for(size_t i=0;i<w.size()&&ok;i++) ok=eqT<T>(w[i],v[i],true); if(ok) return tok;
  }
  return -1;
}
template <class T> int findsc(T v) {
  for(int tok: {1,2,3,8,9,11,21}) { if(tok/10>=1 && std::is_same<T,double>::value) continue; if(tok/10>=2 && std::is_same<T,long double>::value) continue;
    T w=scval<T>(tok); if(eqT<T>(w,v,true)) return tok; }
  return -1;
}
// ---- bases
using ABas=helfem::atomic::basis::TwoDBasis; using DBas=helfem::diatomic::basis::TwoDBasis;
static std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis> poly(int id,int n) { return std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(id,n)); }
static helfem::Vector bv(std::initializer_list<double> l) { helfem::Vector v(l.size()); int i=0; for(double x: l) v(i++)=x; return v; }
static Eigen::VectorXi iv(std::initializer_list<int> l) { Eigen::VectorXi v(l.size()); int i=0; for(int x: l) v(i++)=x; return v; }
static ABas abas(int t) { double e=0.125*(double)(1+seed%7);
  return t==1 ? ABas(2+(int)(seed%3),(helfem::modelpotential::nuclear_model_t)1,0.5+e,poly(4,5),true,25,bv({0,1+e,2.5,6}),iv({0,1,1}),iv({0,0,1}),3,1,1.5)
    : ABas(7,(helfem::modelpotential::nuclear_model_t)0,0.0,poly(5,3),false,15,bv({0,0.7+e,3}),iv({0,1,2}),iv({0,-1,0}),0,0,0.0); }
static DBas dbas(int t) { double e=0.0625*(double)(1+seed%5);
  return t==1 ? DBas(1+(int)(seed%4),3,0.7+e,poly(4,4),20,bv({0,0.5+e,1.7,2.2}),iv({0,1,1}),iv({0,0,1}))
    : DBas(5,2,1.25,poly(5,3),16,bv({0,1,2.5+e}),iv({0,1,2,2}),iv({0,0,-1,1})); }
static bool same(const ABas & a, const ABas & b) {
  return a.get_Z()==b.get_Z() && a.get_Zl()==b.get_Zl() && a.get_Zr()==b.get_Zr() && a.get_Rhalf()==b.get_Rhalf() && a.get_nuclear_model()==b.get_nuclear_model() && a.get_nuclear_size()==b.get_nuclear_size()
    && a.get_lval().size()==b.get_lval().size() && a.get_lval()==b.get_lval() && a.get_mval().size()==b.get_mval().size() && a.get_mval()==b.get_mval() && a.get_nquad()==b.get_nquad() && a.get_poly_id()==b.get_poly_id() && a.get_poly_nnodes()==b.get_poly_nnodes()
    && a.get_zeroder()==b.get_zeroder() && a.get_bval().size()==b.get_bval().size() && a.get_bval()==b.get_bval() && a.Nbf()==b.Nbf(); }
static bool same(const DBas & a, const DBas & b) {
  return a.get_Z1()==b.get_Z1() && a.get_Z2()==b.get_Z2() && a.get_Rhalf()==b.get_Rhalf() && a.get_lval().size()==b.get_lval().size() && a.get_lval()==b.get_lval() && a.get_mval().size()==b.get_mval().size() && a.get_mval()==b.get_mval()
    && a.get_nquad()==b.get_nquad() && a.get_poly_id()==b.get_poly_id() && a.get_poly_nnodes()==b.get_poly_nnodes() && a.get_bval().size()==b.get_bval().size() && a.get_bval()==b.get_bval() && a.Nbf()==b.Nbf(); }
// ----
static void do_write(Checkpoint & c, const std::string & n, const std::string & k, int t) {
  if(k=="dmat") c.write(n,matval<double>(t)); else if(k=="lmat") c.write(n,matval<long double>(t)); else if(k=="qmat") c.write(n,matval<q128>(t));
  else if(k=="dvec") c.write(n,vecval<double>(t)); else if(k=="lvec") c.write(n,vecval<long double>(t)); else if(k=="qvec") c.write(n,vecval<q128>(t));
  else if(k=="imat") c.write(n,imatval(t));
  else if(k=="dstd") c.write(n,stdval<double>(t)); else if(k=="lstd") c.write(n,stdval<long double>(t)); else if(k=="qstd") c.write(n,stdval<q128>(t));
  else if(k=="hstd") c.write(n,hstdval(t));
  else if(k=="dsc") c.write(n,scval<double>(t)); else if(k=="lsc") c.write(n,scval<long double>(t)); else if(k=="qsc") c.write(n,scval<q128>(t));
  else if(k=="int") c.write(n,intval(t)); else if(k=="hsz") c.write(n,hszval(t)); else if(k=="bool") c.write(n,boolval(t)); else if(k=="str") c.write(n,strval(t));
}
static int do_read(Checkpoint & c, const std::string & n, const std::string & k) {
  // outputs pre-filled with junk of a different shape
  if(k=="dmat") { helfem::Mat<double> m=helfem::Mat<double>::Constant(3,3,7); c.read(n,m); return findmat<double>(m,false); }
  if(k=="lmat") { helfem::Mat<long double> m; c.read(n,m); return findmat<long double>(m,false); }
  if(k=="qmat") { helfem::Mat<q128> m; c.read(n,m); return findmat<q128>(m,false); }
  if(k=="dvec") { helfem::Vec<double> m=helfem::Vec<double>::Constant(3,7); c.read(n,m); return findmat<double>(m,true); }
  if(k=="lvec") { helfem::Vec<long double> m; c.read(n,m); return findmat<long double>(m,true); }
  if(k=="qvec") { helfem::Vec<q128> m; c.read(n,m); return findmat<q128>(m,true); }
  if(k=="imat") { Eigen::MatrixXi m=Eigen::MatrixXi::Constant(2,2,5); c.read(n,m); for(int t=1;t<=5;t++) { auto w=imatval(t); if(w.rows()==m.rows()&&w.cols()==m.cols()&&w==m) return t; } return -1; }
  if(k=="dstd") { std::vector<double> v(3,1.0); c.read(n,v); return findstd<double>(v); }
  if(k=="lstd") { std::vector<long double> v; c.read(n,v); return findstd<long double>(v); }
  if(k=="qstd") { std::vector<q128> v; c.read(n,v); return findstd<q128>(v); }
  if(k=="hstd") { std::vector<hsize_t> v(4,9); c.read(n,v); for(int t=1;t<=3;t++) if(hstdval(t)==v) return t; return -1; }
  if(k=="dsc") { double v=3; c.read(n,v); return findsc<double>(v); }
  if(k=="lsc") { long double v=3; c.read(n,v); return findsc<long double>(v); }
  if(k=="qsc") { q128 v=3; c.read(n,v); return findsc<q128>(v); }
  if(k=="int") { int v=-12345; c.read(n,v); for(int t=1;t<=3;t++) if(intval(t)==v) return t; return -1; }
  if(k=="hsz") { hsize_t v=54321; c.read(n,v); for(int t: {1,3,4}) if(hszval(t)==v) return t; return -1; }
  if(k=="bool") { bool a=true; c.read(n,a); return a?2:1; }
  if(k=="str") { std::string s="junk"; c.read(n,s); for(int t=1;t<=4;t++) if(strval(t)==s) return t; return -1; }
  throw std::logic_error("harness kind");
}
struct Hnd { std::unique_ptr<Checkpoint> c; std::string f; };
static std::map<int,Hnd> H; static std::map<std::string,std::map<std::string,std::string>> lastkind;
static std::string fname(const std::string & f) { return "f_"+f+".chk"; }
static void hush() { H5Eset_auto2(H5E_DEFAULT,NULL,NULL); }
static long nobj() { return (long) H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_FILE|H5F_OBJ_DATASET|H5F_OBJ_GROUP|H5F_OBJ_ATTR); }
static std::string name(const std::string & n) { return n=="n2" ? "a longer entry name, with spaces" : n; }
int main() {
  init(); hush();
  auto reset=[&]() {
    for(auto & h: H) if(h.second.c) { try { h.second.c.reset(); } catch(...) {} }
    H.clear(); lastkind.clear();
    // Close anything leaked by the previous case so that cases are independent
    { ssize_t n=H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_ALL); if(n>0) { std::vector<hid_t> ids(n); H5Fget_obj_ids(H5F_OBJ_ALL,H5F_OBJ_ALL,n,ids.data()); for(auto i: ids) if(H5Iis_valid(i)) { switch(H5Iget_type(i)) { case H5I_DATASET: H5Dclose(i); break; case H5I_DATATYPE: break; case H5I_FILE: H5Fclose(i); break; default: break; } } } }
    for(auto f: {"A","B"}) unlink(fname(f).c_str());
    emit("{\"e\":\"begin\"}");
  };
  auto opjson=[&](const Args & a) { std::string s="{\"op\":"+q(a[0])+",\"h\":"+a[1];
    if(a[0]=="new") s+=",\"f\":"+q(a[2])+",\"w\":"+(a[3]=="1"?"true":"false")+",\"t\":"+(a[4]=="1"?"true":"false");
    if(a[0]=="exist"||a[0]=="remove"||a[0]=="read"||a[0]=="write") s+=",\"n\":"+q(a[2]);
    if(a[0]=="read"||a[0]=="write") s+=",\"k\":"+q(a[3]);
    if(a[0]=="write") s+=",\"t\":"+a[4];
    if(a[0]=="wbas"||a[0]=="rbas") s+=",\"k\":"+q(a[2]);
    if(a[0]=="wbas") s+=",\"t\":"+a[3];
    return s+"}"; };
  std::function<void(const Args &, const std::string &)> handle=[&](const Args & a, const std::string & line) {
    if(a[0]=="seed") { seed=std::stoull(a[1]); return; }
    if(a[0]=="finish") {
      for(int h: {1,2,3}) if(H.count(h) && H[h].c) { handle({"destroy",std::to_string(h)},""); }
      return;
    }
    if(a[0]=="dump") {
      std::string f=a[1]; bool ex=file_exists(fname(f)); std::vector<std::string> vis;
      if(ex) { try { Checkpoint c(fname(f),false);
        for(auto n: {"n1","n2","n3"}) {
          bool e=c.exist(name(n)); vis.push_back("{\"n\":"+q(n)+",\"k\":\"-\",\"r\":"+(e?"1":"0")+",\"v\":0}");
          if(lastkind[f].count(n)) { std::string k=lastkind[f][n]; int r=1,v=0; try { v=do_read(c,name(n),k); } catch(std::exception &) { r=0; } vis.push_back("{\"n\":"+q(n)+",\"k\":"+q(k)+",\"r\":"+std::to_string(r)+",\"v\":"+std::to_string(v)+"}"); }
        } } catch(std::exception &) { ex=false; } }
      emit("{\"e\":\"dump\",\"f\":"+q(f)+",\"ex\":"+b(ex)+",\"vis\":"+arrs(vis)+"}");
      return;
    }
    int h=std::stoi(a[1]); std::string r="ok"; int v=0;
    try {
      if(a[0]=="new") { H[h].f=a[2]; H[h].c.reset(); H[h].c=std::make_unique<Checkpoint>(fname(a[2]),a[3]=="1",a[4]=="1"); }
      else if(a[0]=="destroy") { H[h].c.reset(); }
      else {
        Checkpoint & c=*H[h].c; hush();
        if(a[0]=="open") c.open(); else if(a[0]=="close") c.close(); else if(a[0]=="flush") c.flush();
        else if(a[0]=="exist") v=c.exist(name(a[2]))?1:0;
        else if(a[0]=="remove") c.remove(name(a[2]));
        else if(a[0]=="write") { do_write(c,name(a[2]),a[3],std::stoi(a[4])); lastkind[H[h].f][a[2]]=a[3]; }
        else if(a[0]=="read") v=do_read(c,name(a[2]),a[3]);
        else if(a[0]=="wbas") { if(a[2]=="abas") c.write(abas(std::stoi(a[3]))); else c.write(dbas(std::stoi(a[3]))); }
        else if(a[0]=="rbas") { v=-1; if(a[2]=="abas") { ABas x; c.read(x); for(int t: {1,2}) if(same(x,abas(t))) v=t; } else { DBas x; c.read(x); for(int t: {1,2}) if(same(x,dbas(t))) v=t; } }
        else if(a[0]=="strip") c.remove("bval");
      }
    } catch(std::exception & e) { r="err"; }
    bool op = H.count(h) && H[h].c && H[h].c->is_open();
    emit("{\"e\":\"op\",\"o\":"+opjson(a)+",\"r\":"+q(r)+",\"v\":"+std::to_string(v)+",\"open\":"+b(op)+",\"nobj\":"+std::to_string(nobj())+"}");
  };
  return loop(reset,handle);
}
