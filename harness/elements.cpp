// Element lookups and tabulated atomic models.
#include "vp.h"
#include "elements.h"
#include "gsz.h"
#include "sap.h"
#include "atomdb.h"
#include "model_potential.h"
using namespace vp;
using namespace helfem;
template <class G> static std::string guard(G g) { try { g(); return "\"ok\""; } catch(std::runtime_error &) { return "\"runtime_error\""; } catch(std::logic_error &) { return "\"logic_error\""; } catch(std::exception &) { return "\"exception\""; } }
static std::string unhex(const std::string & h) { std::string r; if(h=="-") return r; for(size_t i=0;i+1<h.size();i+=2) r+=(char) std::stoi(h.substr(i,2),nullptr,16); return r; }
static std::vector<double> radii() { std::vector<double> r{0.0}; for(double x=1e-8;x<300;x*=1.25) r.push_back(x); return r; }
static long long u6(double x) { return std::isfinite(x)? std::llround(1e6*std::max(-2000.0,std::min(2000.0,x))) : -1999999999; }
static bool same(double a, double b) { return std::abs(a-b)<=1e-11*(1+std::abs(a)+std::abs(b)); }
int main() {
  init();
  return loop([&]{ emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    std::ostringstream o;
    if(a[0]=="z") { std::string s=unhex(a[1]); int z=-1; auto r=guard([&]{ z=get_Z(s); }); o<<"{\"e\":\"z\",\"s\":"<<q(s)<<",\"r\":"<<r<<",\"z\":"<<z<<"}"; emit(o.str()); return; }
    if(a[0]=="sym") { int z=std::stoi(a[1]); int n=sizeof(element_symbols)/sizeof(element_symbols[0]), m=sizeof(element_names)/sizeof(element_names[0]);
      o<<"{\"e\":\"sym\",\"z\":"<<z<<",\"n\":"<<(n==m?n:-1)<<",\"s\":"<<q(z>=0 && z<n? element_symbols[z] : "")<<"}"; emit(o.str()); return; }
    int z=std::stoi(a[1]);
    if(a[0]=="orbs") { int z2=std::stoi(a[2]); std::vector<int> v(4,-7); num_orbs(z,z2,v[0],v[1],v[2],v[3]); o<<"{\"e\":\"orbs\",\"z1\":"<<z<<",\"z2\":"<<z2<<",\"o\":"<<arr(v)<<"}"; emit(o.str()); return; }
    auto R=radii();
    if(a[0]=="gsz") { double d=0,H=0; auto par=guard([&]{ GSZ::GSZ_parameters(z,d,H); }); bool potok=true; std::vector<long long> v; helfem::Vector rr(R.size()), c; for(size_t i=0;i<R.size();i++) rr(i)=R[i];
      auto curve=guard([&]{ c=GSZ::Z_GSZ(rr,z); for(int i=0;i<c.size();i++) v.push_back(u6(c(i))); });
      auto pot=guard([&]{ modelpotential::GSZAtom A(z); if(c.size()) for(size_t i=1;i<R.size();i++) if(!same(A.V(R[i]),-c(i)/R[i]) || !same(c(i),GSZ::Z_GSZ(R[i],z,d,H))) potok=false; });
      o<<"{\"e\":\"gsz\",\"z\":"<<z<<",\"par\":"<<par<<",\"pot\":"<<pot<<",\"curve\":"<<curve<<",\"d\":"<<std::llround(1000*d)<<",\"hok\":"<<b(z<1 || same(H,d*std::pow(z-1,0.4)))<<",\"potok\":"<<b(potok)<<",\"v\":"<<arr(v)<<"}"; }
    else if(a[0]=="sap") { bool potok=true, cont=true; std::vector<long long> v; modelpotential::SAPAtom A(z); for(size_t i=0;i<R.size();i++) { double c=sap_effective_charge(z,R[i]); v.push_back(u6(c)); if(i && !same(A.V(R[i]),-c/R[i])) potok=false; }
      for(double x=1e-4;x<45;x*=1.003) { double c0=sap_effective_charge(z,x*(1-1e-9)), c1=sap_effective_charge(z,x*(1+1e-9)); if(std::abs(c0-c1)>1e-6*(1+std::abs(z))) cont=false; }
      o<<"{\"e\":\"sap\",\"z\":"<<z<<",\"potok\":"<<b(potok)<<",\"cont\":"<<b(cont)<<",\"v\":"<<arr(v)<<"}"; }
    else if(a[0]=="adb") { int l=std::stoi(a[2]); int n=-1,nocc=-1,cr=-1,cc=-1; auto r1=guard([&]{ n=atomdb::norb(z,l); }), r2=guard([&]{ nocc=atomdb::occupations(z,l).size(); }), r3=guard([&]{ auto C=atomdb::coefficients(z,l); cr=C.rows(); cc=C.cols(); });
      o<<"{\"e\":\"adb\",\"z\":"<<z<<",\"l\":"<<l<<",\"maxz\":"<<atomdb::max_Z()<<",\"lmax\":"<<atomdb::lmax()<<",\"nbf\":"<<atomdb::Nbf()<<",\"norb\":"<<r1<<",\"occ\":"<<r2<<",\"coef\":"<<r3<<",\"n\":"<<n<<",\"nocc\":"<<nocc<<",\"crows\":"<<cr<<",\"ccols\":"<<cc<<"}"; emit(o.str()); o.str("");
      int ch=-99; auto r4=guard([&]{ atomdb::Atom A(z); ch=A.charge(); }); bool v0=true; auto r5=guard([&]{ modelpotential::SAPFEAtom A(z); if(z==0) v0= A.V(0.5)==0.0 && A.breakpoints(0,10).empty(); });
      o<<"{\"e\":\"adbatom\",\"z\":"<<z<<",\"maxz\":"<<atomdb::max_Z()<<",\"atom\":"<<r4<<",\"charge\":"<<ch<<",\"pot\":"<<r5<<",\"v0\":"<<b(v0)<<"}"; }
    emit(o.str());
  });
}
