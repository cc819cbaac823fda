// Reordering of two-electron integral blocks.
#include "vp.h"
#include <Matrix.h>
#include "utils.h"
using namespace vp;
template <class T> static std::string rows(const helfem::Mat<T> & m) { std::string r="["; for(int i=0;i<m.rows();i++) { if(i) r+=","; r+="["; for(int j=0;j<m.cols();j++) { if(j) r+=","; double v=(double) m(i,j); long long k=std::llround(v); r+= (v==(double) k)? std::to_string(k) : "\"frac\""; } r+="]"; } return r+"]"; }
template <class T> static void one(const Args & a) {
  auto I=[&](int k){ return std::atoi(a[k].c_str()); }; size_t n[4]; for(int k=0;k<4;k++) n[k]=(size_t) I(k+1);
  helfem::Mat<T> m(I(5),I(6)); Rng g((uint64_t) I(7)); for(int j=0;j<m.cols();j++) for(int i=0;i<m.rows();i++) m(i,j)=T(g.upto(2000001)-1000000);
  helfem::Mat<T> in=m,out,back; std::string r="ok"; bool thrice=true;
  try { out=helfem::utils::exchange_tei<T>(m,n[0],n[1],n[2],n[3]); } catch(std::logic_error &) { r="logic_error"; } catch(std::exception &) { r="error"; }
  if(r=="ok") { try { back=helfem::utils::exchange_tei<T>(out,n[1],n[2],n[0],n[3]); back=helfem::utils::exchange_tei<T>(back,n[2],n[0],n[1],n[3]); thrice= back.rows()==in.rows() && back.cols()==in.cols() && (back-in).cwiseAbs().sum()==T(0); } catch(std::exception &) { thrice=false; } }
  emit("{\"e\":\"reorder\",\"n\":["+a[1]+","+a[2]+","+a[3]+","+a[4]+"],\"rows\":"+a[5]+",\"cols\":"+a[6]+",\"r\":"+q(r)+",\"in\":"+rows<T>(in)+",\"out\":"+rows<T>(out)+",\"orows\":"+std::to_string(out.rows())+",\"ocols\":"+std::to_string(out.cols())+",\"thrice\":"+b(thrice)+",\"inputkept\":"+b(m==in)+"}");
}
int main() { init(); return loop([&]{ emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) { if(a[0]=="d") one<double>(a); else if(a[0]=="l") one<long double>(a); else one<_Float128>(a); }); }
