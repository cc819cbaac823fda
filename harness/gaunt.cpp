// Angular coupling tables in three precisions.
#include "vp.h"
#include "gaunt.h"
#include "wignernj.hpp"
using namespace vp; using namespace helfem::gaunt;
typedef _Float128 F;
static std::unique_ptr<GauntT<double>> D; static std::unique_ptr<GauntT<long double>> LD; static std::unique_ptr<GauntT<F>> Q;
static const long double PI4=12.566370614359172953850573533118L;
// run f on each table; report outcome, sign, squares and agreement of the precisions
template <class Fn> static std::string tri(Fn f, double scale) {
  int ok[3]={1,1,1}; double d=0; long double l=0; F x=0;
  auto g=[&](int k, auto h) { try { h(); } catch(std::logic_error &) { ok[k]=2; } catch(std::exception &) { ok[k]=3; } };
  g(0,[&]{ d=f(*D); }); g(1,[&]{ l=f(*LD); }); g(2,[&]{ x=f(*Q); });
  if(ok[0]!=ok[1] || ok[0]!=ok[2]) return "\"r\":\"mixed\"";
  if(ok[0]!=1) return std::string("\"r\":\"")+(ok[0]==2?"logic_error":"error")+"\"";
  bool al=std::fabs((double) (l-d))<1e-14, aq=std::fabs((double)((long double) x-l))<1e-17L*100;
  double v2=d*d*scale, v=d*std::sqrt(scale);
  int s= std::fabs(d)<1e-12 ? 0 : d>0 ? 1 : -1;
  if(!(v2<20)) return "\"r\":\"huge\"";
  return "\"r\":\"ok\",\"s\":"+std::to_string(s)+",\"v2\":"+std::to_string((long long) std::llround(v2*1e8))+",\"v4\":"+std::to_string((long long) std::llround(v*1e4))+",\"ld\":"+b(al)+",\"f128\":"+b(aq);
}
// large angular momenta: agreement with an evaluation that does not go through the table
template <class Fn> static std::string big(Fn f, long double want) {
  int ok=1; double d=0; try { d=f(*D); } catch(std::logic_error &) { ok=2; } catch(std::exception &) { ok=3; }
  if(ok!=1) return std::string("\"r\":\"")+(ok==2?"logic_error":"error")+"\"";
  return std::string("\"r\":\"ok\",\"z\":")+b(std::fabs(d)<1e-13)+",\"ok\":"+b(std::fabs((double)(d-want))<1e-10);
}
static long double cosn(int n, int lj, int li, int m) { m=std::abs(m); if(m>lj || m>li) return 0; std::vector<long double> v(li+n+3,0.0L); v[li]=1; auto A=[&](int l) { return l<=m ? 0.0L : sqrtl((long double)(l*l-m*m)/(4.0L*l*l-1)); };
  for(int k=0;k<n;k++) { std::vector<long double> w(v.size(),0.0L); for(int l=m;l<(int) v.size();l++) { if(l+1<(int) v.size()) w[l+1]+=A(l+1)*v[l]; if(l-1>=m) w[l-1]+=A(l)*v[l]; } v=w; }
  return lj<(int) v.size()? v[lj] : 0.0L; }
int main() {
  init();
  return loop([&]{ D.reset(); LD.reset(); Q.reset(); emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    auto I=[&](int k){ return std::atoi(a[k].c_str()); }; auto J=[&](const char * n, int k){ return std::string(",\"")+n+"\":"+std::to_string(I(k)); };
    if(a[0]=="table") { std::string r="ok"; try { D=std::make_unique<GauntT<double>>(I(1),I(2),I(3),I(4)); LD=std::make_unique<GauntT<long double>>(I(1),I(2),I(3),I(4)); Q=std::make_unique<GauntT<F>>(I(1),I(2),I(3),I(4)); } catch(std::exception &) { r="error"; }
      emit("{\"e\":\"table\""+J("L",1)+J("l",2)+J("lp",3)+J("cap",4)+",\"r\":"+q(r)+"}"); return; }
    if(a[0]=="gb") { int L=I(1),M=I(2),l=I(3),m=I(4),lp=I(5),mp=M-m; long double w= L<0||l<0||lp<0||std::abs(M)>L||std::abs(m)>l||std::abs(mp)>lp ? 0.0L : ((M&1)?-1.0L:1.0L)*(long double) wignernj_stub::gaunt(L,-M,l,m,lp,mp);
      emit("{\"e\":\"gb\""+J("L",1)+J("M",2)+J("l",3)+J("m",4)+J("lp",5)+","+big([&](auto & t){ return t.coeff(L,M,l,m,lp); },w)+"}"); }
    else if(a[0]=="cb") { const std::string & k=a[1]; int lj=I(2),mj=I(3),li=I(4),mi=I(5); auto c=[&](int n) { return mi!=mj? 0.0L : cosn(n,lj,li,mi); };
      long double w= k=="cos"? c(1) : k=="cos2"? c(2) : k=="cos3"? c(3) : k=="cos4"? c(4) : k=="cos5"? c(5) : k=="sin2"? c(0)-c(2) : c(2)-c(4);
      emit("{\"e\":\"cb\",\"k\":"+q(k)+J("lj",2)+J("mj",3)+J("li",4)+J("mi",5)+","+big([&](auto & t){ return k=="cos"? t.cosine_coupling(lj,mj,li,mi) : k=="cos2"? t.cosine2_coupling(lj,mj,li,mi) : k=="cos3"? t.cosine3_coupling(lj,mj,li,mi) : k=="cos4"? t.cosine4_coupling(lj,mj,li,mi)
        : k=="cos5"? t.cosine5_coupling(lj,mj,li,mi) : k=="sin2"? t.sine2_coupling(lj,mj,li,mi) : t.cosine2_sine2_coupling(lj,mj,li,mi); },w)+"}"); }
    else if(a[0]=="g") emit("{\"e\":\"g\""+J("L",1)+J("M",2)+J("l",3)+J("m",4)+J("lp",5)+","+tri([&](auto & t){ return t.coeff(I(1),I(2),I(3),I(4),I(5)); },PI4)+"}");
    else if(a[0]=="free") { int L=I(1),M=I(2),l=I(3),m=I(4),lp=I(5),mp=I(6);
      emit("{\"e\":\"free\""+J("L",1)+J("M",2)+J("l",3)+J("m",4)+J("lp",5)+J("mp",6)+","+tri([&](auto & t){ typedef std::decay_t<decltype(t.coeff(0,0,0,0,0))> T; return gaunt_coefficient_T<T>(L,M,l,m,lp,mp); },PI4)+"}"); }
    else if(a[0]=="c") { const std::string & k=a[1]; int lj=I(2),mj=I(3),li=I(4),mi=I(5);
      emit("{\"e\":\"c\",\"k\":"+q(k)+J("lj",2)+J("mj",3)+J("li",4)+J("mi",5)+","+tri([&](auto & t){ return k=="cos"? t.cosine_coupling(lj,mj,li,mi) : k=="cos2"? t.cosine2_coupling(lj,mj,li,mi) : k=="cos3"? t.cosine3_coupling(lj,mj,li,mi) : k=="cos4"? t.cosine4_coupling(lj,mj,li,mi)
        : k=="cos5"? t.cosine5_coupling(lj,mj,li,mi) : k=="sin2"? t.sine2_coupling(lj,mj,li,mi) : t.cosine2_sine2_coupling(lj,mj,li,mi); },1.0)+"}"); }
    else if(a[0]=="mod") { double f=modified_gaunt_coefficient(I(1),I(2),I(3),I(4),I(5),I(6))*std::sqrt((double) PI4);
      emit("{\"e\":\"mod\""+J("lj",1)+J("mj",2)+J("L",3)+J("M",4)+J("li",5)+J("mi",6)+",\"free4\":"+std::to_string((long long) std::llround(f*1e4))+","+tri([&](auto & t){ return t.mod_coeff(I(1),I(2),I(3),I(4),I(5),I(6)); },PI4)+"}"); }
  });
}
