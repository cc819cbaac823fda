// Stand-in for the external library libwignernj (not installed here): Gaunt integrals from the Racah formula, evaluated in binary128.
#pragma once
#include <cstdlib>
#include <vector>
namespace wignernj_stub {
  typedef __float128 q;
  inline q qsqrt(q x) { if(x<=0) return 0; q y=__builtin_sqrtl((long double) x); for(int i=0;i<3;i++) y=(y+x/y)/2; return y; }
  inline q fac(int n) { static const std::vector<q> t=[]{ std::vector<q> v(600); v[0]=1; for(int i=1;i<600;i++) v[i]=v[i-1]*i; return v; }(); return t[n]; }
  // Wigner 3j, integer arguments
  inline q threej(int a,int b,int c,int al,int be,int ga) {
    if(al+be+ga!=0 || c<std::abs(a-b) || c>a+b || std::abs(al)>a || std::abs(be)>b || std::abs(ga)>c) return 0;
    q delta=fac(a+b-c)*fac(a-b+c)*fac(-a+b+c)/fac(a+b+c+1);
    q pre=qsqrt(delta*fac(a+al)*fac(a-al)*fac(b+be)*fac(b-be)*fac(c+ga)*fac(c-ga));
    q s=0;
    for(int t=0;t<=a+b+c;t++) {
      int d1=c-b+t+al, d2=c-a+t-be, d3=a+b-c-t, d4=a-t-al, d5=b-t+be;
      if(d1<0||d2<0||d3<0||d4<0||d5<0) continue;
      q term=1/(fac(t)*fac(d1)*fac(d2)*fac(d3)*fac(d4)*fac(d5));
      s += (t&1) ? -term : term;
    }
    q r=pre*s;
    return ((a-b-ga)&1) ? -r : r;
  }
  inline q gaunt(int l1,int m1,int l2,int m2,int l3,int m3) {
    if((l1+l2+l3)&1) return 0;
    const q pi=3.14159265358979323846264338327950288419716939937510Q;
    q pre=qsqrt((q)((2*l1+1)*(2*l2+1)*(2*l3+1))/(4*pi));
    return pre*threej(l1,l2,l3,0,0,0)*threej(l1,l2,l3,m1,m2,m3);
  }
}
namespace wignernj {
  template <typename T> T gaunt(int tl1,int tm1,int tl2,int tm2,int tl3,int tm3) {
    if((tl1|tm1|tl2|tm2|tl3|tm3)&1) return T(0);
    return (T) wignernj_stub::gaunt(tl1/2,tm1/2,tl2/2,tm2/2,tl3/2,tm3/2);
  }
}
