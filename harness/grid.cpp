// Element grids of the real code.
#include "vp.h"
#include <helfem.h>
#include <grid.h>
#include "atomic/basis.h"
#include <algorithm>
using namespace vp;
template <class V> void report(const std::string & head, const V & b_, double R, const std::string & conf, bool has, bool keep) {
  std::vector<long long> m; bool inc=true; for(int i=0;i<b_.size();i++) { double x=(double) b_(i); m.push_back(llround(x*1000)); if(i) inc=inc && b_(i)>b_(i-1); }
  bool zero=b_.size()>0 && b_(0)==0; bool end=b_.size()>0 && std::abs((double) b_(b_.size()-1)-R)<=1e-12*R;
  emit(head+",\"r\":\"ok\",\"m\":"+arr(m)+",\"zero\":"+b(zero)+",\"inc\":"+b(inc)+",\"end\":"+b(end)+",\"has\":"+b(has)+",\"keep\":"+b(keep)+"}");
}
int main() {
  init();
  return loop([&]{ emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    // grid via conf k model n ig z n0 ig0 z0 Z Zl Zr R rn rh
    std::string via=a[1],conf=a[2]; int k=std::stoi(a[3]); int p[13]; for(int i=0;i<13;i++) p[i]=std::stoi(a[4+i]);
    const char * nm[]={"model","n","ig","z","n0","ig0","z0","Z","Zl","Zr","R","rn","rh"}; std::string head="{\"e\":\"grid\",\"via\":"+q(via)+",\"conf\":"+q(conf)+",\"k\":"+std::to_string(k)+",\"p\":{"; for(int i=0;i<13;i++) head+=std::string(i?",":"")+"\""+nm[i]+"\":"+std::to_string(p[i]); head+="}";
    int model=p[0],n=p[1],ig=p[2],n0=p[4],ig0=p[5],Z=p[7],Zl=p[8],Zr=p[9]; double z=p[3]/4.0,z0=p[6]/4.0,R=p[10],rn=p[11],rh=p[12];
    double rrms= model==1? rn/3.0 : model==2? rn/sqrt(5.0/3.0) : rn;
    try {
      if(via=="get") { auto v=helfem::utils::get_grid(R,n,ig,z); report(head,v,R,conf,true,true); }
      else if(via=="getl") { auto v=helfem::grid::get_grid<long double>(R,n,ig,z); report(head,v,R,conf,true,true); }
      else {
        auto nucm=(helfem::modelpotential::nuclear_model_t) model;
        helfem::Vector v=helfem::atomic::basis::form_grid(nucm,rrms,n,R,ig,z,n0,ig0,z0,Z,Zl,Zr,rh);
        if(conf=="none") report(head,v,R,conf,true,true);
        else {
          int e=k%((int) v.size()-1); double fr[5]={0.5,1e-5,0.3,1.0-1e-5,1e-4}; double ff=fr[(k/7)%5]; double s= conf=="on"? v(e) : v(e)+ff*(v(e+1)-v(e));
          helfem::Vector w=helfem::atomic::basis::form_grid(nucm,rrms,n,R,ig,z,n0,ig0,z0,Z,Zl,Zr,rh,true,s);
          int cnt=0; std::vector<double> rest; bool seen=false; for(int i=0;i<w.size();i++) { if(w(i)==s) { cnt++; if(conf=="in" && !seen) { seen=true; continue; } } rest.push_back(w(i)); }
          bool keep=rest.size()==(size_t) v.size(); if(keep) for(int i=0;i<v.size();i++) keep=keep && v(i)==rest[i];
          report(head,w,R,conf,cnt==1,keep);
        }
      }
    } catch(std::exception & e) { emit(head+",\"r\":\"err\"}"); }
  });
}
