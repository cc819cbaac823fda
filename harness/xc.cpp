// Functional resolution and classification against the functional library.
#include "vp.h"
#include "dftfuncs.h"
#include "scf_helpers.h"
extern "C" {
#include <xc.h>
}
using namespace vp;
struct F { int id; std::string name; };
static std::vector<F> fs;
static long long mi(double x) { return (std::isfinite(x) && std::abs(x)<1000)? std::llround(1e6*x) : 999999999; }
static std::string catalogue() {
  int n=xc_number_of_functionals(); std::vector<int> ids(n); xc_available_functional_numbers(ids.data());
  std::vector<std::string> v; fs.clear();
  for(int id: ids) { xc_func_type f; if(xc_func_init(&f,id,XC_UNPOLARIZED)!=0) continue;
    char * nm=xc_functional_get_name(id); std::string name(nm); free(nm); fs.push_back({id,name});
    int fl=f.info->flags, fam=f.info->family; bool hyb=false; double om=0,al=0,be=0,exx=0,vb=0,vC=0;
#ifdef XC_FAMILY_HYB_GGA
    hyb= fam==XC_FAMILY_HYB_GGA || fam==XC_FAMILY_HYB_MGGA || fam==XC_FAMILY_HYB_LDA;
#endif
    if(hyb) { xc_hyb_cam_coef(&f,&om,&al,&be); exx=xc_hyb_exx_coef(&f); }
    bool vv= fl & XC_FLAGS_VV10; if(vv) xc_nlc_coef(&f,&vb,&vC);
    bool tau=true, lapl=true;
#ifdef XC_FLAGS_NEEDS_TAU
    tau= fl & XC_FLAGS_NEEDS_TAU;
#endif
#ifdef XC_FLAGS_NEEDS_LAPLACIAN
    lapl= fl & XC_FLAGS_NEEDS_LAPLACIAN;
#endif
    bool erf=(fl & XC_FLAGS_HYB_CAM) || (fl & XC_FLAGS_HYB_LC), yuk=(fl & XC_FLAGS_HYB_CAMY) || (fl & XC_FLAGS_HYB_LCY);
    std::ostringstream o; o<<"{\"id\":"<<id<<",\"name\":"<<q(name)<<",\"kind\":"<<f.info->kind<<",\"fam\":"<<fam<<",\"tau\":"<<b(tau)<<",\"lapl\":"<<b(lapl)<<",\"erf\":"<<b(erf)<<",\"yuk\":"<<b(yuk)
      <<",\"exx\":"<<mi(exx)<<",\"omega\":"<<mi(om)<<",\"alpha\":"<<mi(al)<<",\"beta\":"<<mi(be)<<",\"vv\":"<<b(vv)<<",\"vb\":"<<mi(vb)<<",\"vC\":"<<mi(vC)<<",\"exc\":"<<b(fl & XC_FLAGS_HAVE_EXC)<<",\"sup\":true}";
    v.push_back(o.str()); xc_func_end(&f); }
  return arrs(v);
}
static std::string token(const std::string & t) { // style:number or lit:hex
  size_t c=t.find(':'); std::string st=t.substr(0,c), r=t.substr(c+1);
  if(st=="lit") { std::string s; if(r!="-") for(size_t i=0;i+1<r.size();i+=2) s+=(char) std::stoi(r.substr(i,2),nullptr,16); return s; }
  const F & f=fs[std::stoul(r)%fs.size()]; std::string n=f.name;
  if(st=="num") return std::to_string(f.id); if(st=="num0") return "0"+std::to_string(f.id); if(st=="name") return n;
  std::string u=n; for(auto & ch: u) ch=toupper(ch); if(st=="upper") return u; if(st=="xc") return "xc_"+n; if(st=="XC") return "XC_"+u;
  for(size_t i=0;i<n.size();i+=2) n[i]=toupper(n[i]); return n;
}
template <class G> static std::string guard(G g) { try { g(); return "ok"; } catch(std::runtime_error &) { return "runtime_error"; } catch(std::exception &) { return "exception"; } }
int main() {
  init(); int nul=open("/dev/null",O_WRONLY); dup2(nul,2);
  return loop([&]{ emit("{\"e\":\"begin\"}"); emit("{\"e\":\"cat\",\"f\":"+catalogue()+"}"); },[&](const Args & a, const std::string &) {
    if(a[0]=="spec") { std::string s; for(size_t i=1;i<a.size();i++) { if(i>1) s+="-"; s+=token(a[i]); }
      int x=-77,c=-77; std::string r=guard([&]{ parse_xc_func(x,c,s); }); emit("{\"e\":\"spec\",\"s\":"+q(s)+",\"r\":"+q(r)+",\"x\":"+std::to_string(x)+",\"c\":"+std::to_string(c)+"}"); }
    else if(a[0]=="find") { std::string s=token(a[1]); int x=-77; std::string r=guard([&]{ x=find_func(s); }); emit("{\"e\":\"find\",\"s\":"+q(s)+",\"r\":"+q(r)+",\"x\":"+std::to_string(x)+"}"); }
    else if(a[0]=="class") { int lo=std::stoi(a[1]), hi=std::stoi(a[2]);
      for(int k=lo;k<hi;k++) { int id=k; if(a[3]=="idx") { if(k>=(int) fs.size()) break; id=fs[k].id; }
        bool X=0,C=0,XCk=0,K=0,gga=0,mt=0,ml=0,grad=0,tau=0,lapl=0,erf=0,yuk=0,rs=0,vv=0,exc=0,sup=0; double exx=0,om=0,al=0,be=0,vb=0,vC=0; std::string key="?"; int back=-99, nerr=0, nall=0; std::string r="ok";
        auto run=[&](auto g) { nall++; std::string t=guard(g); if(t!="ok") { nerr++; r=t; } };
        run([&]{ X=is_exchange(id); }); run([&]{ C=is_correlation(id); }); run([&]{ XCk=is_exchange_correlation(id); }); run([&]{ K=is_kinetic(id); });
        run([&]{ grad=gradient_needed(id); }); run([&]{ tau=tau_needed(id); }); run([&]{ lapl=laplacian_needed(id); }); run([&]{ exx=exact_exchange(id); });
        run([&]{ is_range_separated(id,erf,yuk); }); run([&]{ rs=is_range_separated(id); }); run([&]{ range_separation(id,om,al,be); }); run([&]{ vv=needs_VV10(id,vb,vC); }); run([&]{ exc=has_exc(id); }); run([&]{ sup=is_supported(id); });
        run([&]{ key=get_keyword(id); }); if(r=="ok") run([&]{ back=find_func(key); }); std::string gr=guard([&]{ is_gga_mgga(id,gga,mt,ml); });
        std::ostringstream o; o<<"{\"e\":\"class\",\"id\":"<<id<<",\"r\":"<<q(r)<<",\"nerr\":"<<nerr<<",\"nall\":"<<nall<<",\"x\":"<<b(X)<<",\"c\":"<<b(C)<<",\"xc\":"<<b(XCk)<<",\"k\":"<<b(K)<<",\"gr\":"<<q(gr)<<",\"gga\":"<<b(gga)<<",\"mt\":"<<b(mt)<<",\"ml\":"<<b(ml)
          <<",\"grad\":"<<b(grad)<<",\"tau\":"<<b(tau)<<",\"lapl\":"<<b(lapl)<<",\"exx\":"<<mi(exx)<<",\"erf\":"<<b(erf)<<",\"yuk\":"<<b(yuk)<<",\"rs\":"<<b(rs)<<",\"omega\":"<<mi(om)<<",\"alpha\":"<<mi(al)<<",\"beta\":"<<mi(be)
          <<",\"vv\":"<<b(vv)<<",\"vb\":"<<mi(vb)<<",\"vC\":"<<mi(vC)<<",\"exc\":"<<b(exc)<<",\"sup\":"<<b(sup)<<",\"key\":"<<q(key)<<",\"back\":"<<back<<"}"; emit(o.str()); } }
    else if(a[0]=="params") { std::string s,g; std::vector<long long> v; for(size_t i=1;i<a.size();i++) { long long k=std::stoll(a[i]); v.push_back(k); char buf[64]; int st=(int) (((k%7)+7+i)%4); snprintf(buf,64,st==0?"%s%.17g":st==1?"%s%.9e":st==2?"%s%+.10f":"%s%.12E",i>1?(i%2?"  ":" "):"",k/8.0); s+=buf; }
      // separators and the end of the file vary: blanks, tabs, line ends, with or without a final one
      static int nfile=0; int sep=nfile%4, tail=(nfile/4)%4; nfile++;
      auto rd=[&](const std::string & t) { helfem::Vector r=helfem::scf::parse_xc_params(t); std::vector<long long> o; for(int i=0;i<r.size();i++) o.push_back(std::llround(8*r(i))); return o; };
      std::string fn="/tmp/vp_xc_params_"+std::to_string(getpid()); { std::ofstream f(fn); const char * SE[]={"\n"," ","\t","\r\n"}; const char * TA[]={"\n","","  ","\n\n"}; for(auto ch: s) { if(ch==' ') f<<SE[sep]; else f<<ch; } f<<TA[tail]; } auto in=rd(s), fi=rd(fn); unlink(fn.c_str());
      emit("{\"e\":\"params\",\"given\":"+arr(v)+",\"inline\":"+arr(in)+",\"file\":"+arr(fi)+"}"); }
  });
}
