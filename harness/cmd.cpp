// Command-line parser.
#include "vp.h"
#include "cmdline.h"
#include <sys/wait.h>
using namespace vp;
static std::unique_ptr<cmdline::parser> P; struct O { std::string n,ty,sh,def; bool need; }; static std::vector<O> decl;
static std::string unhex(const std::string & h) { std::string r; if(h=="-") return r; for(size_t i=0;i+1<h.size();i+=2) r+=(char) std::stoi(h.substr(i,2),nullptr,16); return r; }
static void add(cmdline::parser & p, const O & o) {
  char s= o.sh.size()? o.sh[0] : 0;
  if(o.ty=="flag") p.add(o.n,s,"d"); else if(o.ty=="int") p.add<int>(o.n,s,"d",o.need,3); else if(o.ty=="double") p.add<double>(o.n,s,"d",o.need,2.5); else if(o.ty=="bool") p.add<bool>(o.n,s,"d",o.need,false);
  else if(o.ty=="string") p.add<std::string>(o.n,s,"d",o.need,"dflt"); else if(o.ty=="range") p.add<int>(o.n,s,"d",o.need,4,cmdline::range(0,10)); else p.add<int>(o.n,s,"d",o.need,5,cmdline::oneof<int>(1,5,7));
}
static std::unique_ptr<cmdline::parser> make() { auto p=std::make_unique<cmdline::parser>(); for(auto & o: decl) add(*p,o); return p; }
static std::string val(cmdline::parser & p, const O & o) { try { if(o.ty=="flag") return ""; if(o.ty=="double") return std::to_string((long long) std::llround(8*p.get<double>(o.n))); if(o.ty=="bool") return p.get<bool>(o.n)?"1":"0"; if(o.ty=="string") return p.get<std::string>(o.n); return std::to_string(p.get<int>(o.n)); } catch(std::exception &) { return "EXC"; } }
static std::string state(cmdline::parser & p, bool ok) { std::vector<std::string> v,r; for(auto & o: decl) v.push_back("{\"n\":"+q(o.n)+",\"has\":"+b(p.exist(o.n))+",\"val\":"+q(val(p,o))+"}"); for(auto & x: p.rest()) r.push_back(q(x)); return "\"ok\":"+std::string(b(ok))+",\"msg\":"+b(p.error().size()>0)+",\"rest\":"+arrs(r)+",\"vals\":"+arrs(v); }
int main() {
  init();
  return loop([&]{ P.reset(); decl.clear(); emit("{\"e\":\"begin\"}"); },[&](const Args & a, const std::string &) {
    if(a[0]=="decl") { // name ty short need ...
      std::string js; for(size_t i=1;i+3<a.size();i+=4) { O o{a[i],a[i+1],a[i+2]=="-"?"":a[i+2],"",a[i+3]=="1"}; decl.push_back(o); }
      P=make(); std::vector<std::string> v; for(auto & o: decl) v.push_back("{\"n\":"+q(o.n)+",\"ty\":"+q(o.ty)+",\"short\":"+q(o.sh)+",\"need\":"+b(o.need)+",\"def\":"+q(val(*P,o))+"}");
      std::string dup="ok"; try { add(*P,decl[0]); } catch(std::exception &) { dup="err"; }
      emit("{\"e\":\"decl\",\"d\":"+arrs(v)+",\"dup\":"+q(dup)+"}");
      auto err=[&](auto f) { try { f(); return q("ok"); } catch(std::exception &) { return q("err"); } };
      emit("{\"e\":\"misuse\",\"unknown\":"+err([&]{ P->get<int>("never-declared"); })+",\"wrongtype\":"+err([&]{ P->get<std::vector<int>>(decl[0].n); })+",\"noexist\":"+err([&]{ P->exist("never-declared"); })+"}");
      return; }
    if(!P) return;
    std::vector<std::string> v{"prog"}, qs; for(size_t i=1;i<a.size();i++) { v.push_back(unhex(a[i])); qs.push_back(q(v.back())); }
    std::vector<const char *> c; for(auto & x: v) c.push_back(x.c_str());
    if(a[0]=="fresh") { P=make(); std::vector<std::string> d; for(auto & o: decl) d.push_back("{\"n\":"+q(o.n)+",\"ty\":"+q(o.ty)+",\"short\":"+q(o.sh)+",\"need\":"+b(o.need)+",\"def\":"+q(val(*P,o))+"}"); emit("{\"e\":\"decl\",\"d\":"+arrs(d)+",\"dup\":\"err\"}"); }
    if(a[0]=="argv" || a[0]=="fresh") { bool ok=P->parse((int) c.size(),c.data()); emit("{\"e\":\"parse\",\"a\":"+arrs(qs)+","+state(*P,ok)+"}"); }
    else if(a[0]=="vec") { bool ok=P->parse(v); emit("{\"e\":\"parse\",\"a\":"+arrs(qs)+","+state(*P,ok)+"}"); }
    else if(a[0]=="check") { fflush(out()); pid_t pid=fork(); if(pid==0) { int nul=open("/dev/null",O_RDWR); dup2(nul,2); dup2(nul,0); /* exit() would rewind a shared stdin */ auto p=make(); std::vector<char *> w; for(auto & x: v) w.push_back(const_cast<char *>(x.c_str())); p->parse_check((int) w.size(),w.data()); _exit(77); } int st=0; waitpid(pid,&st,0); int x= WIFEXITED(st)? WEXITSTATUS(st) : 99; if(x==77) x=-1;
      // declared state is that of a fresh parser
      P=make(); std::vector<std::string> d; for(auto & o: decl) d.push_back("{\"n\":"+q(o.n)+",\"ty\":"+q(o.ty)+",\"short\":"+q(o.sh)+",\"need\":"+b(o.need)+",\"def\":"+q(val(*P,o))+"}"); emit("{\"e\":\"decl\",\"d\":"+arrs(d)+",\"dup\":\"err\"}");
      emit("{\"e\":\"check\",\"a\":"+arrs(qs)+",\"exit\":"+std::to_string(x)+"}"); }
    else if(a[0]=="split") { auto p=make(); bool ok=p->parse(v[1]); P=make(); std::vector<std::string> d; for(auto & o: decl) d.push_back("{\"n\":"+q(o.n)+",\"ty\":"+q(o.ty)+",\"short\":"+q(o.sh)+",\"need\":"+b(o.need)+",\"def\":"+q(val(*P,o))+"}"); emit("{\"e\":\"decl\",\"d\":"+arrs(d)+",\"dup\":\"err\"}");
      emit("{\"e\":\"split\",\"s\":"+q(v[1])+","+state(*p,ok)+"}"); }
  });
}
