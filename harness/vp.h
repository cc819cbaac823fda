// Common harness plumbing: commands on stdin, one JSON line per event on stdout.
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
#include <map>
#include <memory>
#include <cmath>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
namespace vp {
  inline FILE *& out() { static FILE * f=nullptr; return f; }
  // Keep the code under test from interleaving its own prints with the event stream
  inline void init() {
    int fd=dup(1);
    out()=fdopen(fd,"w");
    int nul=open("/dev/null",O_WRONLY);
    dup2(nul,1); close(nul);
  }
  inline std::string q(const std::string & s) {
    std::string r="\"";
    for(unsigned char c: s) {
      if(c=='"' || c=='\\') { r+='\\'; r+=c; }
      else if(c<0x20) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; }
      else r+=c;
    }
    return r+"\"";
  }
  inline void emit(const std::string & s) { fputs(s.c_str(),out()); fputc('\n',out()); fflush(out()); }
  template <class V> std::string arr(const V & v) { std::ostringstream o; o<<"["; bool f=true; for(auto x: v) { if(!f) o<<","; f=false; o<<(long long)x; } o<<"]"; return o.str(); }
  inline std::string arrs(const std::vector<std::string> & v) { std::string r="["; for(size_t i=0;i<v.size();i++) { if(i) r+=","; r+=v[i]; } return r+"]"; }
  inline const char * b(bool x) { return x?"true":"false"; }
  typedef std::vector<std::string> Args;
  inline Args split(const std::string & l) { std::istringstream i(l); Args a; std::string t; while(i>>t) a.push_back(t); return a; }
  // Main loop: reset() at each CASE, handle(args,line) for each command
  inline int loop(std::function<void()> reset, std::function<void(const Args &, const std::string &)> handle) {
    std::string line;
    while(std::getline(std::cin,line)) {
      if(line=="CASE") { emit("@CASE"); reset(); continue; }
      if(line.empty()) continue;
      handle(split(line),line);
    }
    return 0;
  }
  // largest of some deviations; a value that is not a number stays
  inline double worst(double a, double b) { return std::isnan(a) || std::isnan(b) ? std::nan("") : a<b ? b : a; }
  inline double worst(std::initializer_list<double> v) { double r=*v.begin(); for(double x: v) r=worst(r,x); return r; }
  // splitmix
  struct Rng { uint64_t s; Rng(uint64_t x): s(x) {} uint64_t next() { uint64_t z=(s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);} int upto(int n) { return (int)(next()%(uint64_t)n);} double uni() { return (next()>>11)*(1.0/9007199254740992.0);} };
}
