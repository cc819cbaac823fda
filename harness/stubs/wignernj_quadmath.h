#pragma once
#include "wignernj.hpp"
inline __float128 gaunt_q(int a,int b,int c,int d,int e,int f) { if((a|b|c|d|e|f)&1) return 0; return wignernj_stub::gaunt(a/2,b/2,c/2,d/2,e/2,f/2); }
