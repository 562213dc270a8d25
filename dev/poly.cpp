// least-weight irreducible polynomials of degree 8n over GF(2): pentanomials x^d+x^a+x^b+x^c+1, smallest a, then b, then c
#include <cstdio>
#include <cstring>
#include <vector>
#include <cstdint>
#include <cstdlib>
typedef std::vector<uint64_t> V; 
static int d,a,b,c,W;
static void xorsh(V&r,const V&s,int sh){ int w=sh/64,k=sh%64; for(size_t i=0;i<s.size();i++){ if(!s[i])continue; if(i+w<r.size()) r[i+w]^=s[i]<<k; if(k&&i+w+1<r.size()) r[i+w+1]^=s[i]>>(64-k);} }
static void red(V&x){ // reduce mod pentanomial, x has 2W words
  for(;;){ V h(W+1,0); bool any=false; // high part >> d
    int w=d/64,k=d%64; for(int i=0;i<=W;i++){ uint64_t v=0; if(i+w<(int)x.size()) v=x[i+w]>>k; if(k&&i+w+1<(int)x.size()) v|=x[i+w+1]<<(64-k); h[i]=v; if(v)any=true; }
    if(!any) break;
    for(int i=0;i<(int)x.size();i++){ if(i>w) x[i]=0; else if(i==w) x[i]&= k?((1ull<<k)-1):0; }
    xorsh(x,h,0); xorsh(x,h,a); xorsh(x,h,b); xorsh(x,h,c);
  } }
static uint64_t sp(uint32_t x){ uint64_t r=x; r=(r|r<<16)&0x0000FFFF0000FFFFull; r=(r|r<<8)&0x00FF00FF00FF00FFull; r=(r|r<<4)&0x0F0F0F0F0F0F0F0Full; r=(r|r<<2)&0x3333333333333333ull; r=(r|r<<1)&0x5555555555555555ull; return r; }
static V sq(const V&x){ V r(2*W+2,0); for(int i=0;i<W;i++){ r[2*i]=sp((uint32_t)x[i]); r[2*i+1]=sp(x[i]>>32);} red(r); r.resize(W); return r; }
static int deg(const V&x){ for(int i=(int)x.size()-1;i>=0;i--) if(x[i]) return i*64+63-__builtin_clzll(x[i]); return -1; }
static int gcddeg(V x,V y){ for(;;){ int p=deg(x),q=deg(y); if(q<0) return p; if(p<q){ std::swap(x,y); continue; } V t(x.size(),0); xorsh(x,y,p-q);} }
static bool irred(){ W=(d+64)/64; V f(W+1,0); auto set=[&](V&v,int i){ v[i/64]^=1ull<<(i%64); }; set(f,d);set(f,a);set(f,b);set(f,c);set(f,0);
  V x(W,0); x[0]=2; V t=x; std::vector<int> pr; int m=d; for(int p=2;p<=m;p++) if(m%p==0){ pr.push_back(p); while(m%p==0) m/=p; }
  for(int i=1;i<=d;i++){ t=sq(t); if(i<=12&&i<=d/2){ V u=t; u.resize(W+1); u[0]^=2; if(gcddeg(f,u)>0) return false; } for(int p:pr) if(i==d/p){ V u=t; u.resize(W+1); u[0]^=2; if(gcddeg(f,u)!=0) return false; } }
  return t==x; }
int main(int ac,char**av){ int k=atoi(av[1]),n=atoi(av[2]); for(int s=1+k;s<=255;s+=n){ d=8*s; bool ok=false; for(a=3;a<d&&!ok;a++) for(b=2;b<a&&!ok;b++) for(c=1;c<b&&!ok;c++) if(irred()){ printf("%d %d %d %d\n",s,a,b,c); fflush(stdout); ok=true; } } }
