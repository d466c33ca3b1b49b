// Exact feasibility of linear systems by Gaussian elimination and Fourier-Motzkin over integers.
#pragma once
#include <vector>
#include <algorithm>
#include <cstdlib>
#include <cstdio>
typedef __int128 I;
typedef std::vector<I> Row; // coefs..., rhs :  a.x <= b  or a.x = b
static inline I gabs(I a){return a<0?-a:a;}
static inline I gcdI(I a,I b){a=gabs(a);b=gabs(b);while(b){I t=a%b;a=b;b=t;}return a;}
static bool fm_overflow=false;  // magnitudes too large: the answer must not be used
static inline void norm(Row&r){for(I x:r)if(gabs(x)>((I)1<<60))fm_overflow=true;I g=0;for(I x:r){g=gcdI(g,x);if(g==1)return;}if(g>1)for(I&x:r)x/=g;}
// feasibility of {eq rows}, {ineq rows}
inline bool Feasible(std::vector<Row> eq,std::vector<Row> in,int n){
  for(size_t e=0;e<eq.size();e++){
    int p=-1;for(int j=0;j<n;j++)if(eq[e][j]!=0){p=j;break;}
    if(p<0){if(eq[e][n]!=0)return false;continue;}
    Row P=eq[e];I c=P[p];
    auto sub=[&](Row&r){I k=r[p];if(k==0)return;I m=gabs(c),s=c<0?-1:1;for(int j=0;j<=n;j++)r[j]=r[j]*m-k*s*P[j];norm(r);};
    for(size_t k=e+1;k<eq.size();k++)sub(eq[k]);
    for(auto&r:in)sub(r);
  }
  // FM
  for(int it=0;it<n;it++){
    // choose var with min product
    int best=-1;long bc=-1;
    for(int j=0;j<n;j++){long a=0,b=0;for(auto&r:in){if(r[j]>0)a++;else if(r[j]<0)b++;}if(a+b==0)continue;long c=a*b-a-b;if(best<0||c<bc){best=j;bc=c;}}
    if(best<0)break;int j=best;
    std::vector<Row> out;std::vector<Row*> P,N;
    for(auto&r:in){if(r[j]>0)P.push_back(&r);else if(r[j]<0)N.push_back(&r);else out.push_back(r);}
    for(auto p:P)for(auto q:N){Row r(n+1);I a=(*p)[j],b=-(*q)[j];for(int k=0;k<=n;k++)r[k]=(*p)[k]*b+(*q)[k]*a;norm(r);out.push_back(r);}
    std::sort(out.begin(),out.end());out.erase(std::unique(out.begin(),out.end()),out.end());
    in.swap(out);
  }
  for(auto&r:in)if(r[n]<0)return false;
  return true;
}
