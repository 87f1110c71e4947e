#include <cstdio>
#include <cstdlib>
#include <vector>
#include <random>
#include <iostream>
#include <sstream>
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace std;
int main(int argc,char**argv){
 int seed0=atoi(argv[1]), n=atoi(argv[2]); stringstream ss; cout.rdbuf(ss.rdbuf());
 int bad=0;
 for(int s=seed0;s<seed0+n;s++){ mt19937 g(s); auto R=[&](int k){return (int)(g()%k);};
  void*S=ipasir_init(); int V=3+R(9); vector<vector<int>> F; int rounds=1+R(4);
  ostringstream log;
  for(int r=0;r<rounds;r++){ int m=R(V*3)+1; for(int i=0;i<m;i++){ vector<int>c; int L=1+R(4); if(R(3))L=2+R(3); for(int j=0;j<L;j++){int v=1+R(V); c.push_back(R(2)?v:-v);} F.push_back(c); for(int l:c){ipasir_add(S,l);log<<l<<' ';} ipasir_add(S,0);log<<"0\n"; }
   vector<int>A; int na=R(4); for(int i=0;i<na;i++){int v=1+R(V); A.push_back(R(2)?v:-v); ipasir_assume(S,A.back());log<<"a "<<A.back()<<"\n";}
   if(R(5)==0&&A.size()) for(int k=0;k<20;k++){A.push_back(A[0]);ipasir_assume(S,A[0]);}
   int res=ipasir_solve(S); log<<"solve "<<res<<"\n"; if(getenv("DBG"))fprintf(stderr,"%s---\n",log.str().c_str());
   auto sat=[&](const vector<int>&as){ for(int x=0;x<(1<<V);x++){ auto T=[&](int l){return ((x>>(abs(l)-1))&1)==(l>0);}; bool ok=true; for(auto&c:F){bool o=false; for(int l:c)o|=T(l); if(!o){ok=false;break;}} if(ok)for(int a:as)ok&=T(a); if(ok)return true;} return false;};
   bool ex=sat(A); string err;
   if((res==10)!=ex) err="verdict";
   else if(res==10){ for(auto&c:F){bool o=false; for(int l:c)o|=ipasir_val(S,l)==l; if(!o)err="model clause";} for(int a:A) if(ipasir_val(S,a)!=a) err="model assumption"; for(int v=1;v<=V;v++) if(ipasir_val(S,v)!=0&&ipasir_val(S,v)!=-ipasir_val(S,-v)&&ipasir_val(S,v)!=ipasir_val(S,-v)) err="val incons"; }
   else { vector<int> f; for(int a:A) if(ipasir_failed(S,a)) f.push_back(a); if(sat(f)) err="failed"; }
   if(err.size()){ bad++; if(bad<3)fprintf(stderr,"seed %d round %d: %s\n%s",s,r,err.c_str(),log.str().c_str()); break;}
  }
  ipasir_release(S); ss.str("");
 }
 fprintf(stderr,"bad %d of %d\n",bad,n); return bad?1:0;
}
