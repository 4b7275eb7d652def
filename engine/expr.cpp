#include "expr.hpp"
#include <algorithm>
#include <cstring>
#include <sstream>

std::vector<Atom> atoms;
std::vector<Poly> factors;
size_t polyLimit = 60000;

// ------------------------------------------------------------------ hash consing
namespace {
struct Key { Kind k; uint8_t w; int op; Expr *a,*b,*c; 
  bool operator==(const Key& o) const { return k==o.k&&w==o.w&&op==o.op&&a==o.a&&b==o.b&&c==o.c; } };
struct KeyH { size_t operator()(const Key& x) const {
  size_t h = x.k*1000003u + x.w*7919u + x.op*104729u;
  h = h*1099511628211ull ^ (size_t)x.a; h = h*1099511628211ull ^ (size_t)x.b; h = h*1099511628211ull ^ (size_t)x.c; return h ^ (h>>29); } };
std::unordered_map<Key, Expr*, KeyH> table;
struct QH { size_t operator()(const mpq_class& q) const { 
  return mpz_get_ui(q.get_num_mpz_t())*31 + mpz_get_ui(q.get_den_mpz_t())*17 + mpz_sgn(q.get_num_mpz_t())*7 + mpz_size(q.get_num_mpz_t())*131; } };
std::unordered_map<mpq_class, Expr*, QH> consts;
std::unordered_map<std::string, Expr*> vars, ivars;
std::map<std::pair<uint64_t,int>, Expr*> iconsts;
int nextId = 0;
Expr* node(Kind k, int w, int op, Expr* a, Expr* b=nullptr, Expr* c=nullptr) {
  Key key{k,(uint8_t)w,op,a,b,c};
  auto it = table.find(key); if (it!=table.end()) return it->second;
  Expr* e = new Expr; e->k=k; e->width=w; e->op=op; e->a=a; e->b=b; e->c=c; e->id=nextId++;
  table.emplace(key,e); return e;
}
}

double ratToDouble(const mpq_class& q) {
  // correctly rounded for moderate sizes: use mpq_get_d and correct its truncation
  double d = q.get_d();
  if (d==0 || std::isinf(d)) return d;
  double up = std::nextafter(d, d>0?INFINITY:-INFINITY);
  mpq_class dd(d), du(up);
  mpq_class e1 = abs(q-dd), e2 = abs(du-q);
  return e2<e1 ? up : d;
}
mpq_class doubleToExact(double d) { return mpq_class(d); }

Expr* mkQ(const mpq_class& q0) {
  auto it = consts.find(q0); if (it!=consts.end()) return it->second;
  Expr* e = new Expr; e->k=RCONST; e->q=q0; e->id=nextId++; e->varfree=true; e->dval=ratToDouble(q0);
  consts.emplace(e->q,e); return e;
}
Expr* mkInt(long v) { return mkQ(mpq_class(v)); }

static mpq_class simplest(mpq_class lo, mpq_class hi) { // 0 < lo <= hi
  mpz_class f = lo.get_num()/lo.get_den();
  if (mpq_class(f) == lo) return mpq_class(f);
  if (mpq_class(f)+1 <= hi) return mpq_class(f)+1;
  mpq_class r = simplest(1/(hi-f), 1/(lo-f));
  return f + 1/r;
}
Expr* mkD(double d) {
  static std::unordered_map<uint64_t,Expr*> memo;
  uint64_t bits; memcpy(&bits,&d,8);
  auto it=memo.find(bits); if (it!=memo.end()) return it->second;
  Expr* e;
  if (std::isnan(d)||std::isinf(d)) throw Unsupported("non-finite floating constant");
  double ad = std::fabs(d);
  if (ad==0) e = mkInt(0);
  else if (ad >= 9007199254740992.0 || ad < 1e-250) e = mkQ(mpq_class(d));
  else {
    double dn = std::nextafter(ad,0.0), up = std::nextafter(ad,INFINITY);
    mpq_class A(ad), lo = (A+mpq_class(dn))/2, hi=(A+mpq_class(up))/2;
    // stay strictly inside
    mpq_class w=(hi-lo)/1000; lo+=w; hi-=w;
    mpq_class s = simplest(lo,hi); s.canonicalize();
    if (d<0) s=-s;
    e = mkQ(s);
  }
  memo[bits]=e; return e;
}
int newAtom(const std::string& name) {
  Atom a; a.name=name; 
  atoms.push_back(a); int i=atoms.size()-1;
  Expr* e = new Expr; e->k=RVAR; e->name=name; e->atom=i; e->id=nextId++;
  atoms[i].e=e; vars[name]=e; return i;
}
Expr* mkVar(const std::string& n) {
  auto it=vars.find(n); if (it!=vars.end()) return it->second;
  int i=newAtom(n); atoms[i].input=true; return atoms[i].e;
}
static Expr* vf(Expr* e, double v, bool is) { if (is && !e->varfree) { e->varfree=true; e->dval=v; } return e; }

Expr* mkAdd(Expr* a, Expr* b) {
  if (a->k==RCONST && b->k==RCONST) return mkQ(a->q+b->q);
  if (a->k==RCONST && a->q==0) return b;
  if (b->k==RCONST && b->q==0) return a;
  if (b->k==RMUL && b->a->k==RCONST && b->a->q==-1 && b->b==a) return mkInt(0);
  if (a->k==RMUL && a->a->k==RCONST && a->a->q==-1 && a->b==b) return mkInt(0);
  if (a->id>b->id) std::swap(a,b);
  return vf(node(RADD,0,0,a,b), a->dval+b->dval, a->varfree&&b->varfree);
}
Expr* mkNeg(Expr* a) { return mkMul(mkInt(-1),a); }
Expr* mkSub(Expr* a, Expr* b) { if (a==b) return mkInt(0); return mkAdd(a, mkNeg(b)); }
Expr* mkMul(Expr* a, Expr* b) {
  if (b->k==RCONST) std::swap(a,b);
  if (a->k==RCONST) {
    if (b->k==RCONST) return mkQ(a->q*b->q);
    if (a->q==0) return a;
    if (a->q==1) return b;
    if (b->k==RMUL && b->a->k==RCONST) return mkMul(mkQ(a->q*b->a->q), b->b);
    return vf(node(RMUL,0,0,a,b), a->dval*b->dval, b->varfree);
  }
  if (a->k==RMUL && a->a->k==RCONST) return mkMul(a->a, mkMul(a->b,b));
  if (b->k==RMUL && b->a->k==RCONST) return mkMul(b->a, mkMul(a,b->b));
  if (a->id>b->id) std::swap(a,b);
  return vf(node(RMUL,0,0,a,b), a->dval*b->dval, a->varfree&&b->varfree);
}
Expr* mkDiv(Expr* a, Expr* b) {
  if (b->k==RCONST) { if (b->q==0) throw Unsupported("division by constant zero"); return mkMul(mkQ(1/b->q), a); }
  if (a->k==RCONST && a->q==0) return a;
  if (a==b) return mkInt(1);
  if (a->k==RMUL && a->a->k==RCONST) return mkMul(a->a, mkDiv(a->b,b));
  return vf(node(RDIV,0,0,a,b), a->dval/b->dval, a->varfree&&b->varfree);
}
// ---- booleans
Expr* mkB(bool v) { return node(BCONST,0,v,nullptr); }
static bool isT(Expr* e){return e->k==BCONST&&e->op;} static bool isF(Expr* e){return e->k==BCONST&&!e->op;}
// sign of a variable-free expression, exactly if needed. returns -1,0,1
static int constSign(Expr* d) {
  if (d->k==RCONST) return sgn(d->q);
  RF* r = rfOf(d);
  if (r->n.empty()) return 0;
  mpq_class q; if (rfConst(r,q)) return sgn(q);
  return d->dval>0?1:-1;
}
static bool cmpConst(Expr* a, Expr* b, int& s) {
  if (a==b) { s=0; return true; }
  if (!a->varfree||!b->varfree) return false;
  if (a->k==RCONST&&b->k==RCONST) { s = cmp(a->q,b->q); s = s<0?-1:s>0?1:0; return true; }
  double m = std::max(std::fabs(a->dval),std::fabs(b->dval));
  double d = a->dval-b->dval;
  if (std::fabs(d) > 1e-7*m) { s = d<0?-1:1; return true; }
  s = constSign(mkSub(a,b)); return true;
}
Expr* mkLT(Expr* a, Expr* b) { int s; if (cmpConst(a,b,s)) return mkB(s<0); return node(BLT,0,0,a,b); }
Expr* mkLE(Expr* a, Expr* b) { int s; if (cmpConst(a,b,s)) return mkB(s<=0); return node(BLE,0,0,a,b); }
Expr* mkEQ(Expr* a, Expr* b) { int s; if (cmpConst(a,b,s)) return mkB(s==0); if (a->id>b->id) std::swap(a,b); return node(BEQ,0,0,a,b); }
Expr* mkNot(Expr* a) { if (a->k==BCONST) return mkB(!a->op); if (a->k==BNOT) return a->a;
  if (a->k==BLT) return mkLE(a->b,a->a); if (a->k==BLE) return mkLT(a->b,a->a); return node(BNOT,0,0,a); }
Expr* mkAnd(Expr* a, Expr* b) { if (isF(a)||isT(b)) return a; if (isF(b)||isT(a)) return b; if (a==b) return a; return node(BAND,0,0,a,b); }
Expr* mkOr(Expr* a, Expr* b) { if (isT(a)||isF(b)) return a; if (isT(b)||isF(a)) return b; if (a==b) return a; return node(BOR,0,0,a,b); }
// ---- bit vectors
static uint64_t maskw(int w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
static int64_t sext(uint64_t v, int w) { if (w>=64) return (int64_t)v; uint64_t s=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^s)-s); }
Expr* mkIConst(uint64_t v, int w) { v&=maskw(w); auto& e=iconsts[{v,w}]; if(!e){ e=new Expr; e->k=ICONST; e->iv=v; e->width=w; e->id=nextId++; } return e; }
Expr* mkIVar(const std::string& n, int w) { auto& e=ivars[n]; if(!e){ e=new Expr; e->k=IVAR; e->name=n; e->width=w; e->id=nextId++; } return e; }
// opcodes (own numbering): 0 add 1 sub 2 mul 3 udiv 4 sdiv 5 urem 6 srem 7 shl 8 lshr 9 ashr 10 and 11 or 12 xor
static uint64_t foldBin(int op,int w,uint64_t a,uint64_t b){
  uint64_t m=maskw(w); int64_t sa=sext(a,w), sb=sext(b,w);
  switch(op){case 0:return(a+b)&m;case 1:return(a-b)&m;case 2:return(a*b)&m;
   case 3: return b?((a&m)/(b&m)):m; case 4: return sb?((uint64_t)(sa/sb)&m):m; case 5:return b?((a&m)%(b&m)):a; case 6:return sb?((uint64_t)(sa%sb)&m):a;
   case 7:return b>=(uint64_t)w?0:(a<<b)&m; case 8:return b>=(uint64_t)w?0:((a&m)>>b); case 9:return (uint64_t)(sa>>(b>=(uint64_t)w?w-1:b))&m;
   case 10:return a&b&m; case 11:return(a|b)&m; case 12:return(a^b)&m;} return 0; }
Expr* mkIBin(int op,int w,Expr*a,Expr*b){ if(a->k==ICONST&&b->k==ICONST) return mkIConst(foldBin(op,w,a->iv,b->iv),w);
  if (b->k==ICONST && b->iv==0 && (op==0||op==1||op==7||op==8||op==9||op==11||op==12)) return a;
  if (a->k==ICONST && a->iv==0 && (op==0||op==11||op==12)) return b;
  if (b->k==ICONST && b->iv==1 && (op==2||op==3||op==4)) return a;
  return node(IBIN,w,op,a,b); }
// casts: 0 zext 1 sext 2 trunc
Expr* mkICast(int op,int w,Expr*a){ if(a->k==ICONST) return mkIConst(op==1?(uint64_t)sext(a->iv,a->width):a->iv, w);
  if (a->width==w) return a;
  if (op==2 && a->k==ICAST && a->op!=2) { if (a->a->width==w) return a->a; }
  return node(ICAST,w,op,a); }
// preds: 0 eq 1 ne 2 ult 3 ule 4 slt 5 sle
Expr* mkICmp(int p,Expr*a,Expr*b){
  if(a->k==ICONST&&b->k==ICONST){ int w=a->width; uint64_t x=a->iv,y=b->iv; int64_t sx=sext(x,w),sy=sext(y,w);
    switch(p){case 0:return mkB(x==y);case 1:return mkB(x!=y);case 2:return mkB(x<y);case 3:return mkB(x<=y);case 4:return mkB(sx<sy);case 5:return mkB(sx<=sy);} }
  if (a==b) return mkB(p==0||p==3||p==5);
  return node(BICMP,0,p,a,b); }

// ------------------------------------------------------------------ monomials
namespace {
typedef std::vector<std::pair<int,int>> MV;
struct MVH { size_t operator()(const MV& v) const { size_t h=1469598103934665603ull; for(auto&p:v){h=(h^p.first)*1099511628211ull; h=(h^p.second)*1099511628211ull;} return h; } };
std::vector<MV> monos{MV{}};
std::vector<int> monoDeg{0};
std::unordered_map<MV,int,MVH> monoTab{{MV{},0}};
std::unordered_map<uint64_t,int> mulMemo;
std::vector<int> monoAlg{0};  // has an algebraic atom with exponent>=2
int internM(const MV& v){ auto it=monoTab.find(v); if(it!=monoTab.end())return it->second; int i=monos.size(); monos.push_back(v);
  int d=0; bool al=false; for(auto&p:v){d+=p.second; if(p.second>=2&&atoms[p.first].alg&&!atoms[p.first].rel.empty())al=true;} monoDeg.push_back(d); monoAlg.push_back(al); monoTab.emplace(v,i); return i; }
int mulM(int a,int b){ if(!a)return b; if(!b)return a; if(a>b)std::swap(a,b); uint64_t k=((uint64_t)a<<32)|(unsigned)b; auto it=mulMemo.find(k); if(it!=mulMemo.end())return it->second;
  const MV&x=monos[a],&y=monos[b]; MV r; size_t i=0,j=0; while(i<x.size()||j<y.size()){ if(j==y.size()||(i<x.size()&&x[i].first<y[j].first))r.push_back(x[i++]); else if(i==x.size()||y[j].first<x[i].first)r.push_back(y[j++]); else {r.push_back({x[i].first,x[i].second+y[j].second});i++;j++;} }
  int m=internM(r); mulMemo.emplace(k,m); return m; }
bool divM(int a,int b,int&r){ const MV&x=monos[a],&y=monos[b]; MV o; size_t i=0; for(auto&p:y){ while(i<x.size()&&x[i].first<p.first)o.push_back(x[i++]); if(i==x.size()||x[i].first!=p.first||x[i].second<p.second)return false; if(x[i].second>p.second)o.push_back({p.first,x[i].second-p.second}); i++; } while(i<x.size())o.push_back(x[i++]); r=internM(o); return true; }
// deglex order
bool lessM(int a,int b){ if(a==b)return false; if(monoDeg[a]!=monoDeg[b])return monoDeg[a]<monoDeg[b]; const MV&x=monos[a],&y=monos[b]; size_t i=0; for(;i<x.size()&&i<y.size();i++){ if(x[i].first!=y[i].first) return x[i].first>y[i].first; if(x[i].second!=y[i].second) return x[i].second<y[i].second; } return x.size()<y.size(); }
struct LessM { bool operator()(int a,int b) const { return lessM(a,b);} };
}
Poly pConst(const mpq_class& q){ Poly p; if(q!=0)p.push_back({0,q}); return p; }
Poly pAtom(int i){ Poly p; p.push_back({internM(MV{{i,1}}),mpq_class(1)}); return p; }
Poly pAdd(const Poly&a,const Poly&b){ Poly r; r.reserve(a.size()+b.size()); size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j==b.size()||(i<a.size()&&a[i].m<b[j].m))r.push_back(a[i++]); else if(i==a.size()||b[j].m<a[i].m)r.push_back(b[j++]); else { mpq_class c=a[i].c+b[j].c; if(c!=0)r.push_back({a[i].m,c}); i++;j++; } } 
  if(r.size()>polyLimit) throw TooBig("poly"); return r; }
static Poly pScale(const Poly&a,const mpq_class&q){ if(q==0)return Poly(); Poly r=a; for(auto&t:r)t.c*=q; return r; }
static Poly fromMap(std::unordered_map<int,mpq_class>&h){ Poly r; r.reserve(h.size()); for(auto&kv:h) if(kv.second!=0) r.push_back({kv.first,kv.second}); std::sort(r.begin(),r.end(),[](const Term&x,const Term&y){return x.m<y.m;}); return r; }
static Poly pMulRaw(const Poly&a,const Poly&b){
  if(a.empty()||b.empty())return Poly();
  if(a.size()==1&&a[0].m==0) return pScale(b,a[0].c);
  if(b.size()==1&&b[0].m==0) return pScale(a,b[0].c);
  if((double)a.size()*b.size()>3e7) throw TooBig("poly product");
  std::unordered_map<int,mpq_class> h; h.reserve(a.size()+b.size());
  for(auto&x:a)for(auto&y:b){ int m=mulM(x.m,y.m); h[m]+=x.c*y.c; }
  if(h.size()>4*polyLimit) throw TooBig("poly");
  return fromMap(h);
}
static bool needsReduce(const Poly&p){ for(auto&t:p) if(monoAlg[t.m]) return true; return false; }
Poly pReduce(const Poly& p0){
  Poly p=p0;
  while(needsReduce(p)){
    std::unordered_map<int,mpq_class> h; 
    for(auto&t:p){ if(!monoAlg[t.m]){ h[t.m]+=t.c; continue; }
      // newest algebraic atom with exponent >=2
      MV v=monos[t.m]; int idx=-1; for(size_t i=0;i<v.size();i++) if(v[i].second>=2&&atoms[v[i].first].alg&&!atoms[v[i].first].rel.empty()) idx=i;
      int at=v[idx].first, k=v[idx].second/2; if(v[idx].second%2) v[idx].second=1; else v.erase(v.begin()+idx);
      int m=internM(v);
      Poly r=atoms[at].rel; Poly rk=r; for(int i=1;i<k;i++) rk=pReduce(pMulRaw(rk,r));
      for(auto&u:rk) h[mulM(m,u.m)]+=t.c*u.c;
    }
    p=fromMap(h); if(p.size()>polyLimit) throw TooBig("poly");
  }
  return p;
}
Poly pMul(const Poly&a,const Poly&b){ Poly r=pReduce(pMulRaw(a,b)); if(r.size()>polyLimit) throw TooBig("poly"); return r; }
static Poly pPow(const Poly&a,int e){ Poly r=pConst(1); for(int i=0;i<e;i++) r=pMul(r,a); return r; }
static bool pEq(const Poly&a,const Poly&b){ if(a.size()!=b.size())return false; for(size_t i=0;i<a.size();i++) if(a[i].m!=b[i].m||a[i].c!=b[i].c) return false; return true; }
static const Term& leadT(const Poly&p){ size_t b=0; for(size_t i=1;i<p.size();i++) if(lessM(p[b].m,p[i].m)) b=i; return p[b]; }
bool pDivExact(const Poly&p,const Poly&d,Poly&q){
  if(p.empty()){q.clear();return true;}
  if(d.size()==1){ q.clear(); for(auto&t:p){int r; if(!divM(t.m,d[0].m,r))return false; q.push_back({r,t.c/d[0].c});} std::sort(q.begin(),q.end(),[](const Term&x,const Term&y){return x.m<y.m;}); return true; }
  // filters
  { std::map<int,int> dp,dd; for(auto&t:p)for(auto&x:monos[t.m]) dp[x.first]=std::max(dp[x.first],x.second); for(auto&t:d)for(auto&x:monos[t.m]) dd[x.first]=std::max(dd[x.first],x.second);
    for(auto&x:dd){auto it=dp.find(x.first); if(it==dp.end()||it->second<x.second)return false;} }
  const Term ld=leadT(d); int r;
  if(!divM(leadT(p).m,ld.m,r)) return false;
  { // trailing term filter
    size_t b=0; for(size_t i=1;i<p.size();i++) if(lessM(p[i].m,p[b].m)) b=i; size_t c=0; for(size_t i=1;i<d.size();i++) if(lessM(d[i].m,d[c].m)) c=i;
    if(!divM(p[b].m,d[c].m,r)) return false; }
  if((double)p.size()*d.size()>2e6) return false;
  std::map<int,mpq_class,LessM> rem; for(auto&t:p) rem.emplace(t.m,t.c);
  Poly out; size_t steps=0;
  while(!rem.empty()){ auto it=std::prev(rem.end()); int m; if(!divM(it->first,ld.m,m)) return false; if(++steps>p.size()*4+50) return false; mpq_class c=it->second/ld.c; out.push_back({m,c});
    for(auto&t:d){ int mm=mulM(m,t.m); auto jt=rem.find(mm); if(jt==rem.end()) rem.emplace(mm,mpq_class(-c*t.c)); else { jt->second-=c*t.c; if(jt->second==0) rem.erase(jt);} } }
  std::sort(out.begin(),out.end(),[](const Term&x,const Term&y){return x.m<y.m;}); q=out; return true;
}
static mpq_class content(const Poly&p){ // positive rational such that p/content has coprime integer coefficients
  mpz_class g=0,l=1; for(auto&t:p){ g=gcd(g,t.c.get_num()); l=lcm(l,t.c.get_den()); } if(g==0)g=1; mpq_class q(g,l); q.canonicalize(); return q; }
static MV monoContent(const Poly&p){ MV v=monos[p[0].m]; for(size_t i=1;i<p.size()&&!v.empty();i++){ const MV&w=monos[p[i].m]; MV r; size_t j=0; for(auto&x:v){ while(j<w.size()&&w[j].first<x.first)j++; if(j<w.size()&&w[j].first==x.first) r.push_back({x.first,std::min(x.second,w[j].second)}); } v=r; } return v; }
bool polySqrt(const Poly&p,Poly&out){
  if(p.empty()){out.clear();return true;}
  auto sq=[](const Term&t,Term&r)->bool{ MV v=monos[t.m]; for(auto&x:v){ if(x.second%2) return false; x.second/=2; } if(sgn(t.c)<0) return false; mpz_class n=sqrt(t.c.get_num()),d=sqrt(t.c.get_den()); if(n*n!=t.c.get_num()||d*d!=t.c.get_den()) return false; r.m=internM(v); r.c=mpq_class(n,d); return true; };
  Term l; if(!sq(leadT(p),l)) return false;
  { size_t b=0; for(size_t i=1;i<p.size();i++) if(lessM(p[i].m,p[b].m)) b=i; Term q; if(!sq(p[b],q)) return false; }
  Poly r{l}; Poly rem=pAdd(p,pScale(pMulRaw(r,r),-1)); size_t steps=0;
  while(!rem.empty()){ if(++steps>p.size()) return false; const Term t=leadT(rem); int m; if(!divM(t.m,l.m,m)) return false; Poly s{{m,t.c/(2*l.c)}}; if(!lessM(m,r.empty()?l.m:leadT(r).m)&&false) return false;
    rem=pAdd(rem,pScale(pMulRaw(r,s),-2)); rem=pAdd(rem,pScale(pMulRaw(s,s),-1)); r=pAdd(r,s); if(!rem.empty()&&!lessM(leadT(rem).m,t.m)) return false; }
  out=r; return true;
}
void polyAtoms(const Poly&p,std::set<int>&s){ for(auto&t:p) for(auto&x:monos[t.m]) s.insert(x.first); }
int polySign(const Poly&p){
  if(p.empty()) return 3;
  bool allP=true,allN=true,strict=false;
  for(auto&t:p){ int s=sgn(t.c); bool st=true; for(auto&x:monos[t.m]){ const Atom&a=atoms[x.first]; if(a.pos) continue; if(a.nonnegFlag||x.second%2==0) { st=false; continue; } 
      if (a.hasLo && a.lo>0) continue; if (a.hasLo && a.lo==0) { st=false; continue; }
      return 0; }
    if(s>0) allN=false; else allP=false; if(st) strict=true; }
  if(allP) return strict?2:1; if(allN) return strict?-2:-1; return 0;
}
// ------------------------------------------------------------------ factors and rational functions
static std::vector<int> factorSign;
static int factorId(const Poly&p){ for(size_t i=0;i<factors.size();i++) if(pEq(factors[i],p)) return i; factors.push_back(p); return factors.size()-1; }
static int atomFactor(int a){ return factorId(pAtom(a)); }
static void addFac(std::vector<std::pair<int,int>>&d,int f,int e){ for(auto&x:d) if(x.first==f){x.second+=e;return;} d.push_back({f,e}); std::sort(d.begin(),d.end()); }
static bool facUses(int f){ (void)f; return true; }
// decompose nonzero poly into const * prod factors
static mpq_class factorize(Poly p,std::vector<std::pair<int,int>>&d){
  mpq_class c=content(p); if(sgn(leadT(p).c)<0) c=-c; p=pScale(p,1/c);
  MV mc=monoContent(p); if(!mc.empty()){ Poly q; Poly mm{{internM(mc),mpq_class(1)}}; pDivExact(p,mm,q); p=q; for(auto&x:mc) addFac(d,atomFactor(x.first),x.second); }
  if(p.size()==1&&p[0].m==0) return c*p[0].c;
  for(size_t i=0;i<factors.size()&&!(p.size()==1&&p[0].m==0);i++){ if(factors[i].size()<2) continue; if(!facUses(i)) continue; Poly q; while(pDivExact(p,factors[i],q)){ p=q; addFac(d,i,1); if(p.size()==1&&p[0].m==0) break; } }
  if(p.size()==1&&p[0].m==0) return c*p[0].c;
  // perfect power?
  Poly r; if(p.size()>2&&p.size()<200&&polySqrt(p,r)){ mpq_class cr=content(r); if(sgn(leadT(r).c)<0) cr=-cr; addFac(d,factorId(pScale(r,1/cr)),2); return c*cr*cr; }
  mpq_class c2=content(p); if(sgn(leadT(p).c)<0)c2=-c2;
  addFac(d,factorId(pScale(p,1/c2)),1); return c*c2;
}
static void cancel(RF&r){ if(r.n.empty()){r.d.clear();return;} 
  for(auto&x:r.d){ Poly q; while(x.second>0&&pDivExact(r.n,factors[x.first],q)){ r.n=q; x.second--; } }
  std::vector<std::pair<int,int>> d; for(auto&x:r.d) if(x.second) d.push_back(x); r.d=d; }
RF rfNeg(const RF&a){ RF r=a; for(auto&t:r.n)t.c=-t.c; return r; }
static Poly facProd(const std::vector<std::pair<int,int>>&d){ Poly p=pConst(1); for(auto&x:d) p=pMul(p,pPow(factors[x.first],x.second)); return p; }
RF rfAdd(const RF&a,const RF&b){
  if(a.n.empty())return b; if(b.n.empty())return a;
  RF r; std::vector<std::pair<int,int>> ma,mb; 
  std::map<int,std::pair<int,int>> m; for(auto&x:a.d)m[x.first].first=x.second; for(auto&x:b.d)m[x.first].second=x.second;
  for(auto&x:m){ int e=std::max(x.second.first,x.second.second); r.d.push_back({x.first,e}); if(e>x.second.first)ma.push_back({x.first,e-x.second.first}); if(e>x.second.second)mb.push_back({x.first,e-x.second.second}); }
  r.n=pAdd(pMul(a.n,facProd(ma)),pMul(b.n,facProd(mb)));
  cancel(r); return r;
}
static RF rfMulP(const RF&a,const RF&b){
  RF A=a,B=b; if(A.n.empty()||B.n.empty()) return RF();
  // cross cancel
  for(auto&x:B.d){ Poly q; while(x.second>0&&pDivExact(A.n,factors[x.first],q)){A.n=q;x.second--;} }
  for(auto&x:A.d){ Poly q; while(x.second>0&&pDivExact(B.n,factors[x.first],q)){B.n=q;x.second--;} }
  RF r; r.n=pMulRaw(A.n,B.n); bool red=needsReduce(r.n); if(red) r.n=pReduce(r.n); if(r.n.size()>polyLimit) throw TooBig("poly");
  for(auto&x:A.d) if(x.second) addFac(r.d,x.first,x.second); for(auto&x:B.d) if(x.second) addFac(r.d,x.first,x.second);
  if(red) cancel(r); return r;
}
RF rfMul(const RF&a,const RF&b){ return rfMulP(a,b); }
static RF rfInv(const RF&a){
  if(a.n.empty()) throw Unsupported("division by a zero expression");
  RF r; std::vector<std::pair<int,int>> d; mpq_class c=factorize(a.n,d);
  // numerator: product of a.d / c, cancelling common factors
  std::vector<std::pair<int,int>> num=a.d;
  for(auto&x:d) for(auto&y:num) if(y.first==x.first){ int k=std::min(x.second,y.second); x.second-=k; y.second-=k; }
  std::vector<std::pair<int,int>> nn; for(auto&y:num) if(y.second) nn.push_back(y); for(auto&x:d) if(x.second) r.d.push_back(x);
  r.n=pScale(facProd(nn),1/c); 
  cancel(r); return r;
}
bool rfIsZero(const RF*r){ return r->n.empty(); }
bool rfConst(const RF*r,mpq_class&q){ if(r->n.empty()){q=0;return true;} if(!r->d.empty()) return false; if(r->n.size()==1&&r->n[0].m==0){q=r->n[0].c;return true;} return false; }
RF* rfOf(Expr* e){
  if(e->rf) return e->rf; if(e->rfbig) throw TooBig("memo");
  try {
  // iterative post-order to keep recursion shallow
  RF r;
  switch(e->k){
    case RCONST: r.n=pConst(e->q); break;
    case RVAR: r.n=pAtom(e->atom); break;
    case RADD: r=rfAdd(*rfOf(e->a),*rfOf(e->b)); break;
    case RMUL: r=rfMulP(*rfOf(e->a),*rfOf(e->b)); break;
    case RDIV: r=rfMulP(*rfOf(e->a),rfInv(*rfOf(e->b))); break;
    default: throw Unsupported("rf of non-real");
  }
  e->rf=new RF(std::move(r)); return e->rf;
  } catch(TooBig&){ e->rfbig=true; throw; }
}
int rfSign(const RF&r){ int s=polySign(r.n); if(s==3||s==0) return s; for(auto&x:r.d){ if(x.second%2==0) continue; int f=polySign(factors[x.first]); if(f==2||f==1) continue; if(f==-2||f==-1) { s=-s; continue; } return 0; } return s; }
static Expr* polyToExpr(const Poly&p){ Expr* s=mkInt(0); for(auto&t:p){ Expr* m=mkQ(t.c); for(auto&x:monos[t.m]) for(int i=0;i<x.second;i++) m=mkMul(m,atoms[x.first].e); s=mkAdd(s,m);} return s; }
Expr* rfToExpr(const RF&r){ Expr* n=polyToExpr(r.n); for(auto&x:r.d) for(int i=0;i<x.second;i++) n=mkDiv(n,polyToExpr(factors[x.first])); return n; }

// ------------------------------------------------------------------ special functions
static std::map<std::pair<int,std::string>,int> dummy;
SqrtRes exSqrt(Expr* x){
  if(x->k==RCONST){ if(sgn(x->q)<0) throw Unsupported("sqrt of negative constant"); mpz_class n=sqrt(x->q.get_num()),d=sqrt(x->q.get_den()); if(n*n==x->q.get_num()&&d*d==x->q.get_den()) { mpq_class r(n,d); r.canonicalize(); return {false,mkQ(r)}; } }
  RF* r; 
  try { r=rfOf(x); } catch(TooBig&) {
    static std::map<Expr*,int> opaque; auto it=opaque.find(x); int i; if(it==opaque.end()){ i=newAtom("osq"+std::to_string(atoms.size())); atoms[i].alg=true; atoms[i].sqrtArg=x; atoms[i].nonnegFlag=true; opaque[x]=i; if(x->varfree) vf(atoms[i].e,std::sqrt(x->dval),true);} else i=it->second; return {false,atoms[i].e}; }
  if(r->n.empty()) return {false,mkInt(0)};
  Poly M=r->n; std::vector<std::pair<int,int>> half, unk;
  for(auto&f:r->d){ if(f.second%2) M=pMul(M,factors[f.first]); half.push_back({f.first,(f.second+1)/2}); }
  RF outer; outer.n=pConst(1); outer.d=half;
  mpq_class q=content(M); M=pScale(M,1/q);
  // sqrt(q)=sqrt(a*b)/b
  mpz_class ab=q.get_num()*q.get_den(), sqf=1; mpq_class k=1; k/=q.get_den();
  { mpz_class s=sqrt(ab); if(s*s==ab){ k*=s; } else { mpz_class rem=ab; for(unsigned long p=2;p<200;p++){ while(rem%(p*p)==0){rem/=p*p; k*=p;} } sqf=rem; } }
  M=pScale(M,mpq_class(sqf));
  // pull out known positive factors
  MV mc=monoContent(M); MV pull; for(auto&y:mc) if(y.second>=2 && atoms[y.first].pos) pull.push_back({y.first,y.second/2*2});
  if(!pull.empty()){ Poly mm{{internM(pull),mpq_class(1)}},q2; pDivExact(M,mm,q2); M=q2; for(auto&y:pull) outer.n=pMul(outer.n,pPow(pAtom(y.first),y.second/2)); }
  for(size_t i=0;i<factors.size();i++){ if(factors[i].size()<2||polySign(factors[i])!=2) continue; Poly q1,q2; while(pDivExact(M,factors[i],q1)&&pDivExact(q1,factors[i],q2)){ M=q2; outer.n=pMul(outer.n,factors[i]); } }
  outer.n=pScale(outer.n,k);
  Poly root; if(polySqrt(M,root)){ RF v=outer; v.n=pMul(v.n,root); cancel(v); Expr* e=rfToExpr(v); int s=rfSign(v); if(s>0||s==3) return {false,e}; if(s<0) return {false,mkNeg(e)}; return {true,e}; }
  for(auto&f:half){ if(f.second%2==0) continue; int s=polySign(factors[f.first]); if(s!=2&&s!=1) unk.push_back({f.first,1}); }
  int at=-1; for(size_t i=0;i<atoms.size();i++) if(atoms[i].alg&&atoms[i].hasSign&&pEq(atoms[i].rel,M)&&atoms[i].sgnden==unk){at=i;break;}
  if(at<0){ at=newAtom("sq"+std::to_string(atoms.size())); Atom&a=atoms[at]; a.alg=true; a.rel=M; a.hasSign=true; a.sgnden=unk; if(unk.empty()){ a.nonnegFlag=true; if(polySign(M)==2) a.pos=true; }
    if(x->varfree){ std::set<int> s; polyAtoms(M,s); bool okv=true; Env env; double v=0; for(int i:s) if(!atoms[i].e->varfree) okv=false; if(okv){ v=env.real(polyToExpr(M)); vf(a.e,std::sqrt(v),true); if(v>0)a.pos=true; } } }
  RF v=outer; v.n=pMul(v.n,pAtom(at)); cancel(v); return {false,rfToExpr(v)};
}
Expr* exAbs(Expr*x){ // |x| as the nonnegative root of x^2, without splitting cases; null if the sign of a denominator is unknown
  RF*r; try { r=rfOf(x); } catch(TooBig&) { return nullptr; }
  int s=rfSign(*r); if(s==3) return mkInt(0); if(s>0) return x; if(s<0) return mkNeg(x);
  for(auto&f:r->d) if(f.second%2){ int t=polySign(factors[f.first]); if(t==0||t==3) return nullptr; }
  mpq_class q=content(r->n); Poly M=pScale(r->n,1/q); RF outer; outer.n=pConst(q); outer.d=r->d; for(auto&f:r->d) if(f.second%2&&polySign(factors[f.first])<0) outer.n=pScale(outer.n,-1);
  MV pull; for(auto&y:monoContent(M)) if(atoms[y.first].pos) pull.push_back(y);
  if(!pull.empty()){ Poly mm{{internM(pull),mpq_class(1)}},q2; pDivExact(M,mm,q2); M=q2; outer.n=pMul(outer.n,mm); }
  Poly sq=pMul(M,M); int at=-1; for(size_t i=0;i<atoms.size();i++) if(atoms[i].alg&&atoms[i].hasSign&&atoms[i].sgnden.empty()&&pEq(atoms[i].rel,sq)){at=i;break;}
  if(at<0){ if(x->varfree) return nullptr; at=newAtom("abs"+std::to_string(atoms.size())); Atom&a=atoms[at]; a.alg=true; a.rel=sq; a.hasSign=true; a.nonnegFlag=true; }
  outer.n=pMul(outer.n,pAtom(at)); cancel(outer); return rfToExpr(outer);
}
static bool sameRF(Expr*a,Expr*b){ if(a==b) return true; try { return rfIsZero(rfOf(mkSub(a,b))); } catch(TooBig&){ return false; } }
static int ufAtom(const std::string&f,const std::vector<Expr*>&args){
  for(size_t i=0;i<atoms.size();i++){ if(atoms[i].uf!=f||atoms[i].ufargs.size()!=args.size()) continue; bool same=true; for(size_t j=0;j<args.size()&&same;j++) same=sameRF(atoms[i].ufargs[j],args[j]); if(same) return i; }
  int i=newAtom(f+"!"+std::to_string(atoms.size())); atoms[i].uf=f; atoms[i].ufargs=args;
  bool v=true; for(auto*e:args) v&=e->varfree; if(v){ Env env; vf(atoms[i].e,env.real(atoms[i].e),true); }
  return i;
}
Expr* mkUF(const std::string&f,const std::vector<Expr*>&args){ return atoms[ufAtom(f,args)].e; }
static Expr* powInt(Expr*x,long n){ if(n<0) return mkDiv(mkInt(1),powInt(x,-n)); Expr*r=mkInt(1); for(long i=0;i<n;i++) r=mkMul(r,x); return r; }
Expr* exPow(Expr*x,Expr*e){
  mpq_class q; bool ec=e->k==RCONST; if(ec) q=e->q; else { try { ec=rfConst(rfOf(e),q); } catch(TooBig&){} }
  if(ec){
    if(q.get_den()==1&&abs(q)<=64) return powInt(x,q.get_num().get_si());
    mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); mpq_class fr=q-fl;
    if(fr==mpq_class(1,2)){ SqrtRes s=exSqrt(x); if(!s.perfect) return mkMul(powInt(x,fl.get_si()),s.value); }
    int i=ufAtom("pow",{x,mkQ(fr)}); atoms[i].pos=true; return mkMul(powInt(x,fl.get_si()),atoms[i].e);
  }
  if(x->k==RCONST&&x->q==1) return mkInt(1);
  for(size_t i=0;i<atoms.size();i++) if(atoms[i].uf=="pow"&&sameRF(atoms[i].ufargs[0],x)){ try { if(rfConst(rfOf(mkSub(e,atoms[i].ufargs[1])),q)&&q.get_den()==1) return mkMul(atoms[i].e,powInt(x,q.get_num().get_si())); if(rfConst(rfOf(mkAdd(e,atoms[i].ufargs[1])),q)&&q.get_den()==1) return mkDiv(powInt(x,q.get_num().get_si()),atoms[i].e);} catch(TooBig&){} }
  int i=ufAtom("pow",{x,e}); atoms[i].pos=true; return atoms[i].e;
}
Expr* exTrig(const std::string&f,Expr*x){
  if(x->k==RCONST&&x->q==0){ if(f=="sin"||f=="tan"||f=="atan"||f=="tanh") return mkInt(0); if(f=="cos"||f=="exp") return mkInt(1); }
  if(f=="log"&&x->k==RCONST&&x->q==1) return mkInt(0);
  if(f=="sin"){ int c=ufAtom("cos",{x}); int n0=atoms.size(); int s=ufAtom("sin",{x}); if((int)atoms.size()>n0){ atoms[s].alg=true; atoms[s].rel=pAdd(pConst(1),pScale(pMul(pAtom(c),pAtom(c)),-1)); } return atoms[s].e; }
  int i=ufAtom(f,{x}); if(f=="exp") atoms[i].pos=true; return atoms[i].e;
}
Expr* diffExpr(Expr*e,Expr*v,std::unordered_map<Expr*,Expr*>&memo){
  if(e==v) return mkInt(1); if(e->k==RCONST) return mkInt(0);
  auto it=memo.find(e); if(it!=memo.end()) return it->second;
  Expr*r=mkInt(0);
  switch(e->k){
    case RADD: r=mkAdd(diffExpr(e->a,v,memo),diffExpr(e->b,v,memo)); break;
    case RMUL: r=mkAdd(mkMul(diffExpr(e->a,v,memo),e->b),mkMul(e->a,diffExpr(e->b,v,memo))); break;
    case RDIV: { Expr*da=diffExpr(e->a,v,memo),*db=diffExpr(e->b,v,memo); r=mkDiv(da,e->b); if(!(db->k==RCONST&&db->q==0)) r=mkSub(r,mkDiv(mkMul(e,db),e->b)); break; }
    case RVAR: { Atom a=atoms[e->atom]; if(a.input) break;
      if(!a.uf.empty()){
        const std::string&f=a.uf; Expr*x=a.ufargs.empty()?nullptr:a.ufargs[0];
        if(f=="sin") r=mkMul(exTrig("cos",x),diffExpr(x,v,memo));
        else if(f=="cos") r=mkNeg(mkMul(exTrig("sin",x),diffExpr(x,v,memo)));
        else if(f=="exp") r=mkMul(e,diffExpr(x,v,memo));
        else if(f=="log") r=mkDiv(diffExpr(x,v,memo),x);
        else if(f=="pow"){ Expr*dx=diffExpr(x,v,memo),*de=diffExpr(a.ufargs[1],v,memo); r=mkMul(mkDiv(mkMul(a.ufargs[1],e),x),dx); if(!(de->k==RCONST&&de->q==0)) r=mkAdd(r,mkMul(mkMul(exTrig("log",x),e),de)); }
        else { for(size_t k=0;k<a.ufargs.size();k++){ Expr*d=diffExpr(a.ufargs[k],v,memo); if(d->k==RCONST&&d->q==0) continue; r=mkAdd(r,mkMul(mkUF(f+"'"+std::to_string(k),a.ufargs),d)); } }
      } else if(a.alg){ Expr*arg=a.sqrtArg?a.sqrtArg:polyToExpr(a.rel); Expr*d=diffExpr(arg,v,memo); if(!(d->k==RCONST&&d->q==0)) r=mkDiv(d,mkMul(mkInt(2),e)); }
      break; }
    default: throw Unsupported("derivative");
  }
  memo[e]=r; return r;
}
// ------------------------------------------------------------------ numeric evaluation
double ufNative(const std::string&f,const std::vector<double>&a){
  // f, f'k, f'k'l : a fixed smooth function of the arguments and its derivatives
  size_t p=f.find('\''); std::string base=f.substr(0,p); std::vector<int> dk; { std::string s=p==std::string::npos?"":f.substr(p); size_t i=0; while(i<s.size()){ dk.push_back(atoi(s.c_str()+i+1)); i=s.find('\'',i+1); if(i==std::string::npos) break; } }
  unsigned h=2166136261u; for(char c:base) h=(h^(unsigned char)c)*16777619u;
  double s = dk.empty()? ((h%97)/97.0+0.3):0; 
  for(size_t k=0;k<a.size();k++){ unsigned g=(h^(unsigned)(k*2654435761u))*16777619u; double c=((g>>5)%89)/89.0+0.2, d=((g>>13)%83)/166.0-0.2;
    if(dk.empty()) s+=c*a[k]+d*a[k]*a[k]; else if(dk.size()==1&&dk[0]==(int)k) s+=c+2*d*a[k]; else if(dk.size()==2&&dk[0]==(int)k&&dk[1]==(int)k) s+=2*d; }
  return s;
}
double Env::real(Expr*e){
  if(e->k==RCONST) return e->dval; 
  auto it=memo.find(e); if(it!=memo.end()) return it->second; double r=0;
  switch(e->k){
    case RADD: r=real(e->a)+real(e->b); break;
    case RMUL: r=real(e->a)*real(e->b); break;
    case RDIV: r=real(e->a)/real(e->b); break;
    case RVAR: { const Atom&a=atoms[e->atom];
      if(a.input){ auto jt=val.find(e->name); if(jt==val.end()) throw EvalError("no value for "+e->name); r=jt->second; }
      else if(!a.uf.empty()){ std::vector<double> x; for(auto*y:std::vector<Expr*>(a.ufargs)) x.push_back(real(y)); const std::string f=atoms[e->atom].uf;
        if(f=="sin")r=std::sin(x[0]); else if(f=="cos")r=std::cos(x[0]); else if(f=="exp")r=std::exp(x[0]); else if(f=="log")r=std::log(x[0]); else if(f=="pow")r=std::pow(x[0],x[1]); else if(f=="tan")r=std::tan(x[0]); else if(f=="atan")r=std::atan(x[0]); else if(f=="tanh") r=std::tanh(x[0]); else r=ufNative(f,x); }
      else if(a.sqrtArg) r=std::sqrt(real(a.sqrtArg));
      else if(a.alg){ Poly rel=a.rel; auto sd=a.sgnden; bool hs=a.hasSign; double v=0; for(auto&t:rel){ double m=t.c.get_d(); for(auto&x:monos[t.m]) m*=std::pow(real(atoms[x.first].e),x.second); v+=m; } 
        if(!hs){ auto jt=val.find("sgn:"+e->name); r=std::sqrt(v)*((jt!=val.end()&&jt->second<0)?-1:1);} else { r=std::sqrt(v); for(auto&f:sd) { double w=real(polyToExpr(factors[f.first])); if(w<0) r=-r; } } }
      break; }
    default: throw EvalError("kind");
  }
  memo[e]=r; return r;
}
bool Env::boolean(Expr*e){
  switch(e->k){
    case BCONST: return e->op; case BLT: return real(e->a)<real(e->b); case BLE: return real(e->a)<=real(e->b); case BEQ: return real(e->a)==real(e->b);
    case BNOT: return !boolean(e->a); case BAND: return boolean(e->a)&&boolean(e->b); case BOR: return boolean(e->a)||boolean(e->b);
    case BICMP: { uint64_t x=integer(e->a),y=integer(e->b); int w=e->a->width; int64_t sx=sext(x,w),sy=sext(y,w); switch(e->op){case 0:return x==y;case 1:return x!=y;case 2:return x<y;case 3:return x<=y;case 4:return sx<sy;case 5:return sx<=sy;} return false; }
    default: throw EvalError("bool kind"); }
}
uint64_t Env::integer(Expr*e){
  switch(e->k){ case ICONST: return e->iv; case IVAR: { auto it=ival.find(e->name); if(it==ival.end()) throw EvalError("no int "+e->name); return it->second&maskw(e->width);} 
    case IBIN: return foldBin(e->op,e->width,integer(e->a),integer(e->b)); case ICAST: { uint64_t v=integer(e->a); return (e->op==1?(uint64_t)sext(v,e->a->width):v)&maskw(e->width);} case IITE: return boolean(e->a)?integer(e->b):integer(e->c);
    default: throw EvalError("int kind"); }
}
std::string polySmt(const Poly&p){
  if(p.empty()) return "0.0";
  std::ostringstream o; if(p.size()>1) o<<"(+";
  for(auto&t:p){ if(p.size()>1) o<<" "; int nf=0; for(auto&x:monos[t.m]) nf+=x.second; 
    auto num=[&](const mpq_class&q){ std::string s; mpz_class n=abs(q.get_num()); s=n.get_str()+".0"; if(q.get_den()!=1) s="(/ "+s+" "+q.get_den().get_str()+".0)"; if(sgn(q)<0) s="(- "+s+")"; return s; };
    bool one=t.c==1; if(nf==0) { o<<num(t.c); continue; } if(nf==1&&one) { o<<"|"<<atoms[monos[t.m][0].first].name<<"|"; continue; }
    o<<"(*"; if(!one) o<<" "<<num(t.c); for(auto&x:monos[t.m]) for(int i=0;i<x.second;i++) o<<" |"<<atoms[x.first].name<<"|"; o<<")"; }
  if(p.size()>1) o<<")"; return o.str();
}
std::string toStr(Expr*e,int depth){
  if(!e) return "null"; if(depth==0) return "...";
  switch(e->k){ case RCONST: return e->q.get_str(); case RVAR: case IVAR: return e->name; case RADD: return "("+toStr(e->a,depth-1)+"+"+toStr(e->b,depth-1)+")"; case RMUL: return "("+toStr(e->a,depth-1)+"*"+toStr(e->b,depth-1)+")"; case RDIV: return "("+toStr(e->a,depth-1)+"/"+toStr(e->b,depth-1)+")";
   case BCONST: return e->op?"true":"false"; case BLT: return toStr(e->a,depth-1)+"<"+toStr(e->b,depth-1); case BLE: return toStr(e->a,depth-1)+"<="+toStr(e->b,depth-1); case BEQ: return toStr(e->a,depth-1)+"=="+toStr(e->b,depth-1); case BNOT: return "!("+toStr(e->a,depth-1)+")"; case BAND: return "("+toStr(e->a,depth-1)+"&&"+toStr(e->b,depth-1)+")"; case BOR: return "("+toStr(e->a,depth-1)+"||"+toStr(e->b,depth-1)+")"; case BICMP: return "icmp"+std::to_string(e->op)+"("+toStr(e->a,depth-1)+","+toStr(e->b,depth-1)+")"; case ICONST: return std::to_string((int64_t)e->iv); case IBIN: return "bv"+std::to_string(e->op)+"("+toStr(e->a,depth-1)+","+toStr(e->b,depth-1)+")"; case ICAST: return "cast("+toStr(e->a,depth-1)+")"; default: return "?"; }
}
// ------------------------------------------------------------------ canonical sign keys and reasoning modulo equalities
static std::unordered_map<uint64_t,std::vector<int>> keyTab; static std::vector<Poly> keyPoly;
static uint64_t pHash(const Poly&p){ uint64_t h=1469598103934665603ull; for(auto&t:p){ h=(h^(uint64_t)t.m)*1099511628211ull; h=(h^mpz_get_ui(t.c.get_num_mpz_t()))*1099511628211ull; h=(h^mpz_get_ui(t.c.get_den_mpz_t()))*1099511628211ull; h^=(uint64_t)(sgn(t.c)+1)<<40; } return h; }
// sign(e) = orient * sign(keyPoly[id]);  id -1: not available
int signKey(Expr*e,int&orient){
  RF*r=rfOf(e); Poly P=r->n; if(P.empty()) return -1; orient=1;
  for(auto&x:r->d){ if(x.second%2==0) continue; int s=polySign(factors[x.first]); if(s==2||s==1) continue; if(s==-2||s==-1){ orient=-orient; continue; } P=pMul(P,factors[x.first]); }
  if(P.empty()) return -1;
  MV mc=monoContent(P); MV pull; for(auto&y:mc) if(atoms[y.first].pos) pull.push_back(y); else if(y.second>=3) pull.push_back({y.first,(y.second-1)/2*2}); 
  if(!pull.empty()){ Poly mm{{internM(pull),mpq_class(1)}},q; pDivExact(P,mm,q); P=q; }
  if(P.size()<2000) for(size_t i=0;i<factors.size();i++){ if(factors[i].size()<2||factors[i].size()>P.size()) continue; int s=polySign(factors[i]); if(s!=2) continue; Poly q; while(pDivExact(P,factors[i],q)) P=q; }
  mpq_class c=content(P); if(sgn(leadT(P).c)<0){ c=-c; orient=-orient; } P=pScale(P,1/c);
  auto&v=keyTab[pHash(P)]; for(int i:v) if(pEq(keyPoly[i],P)) return i; keyPoly.push_back(P); v.push_back(keyPoly.size()-1); return keyPoly.size()-1;
}
const Poly& signPoly(int id){ return keyPoly[id]; }
int polyKey(const Poly&p0,int&orient){ if(p0.empty()) return -1; Poly P=p0; mpq_class c=content(P); orient=1; if(sgn(leadT(P).c)<0){ c=-c; orient=-1; } P=pScale(P,1/c); auto&v=keyTab[pHash(P)]; for(int i:v) if(pEq(keyPoly[i],P)) return i; return -1; }
static Poly coeffOf(const Poly&p,int at,int e){ Poly r; for(auto&t:p){ int k=0; for(auto&x:monos[t.m]) if(x.first==at) k=x.second; if(k!=e) continue; MV v; for(auto&x:monos[t.m]) if(x.first!=at) v.push_back(x); r.push_back({internM(v),t.c}); } std::sort(r.begin(),r.end(),[](const Term&x,const Term&y){return x.m<y.m;}); return r; }
static int degIn(const Poly&p,int at){ int d=0; for(auto&t:p) for(auto&x:monos[t.m]) if(x.first==at) d=std::max(d,x.second); return d; }
// is N zero whenever all zs vanish?  (sufficient)
bool zeroModulo(const Poly&N0,std::vector<Poly> zs,const std::function<bool(const Poly&)>&nonzero,int depth){
  if(N0.empty()) return true; if(depth>4) return false; Poly N=N0;
  try {
    for(auto&z:zs){ if(z.empty()) continue; Poly q; if(pDivExact(N,z,q)) return true; }
    for(size_t i=0;i<zs.size();i++){ Poly z=zs[i]; if(z.empty()||z.size()>400) continue;
      std::set<int> as; polyAtoms(z,as); std::vector<int> cand(as.rbegin(),as.rend());
      for(int x:cand){ if(degIn(z,x)!=1) continue; Poly k=coeffOf(z,x,1); int s=polySign(k); bool nz=s==2||s==-2||(k.size()==1&&k[0].m==0)||nonzero(k); if(!nz) continue;
        bool usedElsewhere=false; for(auto&a:atoms) if(a.alg&&!a.rel.empty()&&degIn(a.rel,x)>0) usedElsewhere=true; // relations of later atoms would have to be substituted as well
        Poly z0=pScale(coeffOf(z,x,0),-1); auto sub=[&](const Poly&p){ int d=degIn(p,x); if(!d) return p; Poly r; std::vector<Poly> kp(d+1),zp(d+1); kp[0]=zp[0]=pConst(1); for(int j=1;j<=d;j++){ kp[j]=pMul(kp[j-1],k); zp[j]=pMul(zp[j-1],z0);} for(int j=0;j<=d;j++){ Poly c=coeffOf(p,x,j); if(c.empty()) continue; r=pAdd(r,pMul(pMul(c,zp[j]),kp[d-j])); } return r; };
        Poly M=sub(N); if(M.empty()) return true; std::vector<Poly> rest; for(size_t j=0;j<zs.size();j++) if(j!=i) rest.push_back(sub(zs[j])); if(atoms[x].alg&&!atoms[x].rel.empty()) rest.push_back(pAdd(pMul(z0,z0),pScale(pMul(pMul(k,k),atoms[x].rel),-1)));
        if(usedElsewhere) continue;
        if(zeroModulo(M,rest,nonzero,depth+1)) return true; if(depth>1) break; } }
  } catch(TooBig&){ }
  return false; }
