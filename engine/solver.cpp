#include "solver.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <poll.h>
#include <chrono>
#include <sstream>
#include <cstring>
#include <algorithm>
SolverStats sstats; std::string solverCmd="z3-new"; std::string dumpDir;
namespace {
struct Pipe { pid_t pid=-1; int in=-1,out=-1; std::string buf;
  void start(){ int a[2],b[2]; if(pipe(a)||pipe(b)) throw std::runtime_error("pipe"); pid=fork(); if(!pid){ prctl(PR_SET_PDEATHSIG,SIGKILL); dup2(a[0],0); dup2(b[1],1); dup2(b[1],2); close(a[0]);close(a[1]);close(b[0]);close(b[1]); execlp(solverCmd.c_str(),solverCmd.c_str(),"-in","-smt2",(char*)0); _exit(127);} close(a[0]);close(b[1]); in=a[1];out=b[0]; buf.clear(); }
  void stop(){ if(pid>0){ kill(pid,SIGKILL); int st; waitpid(pid,&st,0); close(in);close(out); pid=-1; } }
  bool send(const std::string&s){ size_t o=0; while(o<s.size()){ ssize_t k=write(in,s.data()+o,s.size()-o); if(k<=0) return false; o+=k; } return true; }
  bool line(std::string&l,double tmo){ auto t0=std::chrono::steady_clock::now(); for(;;){ size_t p=buf.find('\n'); if(p!=std::string::npos){ l=buf.substr(0,p); buf.erase(0,p+1); return true; } double el=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); int ms=(int)((tmo-el)*1000); if(ms<=0) return false; pollfd f{out,POLLIN,0}; if(poll(&f,1,ms)<=0) continue; char tmp[65536]; ssize_t k=read(out,tmp,sizeof tmp); if(k<=0) return false; buf.append(tmp,k);} }
} zp;
std::string bvc(uint64_t v,int w){ return "(_ bv"+std::to_string(w>=64?v:(v&((1ull<<w)-1)))+" "+std::to_string(w)+")"; }
struct Emit {
  std::set<int> at; std::set<int> fac; std::map<std::string,int> iv; 
  void poly(const Poly&p){ polyAtoms(p,at); }
  std::string sgnExpr(const RF&r){ // polynomial with the sign of r
    poly(r.n); std::string s=polySmt(r.n); std::string f; bool neg=false;
    for(auto&x:r.d){ int sg=polySign(factors[x.first]); if(sg!=2&&sg!=-2) fac.insert(x.first); if(x.second%2==0) continue; if(sg==2||sg==1) continue; if(sg==-2||sg==-1){neg=!neg;continue;} f+=" "+polySmt(factors[x.first]); poly(factors[x.first]); }
    if(!f.empty()) s="(* "+s+f+")"; if(neg) s="(- "+s+")"; return s; }
  std::string bexp(Expr*e){
    switch(e->k){
      case BCONST: return e->op?"true":"false";
      case BLT: return "(> "+sgnExpr(*rfOf(mkSub(e->b,e->a)))+" 0.0)";
      case BLE: return "(>= "+sgnExpr(*rfOf(mkSub(e->b,e->a)))+" 0.0)";
      case BEQ: { RF*r=rfOf(mkSub(e->a,e->b)); poly(r->n); for(auto&x:r->d){ int sg=polySign(factors[x.first]); if(sg!=2&&sg!=-2) fac.insert(x.first);} return "(= "+polySmt(r->n)+" 0.0)"; }
      case BNOT: return "(not "+bexp(e->a)+")";
      case BAND: return "(and "+bexp(e->a)+" "+bexp(e->b)+")";
      case BOR: return "(or "+bexp(e->a)+" "+bexp(e->b)+")";
      case BICMP: { const char*op[]={"=","distinct","bvult","bvule","bvslt","bvsle"}; return std::string("(")+op[e->op]+" "+iexp(e->a)+" "+iexp(e->b)+")"; }
      default: throw Unsupported("bexp"); } }
  std::string iexp(Expr*e){
    switch(e->k){ case ICONST: return bvc(e->iv,e->width); case IVAR: iv[e->name]=e->width; return "|"+e->name+"|";
      case IBIN: { const char*op[]={"bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem","bvsrem","bvshl","bvlshr","bvashr","bvand","bvor","bvxor"}; return std::string("(")+op[e->op]+" "+iexp(e->a)+" "+iexp(e->b)+")"; }
      case ICAST: { int w0=e->a->width; if(e->op==2) return "((_ extract "+std::to_string(e->width-1)+" 0) "+iexp(e->a)+")"; return std::string("((_ ")+(e->op==1?"sign":"zero")+"_extend "+std::to_string(e->width-w0)+") "+iexp(e->a)+")"; }
      case IITE: return "(ite "+bexp(e->a)+" "+iexp(e->b)+" "+iexp(e->c)+")";
      default: throw Unsupported("iexp"); } }
  std::string num(const mpq_class&q){ std::string s=mpz_class(abs(q.get_num())).get_str()+".0"; if(q.get_den()!=1)s="(/ "+s+" "+q.get_den().get_str()+".0)"; if(sgn(q)<0)s="(- "+s+")"; return s; }
  std::string prelude(){ 
    // close over definitions
    std::string asserts; std::set<int> done, fdone; bool ch=true;
    while(ch){ ch=false; 
      for(int i:std::set<int>(at)){ if(done.count(i)) continue; done.insert(i); ch=true; const Atom a=atoms[i]; std::string n="|"+a.name+"|";
        if(a.pos) asserts+="(assert (> "+n+" 0.0))\n"; else if(a.nonnegFlag) asserts+="(assert (>= "+n+" 0.0))\n";
        if(a.uf=="pow"&&a.ufargs.size()==2&&a.ufargs[1]->k==RCONST&&a.ufargs[1]->q>0&&a.ufargs[1]->q<1){ try { Expr*x=a.ufargs[0],*one=mkInt(1),*y=a.e; std::string up=bexp(mkLT(one,x)),lo=bexp(mkLT(x,one)); // monotone powers
            asserts+="(assert (=> "+up+" (and "+bexp(mkLT(one,y))+" "+bexp(mkLT(y,x))+")))\n(assert (=> "+lo+" "+bexp(mkLT(y,one))+"))\n(assert (=> (not (or "+up+" "+lo+")) "+bexp(mkEQ(y,one))+"))\n"; } catch(TooBig&){} catch(Unsupported&){} }
        if(a.hasLo) asserts+="(assert (>= "+n+" "+num(a.lo)+"))\n"; if(a.hasHi) asserts+="(assert (<= "+n+" "+num(a.hi)+"))\n";
        if(a.alg&&!a.rel.empty()){ poly(a.rel); asserts+="(assert (= (* "+n+" "+n+") "+polySmt(a.rel)+"))\n"; if(a.hasSign&&!a.sgnden.empty()){ std::string s="(* "+n; for(auto&f:a.sgnden){ s+=" "+polySmt(factors[f.first]); poly(factors[f.first]); } asserts+="(assert (>= "+s+") 0.0))\n"; } } }
      for(int f:std::set<int>(fac)){ if(fdone.count(f)) continue; fdone.insert(f); ch=true; poly(factors[f]); asserts+="(assert (not (= "+polySmt(factors[f])+" 0.0)))\n"; } }
    std::string d; for(int i:at) d+="(declare-const |"+atoms[i].name+"| Real)\n"; for(auto&x:iv) d+="(declare-const |"+x.first+"| (_ BitVec "+std::to_string(x.second)+"))\n"; return d+asserts; }
};
int qn=0;
Res run(const std::string&body,int tmo,bool nra,std::vector<std::string>*values,const std::vector<std::string>&names){
  auto t0=std::chrono::steady_clock::now();
  if(zp.pid<0) zp.start();
  std::string s="(reset)\n(set-option :timeout "+std::to_string(tmo)+")\n"; if(nra) s+="(set-logic QF_NRA)\n"; s+=body+"(check-sat)\n(echo \"@@\")\n";
  if(!dumpDir.empty()){ FILE*f=fopen((dumpDir+"/q"+std::to_string(qn++)+".smt2").c_str(),"w"); if(f){ fputs(s.c_str(),f); fclose(f);} }
  sstats.queries++; Res r=UNKNOWN; bool err=false;
  if(!zp.send(s)){ zp.stop(); } else { std::string l; std::string first; 
    for(;;){ if(!zp.line(l,tmo/1000.0+2)){ zp.stop(); err=true; break; } if(l=="@@") break; if(l=="sat"||l=="unsat"||l=="unknown"||l=="timeout") { first=l; } else if(l.find("error")!=std::string::npos) { err=true; fprintf(stderr,"solver: %s\n",l.c_str()); } }
    if(!err) r= first=="sat"?SAT: first=="unsat"?UNSAT:UNKNOWN;
    if(r==SAT&&values&&!names.empty()){ std::string g="(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n"; for(auto&n:names) g+="(get-value (|"+n+"|))\n(echo \"@@\")\n"; if(zp.send(g)){ for(size_t i=0;i<names.size();i++){ std::string v; for(;;){ if(!zp.line(l,5)){ zp.stop(); break; } if(l=="@@")break; v+=l; } values->push_back(v); if(zp.pid<0) break; } } } }
  sstats.time+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  if(r==SAT)sstats.sat++; else if(r==UNSAT)sstats.unsat++; else sstats.unknown++;
  return r;
}
double parseNum(std::string s){ // handles (- x), (/ a b), decimals with ?
  size_t p=0; std::function<double()> rec=[&]()->double{ while(p<s.size()&&s[p]==' ')p++; if(s[p]=='('){ p++; while(s[p]==' ')p++; char op=s[p]; p++; double a=rec(); while(p<s.size()&&s[p]==' ')p++; if(s[p]==')'){p++; return op=='-'?-a:a;} double b=rec(); while(p<s.size()&&s[p]!=')')p++; p++; return op=='/'?a/b:op=='-'?a-b:op=='+'?a+b:a*b; } size_t e=p; while(e<s.size()&&s[e]!=' '&&s[e]!=')')e++; std::string t=s.substr(p,e-p); p=e; while(!t.empty()&&t.back()=='?')t.pop_back(); return atof(t.c_str()); };
  return rec(); }
}
Res solve(const std::vector<Expr*>&conds,int tmo,Model*m,const std::vector<std::string>&extra){
  Emit E; std::string body; 
  try { for(Expr*c:conds){ std::string b=E.bexp(c); if(b.size()>400000) return UNKNOWN; body+="(assert "+b+")\n"; } } catch(TooBig&){ return UNKNOWN; } catch(Unsupported&){ return UNKNOWN; }
  std::string pre=E.prelude(); for(auto&x:extra) body+=x+"\n";
  std::vector<std::string> names,vals; if(m){ for(int i:E.at) if(atoms[i].input) names.push_back(atoms[i].name); for(auto&x:E.iv) names.push_back(x.first); }
  Res r=run(pre+body,tmo,E.iv.empty(),m?&vals:nullptr,names);
  if(r==SAT&&m){ for(size_t i=0;i<vals.size();i++){ std::string v=vals[i]; size_t p=v.find(names[i]); if(p==std::string::npos) continue; p+=names[i].size(); if(p<v.size()&&v[p]=='|')p++; std::string t=v.substr(p); while(!t.empty()&&(t.back()==')')) { // strip the two closing parens only
          t.pop_back(); break; } if(!t.empty()&&t.back()==')') t.pop_back();
      if(E.iv.count(names[i])){ size_t h=t.find("#x"); size_t b=t.find("#b"); uint64_t x=0; if(h!=std::string::npos) x=strtoull(t.c_str()+h+2,0,16); else if(b!=std::string::npos) x=strtoull(t.c_str()+b+2,0,2); else { size_t k=t.find("bv"); if(k!=std::string::npos) x=strtoull(t.c_str()+k+2,0,10);} m->ints[names[i]]=x; }
      else m->real[names[i]]=parseNum(t); } }
  return r;
}
Res confirmEq(Expr*l,Expr*r,int tmo){
  try { RF*a=rfOf(l),*b=rfOf(r); if((double)a->n.size()*(b->d.size()?20:1)>4000||(double)b->n.size()*(a->d.size()?20:1)>4000) return UNKNOWN;
    Emit E; E.poly(a->n); E.poly(b->n); auto den=[&](RF*x){ std::string s; for(auto&f:x->d){ E.poly(factors[f.first]); for(int i=0;i<f.second;i++) s+=" "+polySmt(factors[f.first]); } return s; };
    std::string da=den(a),db=den(b); std::string L=polySmt(a->n),R=polySmt(b->n); if(!db.empty())L="(* "+L+db+")"; if(!da.empty())R="(* "+R+da+")"; if(L.size()+R.size()>300000) return UNKNOWN;
    std::string pre=E.prelude(); return run(pre+"(assert (not (= "+L+" "+R+")))\n",tmo,true,nullptr,{}); } catch(TooBig&){ return UNKNOWN; } 
}
