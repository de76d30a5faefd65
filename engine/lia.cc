// Integer view of bit-vector constraints. A term is translated to the integer
// it denotes (two's complement value) only where the value ranges show that no
// operation wraps, so the translation is exact; constraints that cannot be
// translated are dropped, which keeps "unsat" sound.
#include "smt.h"
#include <map>
#include <unordered_map>
namespace sx {
namespace {
struct Lia {
  bool lin=false; std::map<std::vector<uint32_t>,std::string> monos; // products as opaque integers
  std::string mono(const std::vector<E>& m){ if(m.size()==1) return tr(m[0]); std::vector<uint32_t> k; for(E e:m) k.push_back(e->id); auto it=monos.find(k); if(it!=monos.end()) return it->second;
    i128 lo=1,hi=1; const i128 B=(i128)1<<62; for(E e:m){ if(lo<-B||hi>B) return ""; i128 p[4]={lo*e->smin,lo*e->smax,hi*e->smin,hi*e->smax}; lo=hi=p[0]; for(i128 x:p){ if(x<lo) lo=x; if(x>hi) hi=x; } } if(m.size()==2&&m[0]==m[1]&&lo<0) lo=0;
    std::string n="m"+std::to_string(monos.size()); defs+="(declare-const "+n+" Int)\n(assert (and (<= "+num(lo)+" "+n+") (<= "+n+" "+num(hi)+")))\n"; monos[k]=n; return n; }
  std::string poly(E e){ std::vector<std::pair<std::vector<E>,i128>> t; if(!lin||!polyTerms(e,t)) return ""; std::string s; for(auto& x:t){ std::string m=x.first.empty()?"":mono(x.first); if(m.empty()&&!x.first.empty()) return ""; s+=m.empty()?" "+num(x.second):" (* "+num(x.second)+" "+m+")"; } return t.size()==1?s.substr(1):"(+"+s+")"; }
  std::string defs; std::unordered_map<E,int> memo; // id or -1
  std::vector<uint32_t> vars; bool nonlin=false; int n=0;
  static std::string num(i128 v){ bool neg=v<0; u128 u=neg?-(u128)v:(u128)v; std::string s; if(!u) s="0"; while(u){ s.insert(s.begin(),char('0'+(int)(u%10))); u/=10; } return neg?"(- "+s+")":s; }
  static i128 sg(u128 c,unsigned w){ if(w>=128) return (i128)c; return (i128)(c<<(128-w))>>(128-w); }
  static bool fits(i128 lo,i128 hi,unsigned w){ if(w>=64) w=64; return lo>=-((i128)1<<(w-1))&&hi<=((i128)1<<(w-1))-1; }
  bool b1(E e){ return e->w==1&&!e->isFP(); }
  std::string nm(E e){ return "t"+std::to_string(e->id); }
  std::string uns(E e,const std::string& s){ if(e->smin>=0) return s; return "(ite (< "+s+" 0) (+ "+s+" "+num((i128)1<<e->w)+") "+s+")"; }
  std::string p2(unsigned k){ return num((i128)1<<k); }
  // Bool or Int term for e; empty when not translatable
  std::string tr(E e){
    if(e->op==O_CONST){ if(e->isFP()) return ""; if(e->w==1) return e->c?"true":"false"; if(e->w>64) return ""; return num(sg(e->c,e->w)); }
    auto it=memo.find(e); if(it!=memo.end()) return it->second<0?"":nm(e);
    std::string d=e->isFP()||e->w>64?"":build(e);
    if(d.empty()){ memo[e]=-1; return ""; }
    memo[e]=1; if(e->op!=O_VAR) defs+="(define-fun "+nm(e)+" () "+(b1(e)?"Bool ":"Int ")+d+")\n"; return nm(e);
  }
  // a single-bit operand as 0/1
  std::string bi(E e){ std::string s=tr(e); if(s.empty()) return s; return e->w==1?"(ite "+s+" 1 0)":s; }
  std::string build(E e){
    auto K=[&](int i){ return e->k[i]; };
    if(e->op==O_VAR){ if(e->w==1){ defs+="(declare-const "+nm(e)+" Bool)\n"; } else { defs+="(declare-const "+nm(e)+" Int)\n(assert (and (<= "+num(e->smin)+" "+nm(e)+") (<= "+nm(e)+" "+num(e->smax)+")))\n"; } vars.push_back(e->imm0); return nm(e); }
    if(b1(e)) switch(e->op){
      case O_AND: case O_OR: case O_XOR: { std::string a=tr(K(0)),b=tr(K(1)); if(a.empty()||b.empty()) return ""; return std::string("(")+(e->op==O_AND?"and ":e->op==O_OR?"or ":"xor ")+a+" "+b+")"; }
      case O_NOT: { std::string a=tr(K(0)); return a.empty()?"":"(not "+a+")"; }
      case O_ITE: { std::string c=tr(K(0)),a=tr(K(1)),b=tr(K(2)); if(c.empty()||a.empty()||b.empty()) return ""; return "(ite "+c+" "+a+" "+b+")"; }
      case O_EQ: { if(K(0)->isFP()) return ""; std::string a=tr(K(0)),b=tr(K(1)); if(a.empty()||b.empty()) return ""; return "(= "+a+" "+b+")"; }
      case O_SLT: case O_SLE: { if(K(0)->w==1) return ""; std::string a=tr(K(0)),b=tr(K(1)); if(a.empty()||b.empty()) return ""; return std::string("(")+(e->op==O_SLT?"< ":"<= ")+a+" "+b+")"; }
      case O_ULT: case O_ULE: { if(K(0)->w==1||K(0)->w>62) return ""; std::string a=tr(K(0)),b=tr(K(1)); if(a.empty()||b.empty()) return ""; return std::string("(")+(e->op==O_ULT?"< ":"<= ")+uns(K(0),a)+" "+uns(K(1),b)+")"; }
      case O_EXTRACT: { E a=K(0); if(a->w==1||a->w>62) return ""; std::string s=tr(a); if(s.empty()) return ""; if(e->imm0==(int)a->w-1) return "(< "+s+" 0)"; return "(= (mod (div "+s+" "+p2(e->imm0)+") 2) 1)"; }
      default: return "";
    }
    if(lin&&(e->op==O_ADD||e->op==O_SUB||e->op==O_MUL||e->op==O_SHL||e->op==O_CONCAT||e->op==O_SEXT||e->op==O_ZEXT||e->op==O_EXTRACT)){ std::string s=poly(e); if(!s.empty()) return s; }
    switch(e->op){
      case O_ITE: { std::string c=tr(K(0)),a=tr(K(1)),b=tr(K(2)); if(c.empty()||a.empty()||b.empty()) return ""; return "(ite "+c+" "+a+" "+b+")"; }
      case O_ADD: case O_SUB: { i128 lo=e->op==O_ADD?(i128)K(0)->smin+K(1)->smin:(i128)K(0)->smin-K(1)->smax, hi=e->op==O_ADD?(i128)K(0)->smax+K(1)->smax:(i128)K(0)->smax-K(1)->smin;
        if(!fits(lo,hi,e->w)) return ""; std::string a=tr(K(0)),b=tr(K(1)); if(a.empty()||b.empty()) return ""; return std::string("(")+(e->op==O_ADD?"+ ":"- ")+a+" "+b+")"; }
      case O_MUL: { i128 p[4]={(i128)K(0)->smin*K(1)->smin,(i128)K(0)->smin*K(1)->smax,(i128)K(0)->smax*K(1)->smin,(i128)K(0)->smax*K(1)->smax}; i128 lo=p[0],hi=p[0]; for(i128 x:p){ if(x<lo) lo=x; if(x>hi) hi=x; }
        if(!fits(lo,hi,e->w)) return ""; std::string a=tr(K(0)),b=tr(K(1)); if(a.empty()||b.empty()) return ""; if(!K(0)->isConst()&&!K(1)->isConst()) nonlin=true; return "(* "+a+" "+b+")"; }
      case O_SEXT: { if(K(0)->w==1) { std::string a=tr(K(0)); return a.empty()?"":"(ite "+a+" (- 1) 0)"; } return tr(K(0)); }
      case O_ZEXT: { if(K(0)->w==1) return bi(K(0)); if(K(0)->w>62) return ""; std::string a=tr(K(0)); return a.empty()?"":uns(K(0),a); }
      case O_EXTRACT: { E a=K(0); if(a->w>62) { if(!(e->imm0==0&&fits(a->smin,a->smax,e->w))) return ""; } std::string s=tr(a); if(s.empty()) return "";
        if(e->imm0==0&&fits(a->smin,a->smax,e->w)) return s;
        std::string q=e->imm0?"(div "+s+" "+p2(e->imm0)+")":s; if(e->imm0+e->w==a->w) return q;
        std::string m="(mod "+q+" "+p2(e->w)+")"; return "(ite (< "+m+" "+p2(e->w-1)+") "+m+" (- "+m+" "+p2(e->w)+"))"; }
      case O_CONCAT: { if(e->w>62) return ""; E h=K(0),l=K(1); std::string a=h->w==1?"":tr(h); if(h->w==1){ std::string t=tr(h); if(t.empty()) return ""; a="(ite "+t+" (- 1) 0)"; } if(a.empty()) return "";
        std::string b=bi(l); if(b.empty()) return ""; if(l->w>1) b=uns(l,b); return "(+ (* "+p2(l->w)+" "+a+") "+b+")"; }
      case O_SHL: { if(!K(1)->isConst()||K(1)->c>=60) return ""; unsigned k=(unsigned)K(1)->c; if(!fits((i128)K(0)->smin<<k,(i128)K(0)->smax<<k,e->w)) return ""; std::string a=tr(K(0)); return a.empty()?"":"(* "+p2(k)+" "+a+")"; }
      case O_ASHR: { if(!K(1)->isConst()||K(1)->c>=60) return ""; std::string a=tr(K(0)); return a.empty()?"":"(div "+a+" "+p2((unsigned)K(1)->c)+")"; }
      case O_LSHR: { if(!K(1)->isConst()||K(1)->c>=60||K(0)->smin<0) return ""; std::string a=tr(K(0)); return a.empty()?"":"(div "+a+" "+p2((unsigned)K(1)->c)+")"; }
      case O_UDIV: case O_UREM: { if(!K(1)->isConst()||K(0)->smin<0||K(1)->smin<=0) return ""; std::string a=tr(K(0)); return a.empty()?"":std::string("(")+(e->op==O_UDIV?"div ":"mod ")+a+" "+num(K(1)->smin)+")"; }
      case O_AND: { E a=K(0),b=K(1); if(a->isConst()) std::swap(a,b); if(!b->isConst()||a->w>62) return ""; u128 m=b->c; if(m==0||(m&(m+1))!=0) return ""; unsigned k=0; while((m>>k)&1) k++; if(k>=a->w) return ""; std::string s=tr(a); return s.empty()?"":"(mod "+s+" "+p2(k)+")"; }
      default: return "";
    }
  }
};
}
// Integer translation of cs. complete: every constraint was translated.
bool toLia(const std::vector<E>& cs,std::string& out,bool& complete,bool& nonlin,std::vector<uint32_t>* vars,bool linearize){
  Lia l; l.lin=linearize; complete=true; std::string as; int used=0; 
  for(E c:cs){ std::string s=l.tr(c); if(s.empty()){ complete=false; continue; } as+="(assert "+s+")\n"; used++; }
  if(!l.monos.empty()) complete=false; nonlin=l.nonlin; out=l.defs+as; if(vars) *vars=l.vars; return used>0;
}
}
