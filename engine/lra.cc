// Real-arithmetic over-approximation of float constraints. Every float node is
// a finite flag and a real value; an inexact operation is the exact real result
// plus a rounding error bounded as IEEE round-to-nearest guarantees, and rounding
// is monotone. Whatever cannot be expressed becomes an unconstrained value inside
// its known range, so only "unsat" of the translation is meaningful.
#include "smt.h"
#include <cmath>
#include <map>
#include <set>
#include <unordered_map>
namespace sx {
namespace {
struct Lra {
  std::string o; std::unordered_map<E,int> memo; bool nonlin=false, inexact=false; int fresh=0;
  struct Inx { std::string x, r, n; SortK sk; }; std::vector<Inx> inx; std::vector<E> leaves; std::map<int,std::vector<E>> ufs; std::vector<E> axq; std::set<E> axdone; struct Div { std::string q,a,b,r,ok,rok; }; std::vector<Div> divs; struct Rint { std::string x,r,f; int m; }; std::vector<Rint> rints; std::set<double> cmpK;
  static std::string dec(u128 u){ std::string s; if(!u) s="0"; while(u){ s.insert(s.begin(),char('0'+(int)(u%10))); u/=10; } return s; }
  static std::string num(i128 v){ return v<0?"(- "+dec(-(u128)v)+".0)":dec(v)+".0"; }
  static std::string p2(int k){ // 2^k as a real
    if(k<0) return "(/ 1.0 "+p2(-k)+")"; std::string s="1"; for(int i=0;i<k;i++){ int c=0; for(int j=(int)s.size()-1;j>=0;j--){ int d=(s[j]-'0')*2+c; s[j]=char('0'+d%10); c=d/10; } if(c) s.insert(s.begin(),char('0'+c)); } return s+".0"; }
  static std::string dbl(std::string s,int k){ s.resize(s.size()-2); for(int i=0;i<k;i++){ int c=0; for(int j=(int)s.size()-1;j>=0;j--){ int d=(s[j]-'0')*2+c; s[j]=char('0'+d%10); c=d/10; } if(c) s.insert(s.begin(),char('0'+c)); } return s+".0"; }
  static std::string num(double d){ if(d==0) return "0.0"; int ex; double m=std::frexp(std::fabs(d),&ex); i128 k=(i128)std::ldexp(m,53); ex-=53; while(!(k&1)){ k>>=1; ex++; } std::string s=ex>=0?dbl(num(k),ex):"(/ "+num(k)+" "+p2(-ex)+")"; return d<0?"(- "+s+")":s; }
  static bool fits(i128 lo,i128 hi,unsigned w){ if(w>=64) w=64; return lo>=-((i128)1<<(w-1))&&hi<=((i128)1<<(w-1))-1; }
  static i128 sg(u128 c,unsigned w){ if(w>=128) return (i128)c; return (i128)(c<<(128-w))>>(128-w); }
  std::string nm(E e){ return "t"+std::to_string(e->id); }
  std::string fin(E e){ if(e->isConst()) return std::isfinite(val(e))?"true":"false"; if(!e->fnan&&std::isfinite(e->flo)&&std::isfinite(e->fhi)) return "true"; return "n"+std::to_string(e->id); }
  static double val(E e){ return e->sk==S_F32?(double)asF32(e->c):asF64(e->c); }
  void A(const std::string& s){ o+="(assert "+s+")\n"; }
  std::string imp(const std::string& a,const std::string& b){ return a=="true"?b:"(=> "+a+" "+b+")"; }
  std::string both(const std::string& a,const std::string& b){ if(a=="true") return b; if(b=="true"||a==b) return a; if(a=="false"||b=="false") return "false"; return "(and "+a+" "+b+")"; }
  std::string num2(int64_t v){ return num((i128)v); }
  std::set<E> sgd; std::string sgn(E e){ std::string n="s"+std::to_string(e->id); if(sgd.insert(e).second) o+="(declare-const "+n+" Bool)\n"; return n; } // the infinity a non-finite operand must be
  std::string bfresh(){ std::string b="b"+std::to_string(fresh++); o+="(declare-const "+b+" Bool)\n"; return b; }
  void decl(E e){ o+="(declare-const "+nm(e)+" Real)\n"; if(e->w>1&&e->w<=64) A("(and (<= "+num2(e->smin)+" "+nm(e)+") (<= "+nm(e)+" "+num2(e->smax)+"))"); }
  // unsigned view
  std::string uns(E e,const std::string& s){ if(e->smin>=0) return s; return "(ite (< "+s+" 0.0) (+ "+s+" "+p2(e->w)+") "+s+")"; }
  std::string tr(E e){
    if(e->op==O_CONST){ if(e->isFP()){ double v=val(e); return std::isfinite(v)?num(v):"0.0"; } if(e->w==1) return e->c?"true":"false"; return num(sg(e->c,e->w)); }
    auto it=memo.find(e); if(it!=memo.end()) return nm(e); memo[e]=1;
    if(e->isFP()) fp(e); else if(e->w==1) bo(e); else bv(e);
    return nm(e);
  }
  void def(E e,const char* s,const std::string& d){ o+="(define-fun "+nm(e)+" () "+s+" "+d+")\n"; }
  void bv(E e){
    auto K=[&](int i){ return e->k[i]; };
    if(e->w>64){ o+="(declare-const "+nm(e)+" Real)\n"; return; }
    switch(e->op){
      case O_ITE: { std::string c=tr(K(0)),a=tr(K(1)),b=tr(K(2)); def(e,"Real","(ite "+c+" "+a+" "+b+")"); return; }
      case O_ADD: case O_SUB: { i128 lo=e->op==O_ADD?(i128)K(0)->smin+K(1)->smin:(i128)K(0)->smin-K(1)->smax, hi=e->op==O_ADD?(i128)K(0)->smax+K(1)->smax:(i128)K(0)->smax-K(1)->smin; if(!fits(lo,hi,e->w)) break; std::string a=tr(K(0)),b=tr(K(1)); def(e,"Real",std::string("(")+(e->op==O_ADD?"+ ":"- ")+a+" "+b+")"); return; }
      case O_MUL: { i128 p[4]={(i128)K(0)->smin*K(1)->smin,(i128)K(0)->smin*K(1)->smax,(i128)K(0)->smax*K(1)->smin,(i128)K(0)->smax*K(1)->smax}; i128 lo=p[0],hi=p[0]; for(i128 x:p){ if(x<lo) lo=x; if(x>hi) hi=x; } if(!fits(lo,hi,e->w)) break; std::string a=tr(K(0)),b=tr(K(1)); if(!K(0)->isConst()&&!K(1)->isConst()) nonlin=true; def(e,"Real","(* "+a+" "+b+")"); return; }
      case O_SEXT: case O_ZEXT: { E k=K(0); if(k->w==1){ std::string a=tr(k); def(e,"Real","(ite "+a+(e->op==O_SEXT?" (- 1.0)":" 1.0")+" 0.0)"); return; } std::string a=tr(k); def(e,"Real",e->op==O_SEXT?a:uns(k,a)); return; }
      case O_EXTRACT: { E a=K(0); if(e->imm0==0&&a->w<=64&&fits(a->smin,a->smax,e->w)){ std::string s=tr(a); def(e,"Real",s); return; } break; }
      case O_SHL: { if(!K(1)->isConst()||K(1)->c>=60||!fits((i128)K(0)->smin<<(int)K(1)->c,(i128)K(0)->smax<<(int)K(1)->c,e->w)) break; std::string a=tr(K(0)); def(e,"Real","(* "+p2((int)K(1)->c)+" "+a+")"); return; }
      case O_FPTOSI: case O_FPTOUI: { E a=K(0); std::string s=tr(a),f=fin(a); decl(e); std::string n=nm(e);
        bool u=e->op==O_FPTOUI; std::string v=u?uns(e,n):n, lo=u?"(- 1.0)":"(- (- "+p2(e->w-1)+") 1.0)", hi=p2(u?e->w:e->w-1); std::string g=both(f,"(and (< "+lo+" "+s+") (< "+s+" "+hi+"))");
        if(a->op==O_FRINT){ A(imp(g,"(= "+v+" "+s+")")); return; } // already integral
        A(imp(g,"(ite (>= "+s+" 0.0) (and (<= "+v+" "+s+") (< (- "+s+" 1.0) "+v+") (>= "+v+" 0.0)) (and (>= "+v+" "+s+") (> (+ "+s+" 1.0) "+v+") (<= "+v+" 0.0)))")); return; }
      default: break;
    }
    decl(e);
  }
  void bo(E e){
    auto K=[&](int i){ return e->k[i]; };
    switch(e->op){
      case O_AND: case O_OR: case O_XOR: { std::string a=tr(K(0)),b=tr(K(1)); def(e,"Bool",std::string("(")+(e->op==O_AND?"and ":e->op==O_OR?"or ":"xor ")+a+" "+b+")"); return; }
      case O_NOT: { std::string a=tr(K(0)); def(e,"Bool","(not "+a+")"); return; }
      case O_ITE: { std::string c=tr(K(0)),a=tr(K(1)),b=tr(K(2)); def(e,"Bool","(ite "+c+" "+a+" "+b+")"); return; }
      case O_EQ: { std::string a=tr(K(0)),b=tr(K(1)); if(K(0)->isFP()){ o+="(declare-const "+nm(e)+" Bool)\n"; std::string f=both(fin(K(0)),fin(K(1))); A(imp(f,"(and (=> "+nm(e)+" (= "+a+" "+b+")) (=> (and (= "+a+" "+b+") (not (= "+a+" 0.0))) "+nm(e)+"))")); A(imp(nm(e),"(= "+fin(K(0))+" "+fin(K(1))+")")); return; }
        if(K(0)->w>64) break; def(e,"Bool","(= "+a+" "+b+")"); return; }
      case O_SLT: case O_SLE: { if(K(0)->w==1||K(0)->w>64) break; std::string a=tr(K(0)),b=tr(K(1)); def(e,"Bool",std::string("(")+(e->op==O_SLT?"< ":"<= ")+a+" "+b+")"); return; }
      case O_ULT: case O_ULE: { if(K(0)->w==1||K(0)->w>64) break; std::string a=tr(K(0)),b=tr(K(1)); def(e,"Bool",std::string("(")+(e->op==O_ULT?"< ":"<= ")+uns(K(0),a)+" "+uns(K(1),b)+")"); return; }
      case O_FEQ: case O_FLT: case O_FLE: { for(int i=0;i<2;i++) if(K(i)->isConst()&&std::isfinite(val(K(i)))&&K(i)->sk==S_F32) cmpK.insert(val(K(i))); std::string a=tr(K(0)),b=tr(K(1)),fa=fin(K(0)),fb=fin(K(1)); std::string op=e->op==O_FEQ?"=":e->op==O_FLT?"<":"<="; std::string f=both(fa,fb), c="("+op+" "+a+" "+b+")";
        if(f=="true"){ def(e,"Bool",c); return; } o+="(declare-const "+nm(e)+" Bool)\n"; if(f!="false") A("(=> "+f+" (= "+nm(e)+" "+c+"))");
        auto inf=[&](E k,int s){ return k->isConst()&&std::isinf(val(k))&&(val(k)>0)==(s>0); };
        if(e->op==O_FEQ){ if(f!="false") A("(=> (and "+nm(e)+" (or "+fa+" "+fb+")) "+f+")"); else if(K(1)->isConst()) A(imp(fa,"(not "+nm(e)+")")); else A(imp(fb,"(not "+nm(e)+")")); }
        if(e->op!=O_FEQ&&f!="false"){ if(fb!="true"&&!K(1)->isConst()) A("(=> (and "+nm(e)+" "+fa+" (not "+fb+")) "+sgn(K(1))+")"); if(fa!="true"&&!K(0)->isConst()) A("(=> (and "+nm(e)+" "+fb+" (not "+fa+")) (not "+sgn(K(0))+"))"); }
        if(e->op!=O_FEQ){ if(inf(K(1),1)){ A(imp(fa,nm(e))); if(e->op==O_FLT&&!(K(0)->flo<=-INFINITY)) A(imp(nm(e),fa)); } if(inf(K(0),-1)) { A(imp(fb,nm(e))); if(e->op==O_FLT&&!(K(1)->fhi>=INFINITY)) A(imp(nm(e),fb)); }
          if(inf(K(1),-1)) A(imp(fa,"(not "+nm(e)+")")); if(inf(K(0),1)) A(imp(fb,"(not "+nm(e)+")"));
          if(K(0)->isConst()&&std::isnan(val(K(0)))) A("(not "+nm(e)+")"); if(K(1)->isConst()&&std::isnan(val(K(1)))) A("(not "+nm(e)+")"); }
        return; }
      case O_FISNAN: { tr(K(0)); std::string f=fin(K(0)); if(f=="true"){ def(e,"Bool","false"); return; } o+="(declare-const "+nm(e)+" Bool)\n"; if(f!="false") A("(=> "+f+" (not "+nm(e)+"))"); return; }
      case O_EXTRACT: { E b=K(0); if(b->op!=O_FBITS||e->imm0!=(int)b->w-1) break; std::string x=tr(b->k[0]),f=fin(b->k[0]); o+="(declare-const "+nm(e)+" Bool)\n"; A(imp(f,"(and (=> (< "+x+" 0.0) "+nm(e)+") (=> (> "+x+" 0.0) (not "+nm(e)+")))")); return; }
      default: break;
    }
    o+="(declare-const "+nm(e)+" Bool)\n";
  }
  static int expo(double r){ int ex; std::frexp(r,&ex); return ex; } // r < 2^ex
  void round(E e,const std::string& x,const std::string& fins,bool under){
    inexact=true; std::string r=nm(e),f=fin(e); int P=e->sk==S_F32?24:53, emin=e->sk==S_F32?-149:-1074; double R=std::max(std::fabs(e->flo),std::fabs(e->fhi));
    std::string xx="x"+std::to_string(e->id); o+="(define-fun "+xx+" () Real "+x+")\n";
    if(f!="true"){ o+="(declare-const "+f+" Bool)\n"; std::string ov=e->sk==S_F32?num(std::ldexp(1.0,128)-std::ldexp(1.0,103)):"(- "+p2(1024)+" "+p2(970)+")"; 
      if(!fins.empty()) A("(= "+f+" (and "+fins+" (< "+xx+" "+ov+") (< (- "+ov+") "+xx+")))"); }
    std::string er="(- "+r+" "+xx+")", u=p2(-P); std::string eta=under?p2(emin-1):"0.0";
    std::string pos="(* "+u+" "+xx+")"; if(under) pos="(+ "+pos+" "+eta+")"; std::string neg="(- (* "+u+" "+xx+"))"; if(under) neg="(+ "+neg+" "+eta+")";
    A(imp(f,"(ite (>= "+xx+" 0.0) (and (<= (- "+pos+") "+er+") (<= "+er+" "+pos+") (>= "+r+" 0.0)) (and (<= (- "+neg+") "+er+") (<= "+er+" "+neg+") (<= "+r+" 0.0)))"));
    if(!under) A(imp(f,"(= (= "+xx+" 0.0) (= "+r+" 0.0))"));
    if(std::isfinite(R)&&R>0){ int ex=expo(R); std::string k=p2(std::max(ex-P-1,emin-1)); A(imp(f,"(and (<= "+er+" "+k+") (<= (- "+k+") "+er+"))")); }
    inx.push_back({xx,r,f,e->sk});
  }
  void fp(E e){
    auto K=[&](int i){ return e->k[i]; }; std::string r=nm(e);
    auto range=[&](){ std::string f=fin(e); if(std::isfinite(e->flo)) A(imp(f,"(<= "+num(e->flo)+" "+r+")")); if(std::isfinite(e->fhi)) A(imp(f,"(<= "+r+" "+num(e->fhi)+")")); };
    auto free=[&](){ o+="(declare-const "+r+" Real)\n"; std::string f=fin(e); if(f!="true") o+="(declare-const "+f+" Bool)\n"; range(); leaves.push_back(e); };
    auto dfin=[&](const std::string& d){ std::string f=fin(e); if(f!="true") o+="(define-fun "+f+" () Bool "+d+")\n"; };
    switch(e->op){
      case O_DYAD: { std::string a=tr(K(0)); def(e,"Real",e->imm0==0?a:"(* "+p2(-e->imm0)+" "+a+")"); dfin("true"); leaves.push_back(e); return; }
      case O_FNEG: { std::string a=tr(K(0)); def(e,"Real","(- "+a+")"); dfin(fin(K(0))); return; }
      case O_FABS: { std::string a=tr(K(0)); def(e,"Real","(ite (>= "+a+" 0.0) "+a+" (- "+a+"))"); dfin(fin(K(0))); return; }
      case O_ITE: { std::string c=tr(K(0)),a=tr(K(1)),b=tr(K(2)); def(e,"Real","(ite "+c+" "+a+" "+b+")"); dfin("(ite "+c+" "+fin(K(1))+" "+fin(K(2))+")"); return; }
      case O_FPEXT: { std::string a=tr(K(0)); def(e,"Real",a); dfin(fin(K(0))); return; }
      case O_FPTRUNC: { std::string a=tr(K(0)); o+="(declare-const "+r+" Real)\n"; round(e,a,fin(K(0)),true); range(); return; }
      case O_SITOFP: case O_UITOFP: { E k=K(0); if(k->w>64||k->w==1) break; std::string a=tr(k); if(e->op==O_UITOFP) a=uns(k,a); i128 m=e->op==O_UITOFP?(i128)k->umax:std::max((i128)k->smax,-(i128)k->smin); if(m<=((i128)1<<(e->sk==S_F32?24:53))){ def(e,"Real",a); dfin("true"); } else { o+="(declare-const "+r+" Real)\n"; round(e,a,"true",false); range(); } return; }
      case O_FADD: case O_FSUB: { std::string a=tr(K(0)),b=tr(K(1)); std::string f=both(fin(K(0)),fin(K(1))); o+="(declare-const "+r+" Real)\n"; round(e,std::string("(")+(e->op==O_FADD?"+ ":"- ")+a+" "+b+")",f,false); range(); return; }
      case O_FMUL: { std::string a=tr(K(0)),b=tr(K(1)); auto lin=[&](E k){ return k->isConst()&&std::isfinite(val(k)); }; if(!lin(K(0))&&!lin(K(1))) nonlin=true; o+="(declare-const "+r+" Real)\n"; round(e,"(* "+a+" "+b+")",both(fin(K(0)),fin(K(1))),true); range(); return; }
      case O_FMA: { std::string a=tr(K(0)),b=tr(K(1)),c=tr(K(2)); auto lin=[&](E k){ return k->isConst()&&std::isfinite(val(k)); }; if(!lin(K(0))&&!lin(K(1))) nonlin=true; o+="(declare-const "+r+" Real)\n"; round(e,"(+ (* "+a+" "+b+") "+c+")",both(both(fin(K(0)),fin(K(1))),fin(K(2))),true); range(); return; }
      case O_FDIV: { std::string a=tr(K(0)),b=tr(K(1)); std::string q="q"+std::to_string(e->id); o+="(declare-const "+r+" Real)\n"; 
        std::string f=both(fin(K(0)),fin(K(1)));
        if(K(1)->isConst()&&std::isfinite(val(K(1)))&&val(K(1))!=0){ round(e,"(/ "+a+" "+b+")",f,true); range(); return; }
        nonlin=true; o+="(declare-const "+q+" Real)\n"; std::string fe=fin(e); bool nz=K(1)->flo>0||K(1)->fhi<0; std::string ok=nz?f:both(f,"(not (= "+b+" 0.0))"); A(imp(ok,"(= (* "+q+" "+b+") "+a+")"));
        divs.push_back({q,a,b,r,ok,both(ok,fe)});
        // helpful linear consequences
        A(imp(ok,"(= (= "+q+" 0.0) (= "+a+" 0.0))")); A(imp(ok,"(= (> "+q+" 0.0) (or (and (> "+a+" 0.0) (> "+b+" 0.0)) (and (< "+a+" 0.0) (< "+b+" 0.0))))"));
        A(imp(ok,"(=> (and (>= "+a+" 0.0) (<= "+a+" "+b+")) (<= "+q+" 1.0))"));A(imp(ok,"(=> (and (> "+b+" 0.0) (> "+a+" "+b+")) (> "+q+" 1.0))"));
        if(fe!="true"){ o+="(declare-const "+fe+" Bool)\n"; std::string g="g"+std::to_string(e->id); o+="(declare-const "+g+" Bool)\n"; A("(=> "+ok+" (= "+fe+" "+g+"))"); A(imp(both(fin(K(1)),"(= "+b+" 0.0)"),"(not "+fe+")"));
          std::string ov=e->sk==S_F32?num(std::ldexp(1.0,128)-std::ldexp(1.0,103)):"(- "+p2(1024)+" "+p2(970)+")"; A("(= "+g+" (and (< "+q+" "+ov+") (< (- "+ov+") "+q+")))");
          // rounding holds only when the quotient is meaningful
          std::string h="h"+std::to_string(e->id); o+="(define-fun "+h+" () Bool "+both(fe,ok)+")\n"; roundAs(e,q,h); range(); return; }
        if(nz) { roundAs(e,q,f); } else roundAs(e,q,ok); range(); return; }
      case O_FSQRT: { std::string a=tr(K(0)); std::string q="q"+std::to_string(e->id); nonlin=true; o+="(declare-const "+r+" Real)\n(declare-const "+q+" Real)\n"; std::string ok=both(fin(K(0)),"(>= "+a+" 0.0)"); A("(>= "+q+" 0.0)"); A(imp(ok,"(= (* "+q+" "+q+") "+a+")")); A("(= (>= "+q+" 1.0) (>= "+a+" 1.0))"); std::string fe=fin(e); if(fe!="true"){ o+="(declare-const "+fe+" Bool)\n"; A("(=> "+ok+" "+fe+")"); } roundAs(e,q,both(ok,fe)); range(); return; }
      case O_FRINT: { std::string a=tr(K(0)); o+="(declare-const "+r+" Real)\n"; dfin(fin(K(0))); std::string f=fin(e),d="(- "+r+" "+a+")"; 
        if(e->imm0==RM_NE||e->imm0==RM_NA) A(imp(f,"(and (<= "+d+" 0.5) (<= (- 0.5) "+d+"))")); else if(e->imm0==RM_DN) A(imp(f,"(and (<= "+d+" 0.0) (< (- 1.0) "+d+"))")); else if(e->imm0==RM_UP) A(imp(f,"(and (>= "+d+" 0.0) (< "+d+" 1.0))")); else A(imp(f,"(ite (>= "+a+" 0.0) (and (<= "+d+" 0.0) (< (- 1.0) "+d+") (>= "+r+" 0.0)) (and (>= "+d+" 0.0) (< "+d+" 1.0) (<= "+r+" 0.0)))"));
        rints.push_back({a,r,f,(int)e->imm0}); A(imp(f,"(and (=> (>= "+a+" 0.0) (>= "+r+" 0.0)) (=> (<= "+a+" 0.0) (<= "+r+" 0.0)))")); range(); return; }
      case O_UF: { tr(K(0)); if(e->nk>1) tr(K(1)); free(); auto it=g_axioms.find(e); if(it!=g_axioms.end()) for(E a:it->second) axq.push_back(a);
        auto& v=ufs[e->imm0*2+(e->sk==S_F64)]; for(E u:v){ if(u==e||v.size()>12) continue; std::string c="(= "+tr(u->k[0])+" "+tr(e->k[0])+")"; c=both(both(fin(u->k[0]),fin(e->k[0])),c); (void)c; if(u->nk<2&&g_uf[e->imm0]!="atan") { std::string nz="(not (= "+tr(e->k[0])+" 0.0))"; A("(=> (and "+c+" "+nz+") (= "+nm(u)+" "+r+"))"); A("(=> (and "+c+" "+nz+") (= "+fin(u)+" "+fin(e)+"))"); } } v.push_back(e); return; }
      default: break;
    }
    free();
  }
  void roundAs(E e,const std::string& q,const std::string& ok){ // rounding relation guarded by ok
    inexact=true; std::string r=nm(e); int P=e->sk==S_F32?24:53, emin=e->sk==S_F32?-149:-1074; std::string er="(- "+r+" "+q+")",u=p2(-P),eta=p2(emin-1); double R=std::max(std::fabs(e->flo),std::fabs(e->fhi));
    std::string pos="(+ (* "+u+" "+q+") "+eta+")",neg="(+ (- (* "+u+" "+q+")) "+eta+")";
    A(imp(ok,"(ite (>= "+q+" 0.0) (and (<= (- "+pos+") "+er+") (<= "+er+" "+pos+") (>= "+r+" 0.0)) (and (<= (- "+neg+") "+er+") (<= "+er+" "+neg+") (<= "+r+" 0.0)))"));
    if(std::isfinite(R)&&R>0){ std::string k=p2(std::max(expo(R)-P-1,emin-1)); A(imp(ok,"(and (<= "+er+" "+k+") (<= (- "+k+") "+er+"))")); }
    inx.push_back({q,r,ok,e->sk});
  }
  void mono(){
    // a quotient against the constants it may be compared with, without the product
    // rounding to an integer against integral constants
    if(rints.size()*cmpK.size()<=60) for(auto& i:rints) for(double k:cmpK){ if(k!=std::floor(k)||std::fabs(k)>1e9) continue; std::string c=num(k),up=i.m==RM_NE||i.m==RM_NA?num(k+0.5):i.m==RM_DN?num(k+1):c,dn=i.m==RM_NE||i.m==RM_NA?num(k-0.5):i.m==RM_UP?num(k-1):c;
      A(imp(i.f,"(and (=> ("+std::string(i.m==RM_UP||i.m==RM_TZ?"<=":"<")+" "+i.x+" "+up+") (<= "+i.r+" "+c+")) (=> ("+(i.m==RM_DN||i.m==RM_TZ?">=":">")+" "+i.x+" "+dn+") (>= "+i.r+" "+c+")))")); }
    if(divs.size()<=8&&cmpK.size()<=10) for(auto& d:divs) for(double k0:cmpK) for(double dk:{0.0,-0.5,0.5}){ double k=k0+dk; std::string c=num(k),kb="(* "+c+" "+d.b+")"; bool rep=(double)(float)k==k;
      A(imp(d.ok,"(and (=> (> "+d.b+" 0.0) (and (= (<= "+d.q+" "+c+") (<= "+d.a+" "+kb+")) (= (>= "+d.q+" "+c+") (>= "+d.a+" "+kb+")))) (=> (< "+d.b+" 0.0) (and (= (<= "+d.q+" "+c+") (>= "+d.a+" "+kb+")) (= (>= "+d.q+" "+c+") (<= "+d.a+" "+kb+")))))"));
      if(rep) A(imp(d.rok,"(and (=> (<= "+d.q+" "+c+") (<= "+d.r+" "+c+")) (=> (>= "+d.q+" "+c+") (>= "+d.r+" "+c+")))")); }
    for(size_t i=0;i<inx.size();i++){
      for(const char* c:{"1.0","(- 1.0)"}) A(imp(inx[i].n,std::string("(and (=> (<= ")+inx[i].x+" "+c+") (<= "+inx[i].r+" "+c+")) (=> (>= "+inx[i].x+" "+c+") (>= "+inx[i].r+" "+c+")))"));
      if(inx.size()<=24) for(size_t j=i+1;j<inx.size();j++) if(inx[i].sk==inx[j].sk) A(imp(both(inx[i].n,inx[j].n),"(and (=> (<= "+inx[i].x+" "+inx[j].x+") (<= "+inx[i].r+" "+inx[j].r+")) (=> (>= "+inx[i].x+" "+inx[j].x+") (>= "+inx[i].r+" "+inx[j].r+")))"));
      if(inx.size()<=12) for(size_t j=0;j<inx.size();j++) if(i!=j&&inx[i].sk==inx[j].sk) A(imp(both(inx[i].n,inx[j].n),"(and (=> (<= "+inx[i].x+" "+inx[j].r+") (<= "+inx[i].r+" "+inx[j].r+")) (=> (>= "+inx[i].x+" "+inx[j].r+") (>= "+inx[i].r+" "+inx[j].r+")))"));
      if(inx.size()*leaves.size()<=200) for(E l:leaves) if(l->sk==inx[i].sk){ std::string v=nm(l); A(imp(both(inx[i].n,fin(l)),"(and (=> (<= "+inx[i].x+" "+v+") (<= "+inx[i].r+" "+v+")) (=> (>= "+inx[i].x+" "+v+") (>= "+inx[i].r+" "+v+")))")); }
    }
  }
};
}
bool toLra(const std::vector<E>& cs,std::string& out,bool& nonlin){
  Lra l; std::string as; for(E c:cs){ std::string s=l.tr(c); as+="(assert "+s+")\n"; }
  for(size_t i=0;i<l.axq.size();i++) if(l.axdone.insert(l.axq[i]).second&&!l.axq[i]->isTrue()){ std::string s=l.tr(l.axq[i]); as+="(assert "+s+")\n"; }
  l.mono(); nonlin=l.nonlin; out=l.o+as; return l.inexact;
}
}
