// Incremental bit-level solver: every term is translated once into gates of a
// MiniSat instance and each query is solved under assumptions. Float
// arithmetic is left unconstrained here, so for queries that contain it only
// "unsat" (and models that validate by evaluation) is used.
#include "smt.h"
#include <minisat/core/Solver.h>
#include <memory>
#include <unordered_map>
#include <unordered_set>
namespace sx {
namespace {
using Minisat::Lit; using Minisat::mkLit; using Minisat::lbool;
typedef std::vector<Lit> Bits;
struct Bv {
  Minisat::Solver s; Lit T; std::unordered_map<E,Bits> memo; std::unordered_map<E,bool> approx; std::unordered_map<uint64_t,Lit> gates; std::vector<E> varNodes; std::vector<E> pendingAx;
  Bv(){ s.verbosity=0; T=mkLit(s.newVar()); s.addClause(T); }
  Lit fresh(){ return mkLit(s.newVar()); }
  Lit F(){ return ~T; }
  bool isC(Lit a){ return Minisat::var(a)==0; }
  Lit And(Lit a,Lit b){ if(a==T) return b; if(b==T) return a; if(a==F()||b==F()||a==~b) return F(); if(a==b) return a; if(b<a) std::swap(a,b);
    uint64_t k=((uint64_t)(uint32_t)Minisat::toInt(a)<<32)|(uint32_t)Minisat::toInt(b)<<1; auto it=gates.find(k); if(it!=gates.end()) return it->second;
    Lit o=fresh(); s.addClause(~o,a); s.addClause(~o,b); s.addClause(o,~a,~b); gates[k]=o; return o; }
  Lit Or(Lit a,Lit b){ return ~And(~a,~b); }
  Lit Xor(Lit a,Lit b){ if(isC(a)) return a==T?~b:b; if(isC(b)) return b==T?~a:a; if(a==b) return F(); if(a==~b) return T; bool n=Minisat::sign(a)^Minisat::sign(b); a=mkLit(Minisat::var(a)); b=mkLit(Minisat::var(b)); if(b<a) std::swap(a,b);
    uint64_t k=((uint64_t)(uint32_t)Minisat::toInt(a)<<32)|((uint32_t)Minisat::toInt(b)<<1)|1; auto it=gates.find(k); Lit o; if(it!=gates.end()) o=it->second; else { o=fresh(); s.addClause(~o,a,b); s.addClause(~o,~a,~b); s.addClause(o,~a,b); s.addClause(o,a,~b); gates[k]=o; } return n?~o:o; }
  Lit Ite(Lit c,Lit a,Lit b){ if(c==T) return a; if(c==F()) return b; if(a==b) return a; if(a==T) return Or(c,b); if(a==F()) return And(~c,b); if(b==T) return Or(~c,a); if(b==F()) return And(c,a); if(a==~b) return Xor(~c,a);
    Lit o=fresh(); s.addClause(~c,~a,o); s.addClause(~c,a,~o); s.addClause(c,~b,o); s.addClause(c,b,~o); s.addClause(~a,~b,o); s.addClause(a,b,~o); return o; }
  Lit Maj(Lit a,Lit b,Lit c){ if(isC(a)) return a==T?Or(b,c):And(b,c); if(isC(b)) return b==T?Or(a,c):And(a,c); if(isC(c)) return c==T?Or(a,b):And(a,b); if(a==b) return a; if(a==c) return a; if(b==c) return b; if(a==~b) return c; if(a==~c) return b; if(b==~c) return a;
    Lit o=fresh(); s.addClause(~a,~b,o); s.addClause(~a,~c,o); s.addClause(~b,~c,o); s.addClause(a,b,~o); s.addClause(a,c,~o); s.addClause(b,c,~o); return o; }
  Bits constBits(unsigned w,u128 v){ Bits r(w); for(unsigned i=0;i<w;i++) r[i]=(v>>i)&1?T:F(); return r; }
  Bits add(const Bits& a,const Bits& b,Lit c,unsigned k){ Bits r(k); for(unsigned i=0;i<k;i++){ r[i]=Xor(Xor(a[i],b[i]),c); if(i+1<k) c=Maj(a[i],b[i],c); } return r; }
  Bits inv(const Bits& a){ Bits r=a; for(Lit& l:r) l=~l; return r; }
  Bits mul(const Bits& a,const Bits& b,unsigned k){ // low k bits; the operand with fewer distinct bits drives
    auto cost=[&](const Bits& x){ int n=0; for(unsigned i=0;i<k;i++) if(x[i]!=F()&&(i==0||x[i]!=x[i-1])) n++; return n; };
    const Bits *x=&a,*y=&b; if(cost(*y)<cost(*x)) std::swap(x,y); // x drives
    unsigned top=k; while(top>1&&(*x)[top-1]==(*x)[top-2]) top--; // bits top-1..k-1 equal: signed weight -2^(top-1)
    Bits r=constBits(k,0); for(unsigned i=0;i<top;i++){ Lit d=(*x)[i]; if(d==F()) continue; bool neg=i==top-1; Bits p=constBits(k,0); for(unsigned j=i;j<k;j++) p[j]=And(d,(*y)[j-i]); if(neg){ r=add(r,inv(p),T,k);} else r=add(r,p,F(),k); }
    return r; }
  Lit ult(const Bits& a,const Bits& b){ Lit r=F(); for(size_t i=0;i<a.size();i++){ Lit x=Xor(a[i],b[i]); r=Ite(x,b[i],r); } return r; }
  Lit slt(Bits a,Bits b){ if(a.empty()) return F(); while(a.size()>1&&a[a.size()-1]==a[a.size()-2]&&b[b.size()-1]==b[b.size()-2]){ a.pop_back(); b.pop_back(); } a.back()=~a.back(); b.back()=~b.back(); return ult(a,b); }
  Lit eq(const Bits& a,const Bits& b){ Lit r=T; for(size_t i=0;i<a.size();i++){ r=And(r,~Xor(a[i],b[i])); if(r==F()) break; } return r; }
  static unsigned sbits(int64_t lo,int64_t hi){ unsigned k=1; while(k<64&&(lo<-((i128)1<<(k-1))||hi>((i128)1<<(k-1))-1)) k++; return k; }
  static unsigned ubits(uint64_t hi){ unsigned k=0; while(k<64&&(hi>>k)) k++; return k; }
  // number of low bits that determine the term, and how the rest is filled
  unsigned narrow(E e,bool& sign){ if(e->w>64||e->isFP()){ sign=false; return e->w; } unsigned a=sbits(e->smin,e->smax),b=ubits(e->umax); if(b<e->w&&b<=a){ sign=false; return b; } sign=true; return std::min<unsigned>(a,e->w); }
  void fill(Bits& r,unsigned w,bool sign){ Lit x=r.empty()?F():(sign?r.back():F()); while(r.size()<w) r.push_back(x); }
  Lit isNaN(const Bits& b,bool dbl){ int m=dbl?52:23; Lit e=T,f=F(); for(int i=m;i<(int)b.size()-1;i++) e=And(e,b[i]); for(int i=0;i<m;i++) f=Or(f,b[i]); return And(e,f); }
  Lit fzero(const Bits& b){ Lit f=F(); for(size_t i=0;i+1<b.size();i++) f=Or(f,b[i]); return ~f; }
  const Bits& get(E root){
    auto it0=memo.find(root); if(it0!=memo.end()) return it0->second;
    std::vector<std::pair<E,int>> st{{root,0}};
    while(!st.empty()){ E e=st.back().first; int& i=st.back().second; if(memo.count(e)){ st.pop_back(); continue; } if(i<e->nk){ E k=e->k[i++]; if(!memo.count(k)) st.push_back({k,0}); continue; }
      bool ap=false; Bits r=build(e,ap); if(!tabled.count(e)) for(int j=0;j<e->nk;j++) ap=ap||approx[e->k[j]]; memo[e]=std::move(r); approx[e]=ap; st.pop_back(); }
    return memo[root];
  }
  Bits freshBits(unsigned w){ Bits r(w); for(Lit& l:r) l=fresh(); return r; }
  std::unordered_set<E> tabled;
  // a term over one small variable is written out as a table of its values
  bool table(E e,unsigned w,Bits& r){
    const std::vector<uint32_t>& vs=varsOf(e); E v=nullptr; for(uint32_t x:vs){ if(x>=0x40000000u) continue; if(v) return false; v=g_vars[x].e; }
    if(!v||v->isFP()||v->w>32||!memo.count(v)) return false; int64_t lo=v->smin,hi=v->smax; if(hi-lo>=1024) return false;
    r=freshBits(w); Model m; for(int64_t x=lo;x<=hi;x++){ m.memo.clear(); m.var[v->imm0]=(u128)(i128)x&maskw(v->w); u128 c=evalExpr(e,m); Lit k=eq(memo[v],constBits(v->w,(u128)(i128)x)); for(unsigned i=0;i<w;i++) s.addClause(~k,(c>>i)&1?r[i]:~r[i]); }
    return true;
  }
  Bits build(E e,bool& ap){
    unsigned w=e->isFP()?(e->sk==S_F32?32:64):e->w; auto K=[&](int i)->const Bits&{ return memo[e->k[i]]; };
    bool dbl=e->nk&&e->k[0]->sk==S_F64;
    switch(e->op){
      case O_CONST: return constBits(w,e->c);
      case O_VAR: { bool sg; unsigned k=narrow(e,sg); Bits r=freshBits(k); fill(r,w,sg); varNodes.push_back(e);
        if(!e->isFP()&&w>1&&w<=64){ Bits lo=constBits(w,(u128)(i128)e->smin),hi=constBits(w,(u128)(i128)e->smax); s.addClause(~slt(r,lo)); s.addClause(~slt(hi,r)); } return r; }
      case O_NOT: return inv(K(0));
      case O_AND: case O_OR: case O_XOR: { Bits r(w); for(unsigned i=0;i<w;i++) r[i]=e->op==O_AND?And(K(0)[i],K(1)[i]):e->op==O_OR?Or(K(0)[i],K(1)[i]):Xor(K(0)[i],K(1)[i]); return r; }
      case O_ADD: case O_SUB: { bool sg; unsigned k=narrow(e,sg); Bits r=e->op==O_ADD?add(K(0),K(1),F(),k):add(K(0),inv(K(1)),T,k); fill(r,w,sg); return r; }
      case O_MUL: { bool sg; unsigned k=narrow(e,sg); if(k==0) return constBits(w,0); Bits r=mul(K(0),K(1),k); fill(r,w,sg); return r; }
      case O_UDIV: case O_UREM: { unsigned k=w; if(w<=64) k=std::max(ubits(e->k[0]->umax),ubits(e->k[1]->umax)); if(k>20){ ap=true; return freshBits(w); }
        Bits q(k,F()),rem(k+1,F()),b=K(1); b.resize(k); b.push_back(F()); for(int i=(int)k-1;i>=0;i--){ for(unsigned j=k;j>0;j--) rem[j]=rem[j-1]; rem[0]=K(0)[i]; Lit lt=ult(rem,b); q[i]=~lt; Bits d=add(rem,inv(b),T,k+1); for(unsigned j=0;j<=k;j++) rem[j]=Ite(lt,rem[j],d[j]); }
        Lit z=T; for(Lit l:K(1)) z=And(z,~l); Bits r(w,F()); for(unsigned i=0;i<w;i++){ if(e->op==O_UDIV) r[i]=Ite(z,T,i<k?q[i]:F()); else r[i]=Ite(z,K(0)[i],i<k?rem[i]:F()); } return r; }
      case O_SHL: case O_LSHR: case O_ASHR: { Bits r=K(0); const Bits& b=K(1); Lit ext=e->op==O_ASHR?r.back():F(); Lit big=F(); for(unsigned i=0;i<w;i++){ if((1ull<<std::min(i,31u))>=w){ big=Or(big,b[i]); continue; } unsigned sh=1u<<i; Bits n(w); for(unsigned j=0;j<w;j++){ Lit v; if(e->op==O_SHL) v=j>=sh?r[j-sh]:F(); else v=j+sh<w?r[j+sh]:ext; n[j]=Ite(b[i],v,r[j]); } r=n; } for(Lit& l:r) l=Ite(big,ext,l); return r; }
      case O_CONCAT: { Bits r=K(1); r.insert(r.end(),K(0).begin(),K(0).end()); return r; }
      case O_EXTRACT: return Bits(K(0).begin()+e->imm0,K(0).begin()+e->imm0+w);
      case O_ZEXT: { Bits r=K(0); fill(r,w,false); return r; }
      case O_SEXT: { Bits r=K(0); fill(r,w,true); return r; }
      case O_ITE: { Bits r(w); for(unsigned i=0;i<w;i++) r[i]=i&&K(1)[i]==K(1)[i-1]&&K(2)[i]==K(2)[i-1]?r[i-1]:Ite(K(0)[0],K(1)[i],K(2)[i]); return r; }
      case O_EQ: { Lit r=eq(K(0),K(1)); if(e->k[0]->isFP()) r=Or(r,And(isNaN(K(0),dbl),isNaN(K(1),dbl))); return {r}; }
      case O_ULT: return {ult(K(0),K(1))}; case O_ULE: return {~ult(K(1),K(0))};
      case O_SLT: return {slt(K(0),K(1))}; case O_SLE: return {~slt(K(1),K(0))};
      case O_FNEG: { Bits r=K(0); r.back()=~r.back(); return r; }
      case O_FABS: { Bits r=K(0); r.back()=F(); return r; }
      case O_FISNAN: return {isNaN(K(0),dbl)};
      case O_FEQ: { Lit n=Or(isNaN(K(0),dbl),isNaN(K(1),dbl)); return {And(~n,Or(eq(K(0),K(1)),And(fzero(K(0)),fzero(K(1)))))}; }
      case O_FLT: case O_FLE: { Lit n=Or(isNaN(K(0),dbl),isNaN(K(1),dbl)); Bits a(K(0).begin(),K(0).end()-1),b(K(1).begin(),K(1).end()-1); Lit sa=K(0).back(),sb=K(1).back(),lt=ult(a,b),gt=ult(b,a),z=And(fzero(K(0)),fzero(K(1)));
        Lit r=Ite(sa,Ite(sb,gt,~z),Ite(sb,F(),lt)); if(e->op==O_FLE) r=Or(r,Or(z,eq(K(0),K(1)))); return {And(~n,r)}; }
      case O_BITSF: return K(0);
      case O_FBITS: { Bits r=K(0); Lit n=isNaN(r,dbl); if(n==F()) return r; int m=dbl?52:23; Lit any=F(); for(int i=0;i<(int)r.size();i++){ if(i>=m&&i<(int)r.size()-1) continue; Lit f=fresh(); r[i]=Ite(n,f,r[i]); if(i<m) any=Or(any,r[i]); } s.addClause(~n,any); return r; }
      default: { Bits tr; if(table(e,w,tr)){ tabled.insert(e); return tr; } ap=true; Bits r=freshBits(w); if(e->isFP()){ // known range of the result
          bool d=e->sk==S_F64; if(!e->fnan) s.addClause(~isNaN(r,d)); }
        else if(w<=64&&w>1){ Bits lo=constBits(w,(u128)(i128)e->smin),hi=constBits(w,(u128)(i128)e->smax); s.addClause(~slt(r,lo)); s.addClause(~slt(hi,r)); }
        return r; }
    }
  }
};
std::unique_ptr<Bv> g_bv;
}
Res bvCheck(const std::vector<E>& cs,int conflicts,Model* out){
  if(!g_bv||g_bv->s.nVars()>400000) g_bv.reset(new Bv);
  int before=g_bv->s.nVars(); bool ap=false; Minisat::vec<Lit> as;
  for(E c:cs){ Lit l=g_bv->get(c)[0]; if(g_bv->approx[c]) ap=true; as.push(l); }
  Bv& b=*g_bv; (void)before; if(!b.s.okay()){ g_bv.reset(); return R_UNKNOWN; }
  if(!ap) conflicts=std::max(conflicts,20000);
  b.s.setConfBudget(conflicts); b.s.setPropBudget((int64_t)conflicts*20000);
  lbool r=b.s.solveLimited(as); b.s.budgetOff();
  static int n=0; if(++n%64==0){ std::unordered_set<E> seen; std::vector<E> st(cs.begin(),cs.end()); size_t cone=0; while(!st.empty()){ E e=st.back(); st.pop_back(); if(!seen.insert(e).second) continue; cone+=e->w; for(int i=0;i<e->nk;i++) st.push_back(e->k[i]); } if((size_t)b.s.nVars()>20000+cone*20){ Res q=r==l_True?R_SAT:r==l_False?R_UNSAT:R_UNKNOWN; if(q!=R_SAT){ g_bv.reset(); return q; } } }
  if(r==l_False) return R_UNSAT; if(r!=l_True) return R_UNKNOWN;
  std::unordered_set<uint32_t> in; for(E c:cs) for(uint32_t v:varsOf(c)) in.insert(v); // only the query's own variables: callers merge the model into a wider one
  Model m; for(E v:b.varNodes){ if(!in.count(v->imm0)) continue; const Bits& x=b.memo[v]; u128 c=0; for(size_t i=0;i<x.size();i++){ lbool t=b.s.modelValue(x[i]); if(t==l_True) c|=(u128)1<<i; } m.var[v->imm0]=c; }
  if(validModel(cs,m)){ m.memo.clear(); if(out) *out=m; return R_SAT; }
  if(!ap){ static int shown=0; if(shown++<3) fprintf(stderr,"[bv] model does not validate\n"); }
  return R_UNKNOWN;
}
}
