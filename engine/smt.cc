#include "smt.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <unordered_map>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <chrono>
#include <fstream>
#include <sstream>
#include <random>
#include <map>
namespace sx {
SmtStats g_stats; int g_quickMs = 1500; std::string g_tmp = "/tmp", g_tooldir = ".";
double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void closure(const std::vector<E>& roots, std::vector<E>& out){
  std::unordered_set<E> seen; std::vector<E> st(roots.begin(),roots.end());
  while(!st.empty()){ E e=st.back(); st.pop_back(); if(!seen.insert(e).second) continue; out.push_back(e);
    for(int i=0;i<e->nk;i++) st.push_back(e->k[i]);
    if(e->op==O_UF){ auto it=g_axioms.find(e); if(it!=g_axioms.end()) for(E a:it->second) st.push_back(a); } }
  std::sort(out.begin(),out.end(),[](E a,E b){return a->id<b->id;});
}
static std::string bvc(unsigned w,u128 v){ std::string s="#b"; for(int i=w-1;i>=0;i--) s+=((v>>i)&1)?'1':'0'; return s; }
static const char* fsort(SortK s){ return s==S_F32?"(_ FloatingPoint 8 24)":"(_ FloatingPoint 11 53)"; }
static const char* fto(SortK s){ return s==S_F32?"(_ to_fp 8 24)":"(_ to_fp 11 53)"; }
static std::string ref(E e){
  if(e->op==O_CONST){
    if(e->isFP()) return std::string("(")+fto(e->sk)+" "+bvc(e->w,e->c)+")";
    if(e->w==1) return e->c?"true":"false"; return bvc(e->w,e->c); }
  return "e"+std::to_string(e->id);
}
static std::string sortOf(E e){ if(e->isFP()) return fsort(e->sk); if(e->w==1) return "Bool"; return "(_ BitVec "+std::to_string(e->w)+")"; }
// reference as bitvector even for w==1
static std::string bref(E e){ if(!e->isFP()&&e->w==1){ if(e->isConst()) return e->c?"#b1":"#b0"; return "(ite "+ref(e)+" #b1 #b0)"; } return ref(e); }

static bool pow2(E e){ if(!e->isFP()||!e->isConst()) return false; double d=e->sk==S_F32?(double)asF32(e->c):asF64(e->c); int x; double m=std::frexp(d,&x); return std::fabs(m)==0.5; }
// Operations replaced by an unconstrained result plus sound lemmas in the abstract encoding.
static bool costly(E e){ return (e->op==O_FMUL&&!pow2(e->k[0])&&!pow2(e->k[1]))||(e->op==O_FDIV&&!pow2(e->k[1]))||e->op==O_FSQRT||e->op==O_FMA; }
static bool isAdd(E e){ return e->op==O_FADD||e->op==O_FSUB; }
bool hasAdd(const std::vector<E>& cs){ std::vector<E> n; closure(cs,n); for(E e:n) if(isAdd(e)) return true; return false; }
bool hasCostly(const std::vector<E>& cs){ std::vector<E> n; closure(cs,n); for(E e:n) if(costly(e)) return true; return false; }
bool hasMul(const std::vector<E>& cs){ std::vector<E> n; closure(cs,n); for(E e:n) if(e->op==O_MUL&&!e->k[0]->isConst()&&!e->k[1]->isConst()) return true; return false; }
static void costlyLemmas(const std::vector<E>& v,std::string& o){
  auto A=[&](const std::string& x){ o+="(assert "+x+")\n"; };
  auto S=[&](const std::string& x){ return "("+x+")"; };
  for(E e:v){
    std::string r=ref(e),a=ref(e->k[0]),b=e->nk>1?ref(e->k[1]):""; std::string one=e->sk==S_F32?ref(mkF32(1)):ref(mkF64(1));
    auto nan=[&](const std::string& x){return S("fp.isNaN "+x);}; auto inf=[&](const std::string& x){return S("fp.isInfinite "+x);}; auto zero=[&](const std::string& x){return S("fp.isZero "+x);}; auto neg=[&](const std::string& x){return S("fp.isNegative "+x);};
    auto ab=[&](const std::string& x){return S("fp.abs "+x);}; auto le=[&](const std::string& x,const std::string& y){return S("fp.leq "+x+" "+y);}; auto eq=[&](const std::string& x,const std::string& y){return S("fp.eq "+x+" "+y);};
    std::string ok="(not "+nan(r)+")"; auto imp=[&](const std::string& p,const std::string& q){ A("(=> (and "+ok+" "+p+") "+q+")"); };
    if(!e->fnan) A(ok);
    if(std::isfinite(e->flo)) imp("true",le(e->sk==S_F32?ref(mkF32((float)e->flo)):ref(mkF64(e->flo)),r));
    if(std::isfinite(e->fhi)) imp("true",le(r,e->sk==S_F32?ref(mkF32((float)e->fhi)):ref(mkF64(e->fhi))));
    if(e->op==O_FMUL){
      A("(= "+nan(r)+" (or "+nan(a)+" "+nan(b)+" (and "+inf(a)+" "+zero(b)+") (and "+zero(a)+" "+inf(b)+")))");
      imp("true","(= "+neg(r)+" (xor "+neg(a)+" "+neg(b)+"))"); imp("(or "+inf(a)+" "+inf(b)+")",inf(r)); imp("(or "+zero(a)+" "+zero(b)+")",zero(r));
      imp(le(ab(a),one),le(ab(r),ab(b))); imp(le(one,ab(a)),le(ab(b),ab(r))); imp(le(ab(b),one),le(ab(r),ab(a))); imp(le(one,ab(b)),le(ab(a),ab(r)));
      imp(eq(a,one),eq(r,b)); imp(eq(b,one),eq(r,a));
      for(E f:v) if(f->id>e->id&&f->op==O_FMUL&&f->sk==e->sk) for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(e->k[i]==f->k[j]){ // |x|<=|y| -> |x c|<=|y c|
        std::string x=ref(e->k[1-i]),y=ref(f->k[1-j]),s=ref(f); std::string p="(and "+ok+" (not "+nan(s)+") ";
        A("(=> "+p+le(ab(x),ab(y))+") "+le(ab(r),ab(s))+")"); A("(=> "+p+le(ab(y),ab(x))+") "+le(ab(s),ab(r))+")"); }
    } else if(e->op==O_FDIV){
      A("(= "+nan(r)+" (or "+nan(a)+" "+nan(b)+" (and "+inf(a)+" "+inf(b)+") (and "+zero(a)+" "+zero(b)+")))");
      imp("true","(= "+neg(r)+" (xor "+neg(a)+" "+neg(b)+"))"); imp(inf(a),inf(r)); imp(zero(b),inf(r)); imp(zero(a),zero(r)); imp(inf(b),zero(r));
      imp(le(ab(a),ab(b)),le(ab(r),one)); imp(le(ab(b),ab(a)),le(one,ab(r))); imp(le(one,ab(b)),le(ab(r),ab(a))); imp(le(ab(b),one),le(ab(a),ab(r)));
      imp(eq(a,b),eq(r,one)); imp(eq(b,one),eq(r,a));
      for(E f:v) if(f->id>e->id&&f->op==O_FDIV&&f->sk==e->sk&&e->k[1]==f->k[1]){ std::string x=a,y=ref(f->k[0]),s=ref(f); std::string p="(and "+ok+" (not "+nan(s)+") ";
        A("(=> "+p+le(ab(x),ab(y))+") "+le(ab(r),ab(s))+")"); A("(=> "+p+le(ab(y),ab(x))+") "+le(ab(s),ab(r))+")"); }
    } else if(isAdd(e)){
      bool sub=e->op==O_FSUB; std::string nb=sub?"(fp.neg "+b+")":b, z=e->sk==S_F32?ref(mkF32(0)):ref(mkF64(0));
      A("(= "+nan(r)+" (or "+nan(a)+" "+nan(b)+" (and "+inf(a)+" "+inf(b)+" (not (= "+neg(a)+" "+neg(nb)+")))))");
      imp(le(z,nb),le(a,r)); imp(le(nb,z),le(r,a)); imp(le(z,a),le(nb,r)); imp(le(a,z),le(r,nb));
      imp("true","(= "+zero(r)+" "+eq(a,"(fp.neg "+nb+")")+")"); imp(S("fp.lt "+a+" (fp.neg "+nb+")"),neg(r)); imp(S("fp.lt (fp.neg "+nb+") "+a),"(not "+neg(r)+")");
      imp("(or "+inf(a)+" "+inf(b)+")",inf(r)); imp(zero(a),eq(r,nb)); imp(zero(b),eq(r,a));
      for(E f:v) if(f->id>e->id&&isAdd(f)&&f->sk==e->sk){ bool fs=f->op==O_FSUB; std::string s=ref(f),p="(and "+ok+" (not "+nan(s)+") ";
        for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(e->k[i]==f->k[j]&&(sub&&i==1)==(fs&&j==1)){ 
          std::string x=ref(e->k[1-i]),y=ref(f->k[1-j]); if(sub&&i==0) x="(fp.neg "+x+")"; if(fs&&j==0) y="(fp.neg "+y+")";
          A("(=> "+p+le(x,y)+") "+le(r,s)+")"); A("(=> "+p+le(y,x)+") "+le(s,r)+")"); } }
    } else if(e->op==O_FSQRT){
      A("(= "+nan(r)+" (or "+nan(a)+" (and "+neg(a)+" (not "+zero(a)+"))))"); imp(le(one,a),"(and "+le(one,r)+" "+le(r,a)+")"); imp(le(a,one),"(and "+le(a,r)+" "+le(r,one)+")"); imp("true","(or "+zero(r)+" (not "+neg(r)+"))"); imp(zero(a),zero(r)); imp(inf(a),inf(r));
    }
  }
}
static bool nonlinear(E e){ return (e->op==O_MUL&&!e->k[1]->isConst()&&!e->k[0]->isConst())||((e->op==O_UDIV||e->op==O_SDIV||e->op==O_UREM||e->op==O_SREM)); }

std::string toSmt(const std::vector<E>& cs,const std::vector<E>& lemmas,bool bits,int abstract_,std::vector<uint32_t>* vars,std::vector<E>* ufs){
  std::vector<E> roots(cs); for(E l:lemmas) roots.push_back(l);
  std::vector<E> nodes; closure(roots,nodes);
  std::string o; o.reserve(nodes.size()*60);
  std::map<int,std::vector<E>> ufByName; std::string side; std::vector<E> axs, cost;
  auto declBits=[&](const std::string& n,unsigned w){
    if(w==1){ o+="(declare-const "+n+"_0 Bool)\n(define-fun "+n+" () Bool "+n+"_0)\n"; return; }
    for(unsigned i=0;i<w;i++) o+="(declare-const "+n+"_"+std::to_string(i)+" Bool)\n";
    o+="(define-fun "+n+" () (_ BitVec "+std::to_string(w)+") (concat"; for(int i=w-1;i>=0;i--) o+=" (ite "+n+"_"+std::to_string(i)+" #b1 #b0)"; o+="))\n"; };
  for(E e:nodes){
    if(e->op==O_CONST) continue;
    std::string n="e"+std::to_string(e->id);
    if(e->op==O_VAR){
      if(vars) vars->push_back(e->imm0);
      if(bits) declBits(n,e->w); else o+="(declare-const "+n+" "+sortOf(e)+")\n";
      // declared range of the variable
      if(e->w>1&&e->w<=64){ int64_t fm=-((int64_t)1<<(e->w-1)),fM=((int64_t)1<<(e->w-1))-1; if(e->w==64){fm=INT64_MIN;fM=INT64_MAX;}
        if(e->smin!=fm) side+="(assert (bvsle "+bvc(e->w,(u128)(i128)e->smin)+" "+n+"))\n";
        if(e->smax!=fM) side+="(assert (bvsle "+n+" "+bvc(e->w,(u128)(i128)e->smax)+"))\n"; }
      continue; }
    if(e->op==O_UF){
      if(bits) declBits(n+"b",e->w); else o+="(declare-const "+n+"b (_ BitVec "+std::to_string(e->w)+"))\n";
      o+="(define-fun "+n+" () "+fsort(e->sk)+" ("+fto(e->sk)+" "+n+"b))\n";
      ufByName[e->imm0*2+(e->sk==S_F64)].push_back(e); if(ufs) ufs->push_back(e);
      auto it=g_axioms.find(e); if(it!=g_axioms.end()) for(E a:it->second) axs.push_back(a);
      continue; }
    if(e->op==O_FBITS){
      o+="(declare-const "+n+" "+sortOf(e)+")\n"; side+="(assert (= ("+std::string(fto(e->k[0]->sk))+" "+n+") "+ref(e->k[0])+"))\n"; continue; }
    if((abstract_&&costly(e))||(abstract_>1&&isAdd(e))){ o+="(declare-const "+n+" "+sortOf(e)+")\n"; cost.push_back(e); continue; }
    std::string d; auto a=[&](int i){ return ref(e->k[i]); };
    auto bin=[&](const char* op){ d=std::string("(")+op+" "+a(0)+" "+a(1)+")"; };
    bool b1=!e->isFP()&&e->w==1;
    switch(e->op){
      case O_ADD: bin("bvadd");break; case O_SUB: bin("bvsub");break; case O_MUL: bin("bvmul");break;
      case O_UDIV: bin("bvudiv");break; case O_SDIV: bin("bvsdiv");break; case O_UREM: bin("bvurem");break; case O_SREM: bin("bvsrem");break;
      case O_AND: bin(b1?"and":"bvand");break; case O_OR: bin(b1?"or":"bvor");break; case O_XOR: bin(b1?"xor":"bvxor");break;
      case O_NOT: d=std::string(b1?"(not ":"(bvnot ")+a(0)+")";break;
      case O_SHL: bin("bvshl");break; case O_LSHR: bin("bvlshr");break; case O_ASHR: bin("bvashr");break;
      case O_CONCAT: d="(concat "+bref(e->k[0])+" "+bref(e->k[1])+")";break;
      case O_EXTRACT: d="((_ extract "+std::to_string(e->imm0+e->w-1)+" "+std::to_string(e->imm0)+") "+bref(e->k[0])+")"; if(b1) d="(= "+d+" #b1)"; break;
      case O_ZEXT: d="((_ zero_extend "+std::to_string(e->w-e->k[0]->w)+") "+bref(e->k[0])+")";break;
      case O_SEXT: d="((_ sign_extend "+std::to_string(e->w-e->k[0]->w)+") "+bref(e->k[0])+")";break;
      case O_ITE: d="(ite "+a(0)+" "+a(1)+" "+a(2)+")";break;
      case O_EQ: bin("=");break; case O_ULT: bin("bvult");break; case O_ULE: bin("bvule");break; case O_SLT: bin("bvslt");break; case O_SLE: bin("bvsle");break;
      case O_FADD: bin("fp.add RNE");break; case O_FSUB: bin("fp.sub RNE");break; case O_FMUL: bin("fp.mul RNE");break; case O_FDIV: bin("fp.div RNE");break;
      case O_FSQRT: d="(fp.sqrt RNE "+a(0)+")";break; case O_FNEG: d="(fp.neg "+a(0)+")";break; case O_FABS: d="(fp.abs "+a(0)+")";break;
      case O_FMA: d="(fp.fma RNE "+a(0)+" "+a(1)+" "+a(2)+")";break;
      case O_FRINT: { static const char* R[]={"RNE","RNA","RTN","RTP","RTZ"}; d=std::string("(fp.roundToIntegral ")+R[e->imm0]+" "+a(0)+")";break; }
      case O_FEQ: bin("fp.eq");break; case O_FLT: bin("fp.lt");break; case O_FLE: bin("fp.leq");break;
      case O_FISNAN: d="(fp.isNaN "+a(0)+")";break;
      case O_FPEXT: case O_FPTRUNC: d=std::string("(")+fto(e->sk)+" RNE "+a(0)+")";break;
      case O_SITOFP: d=std::string("(")+fto(e->sk)+" RNE "+bref(e->k[0])+")";break;
      case O_UITOFP: d=std::string("(")+(e->sk==S_F32?"(_ to_fp_unsigned 8 24)":"(_ to_fp_unsigned 11 53)")+" RNE "+bref(e->k[0])+")";break;
      case O_FPTOSI: d="((_ fp.to_sbv "+std::to_string(e->w)+") RTZ "+a(0)+")";break;
      case O_FPTOUI: d="((_ fp.to_ubv "+std::to_string(e->w)+") RTZ "+a(0)+")";break;
      case O_BITSF: d=std::string("(")+fto(e->sk)+" "+a(0)+")";break;
      case O_DYAD: {
        std::string v=std::string("(")+fto(e->sk)+" RNE "+bref(e->k[0])+")";
        if(e->imm0!=0){ double sc=std::ldexp(1.0,-e->imm0); E c=e->sk==S_F32?mkF32((float)sc):mkF64(sc); v="(fp.mul RNE "+v+" "+ref(c)+")"; }
        if(!e->k[1]->isFalse()) v="(ite (and "+ref(e->k[1])+" (= "+ref(e->k[0])+" "+bvc(e->k[0]->w,0)+")) "+ref(mkFBitsConst(e->sk,e->sk==S_F32?0x80000000ull:0x8000000000000000ull))+" "+v+")";
        d=v; break; }
      default: d="ERROR"; break;
    }
    o+="(define-fun "+n+" () "+sortOf(e)+" "+d+")\n";
  }
  o+=side; costlyLemmas(cost,o);
  std::sort(axs.begin(),axs.end(),[](E x,E y){return x->id<y->id;}); axs.erase(std::unique(axs.begin(),axs.end()),axs.end());
  for(E a:axs) if(!a->isTrue()) o+="(assert "+ref(a)+")\n";
  for(auto& [nm,v]:ufByName){ if(v.size()>40) continue;
    for(size_t i=0;i<v.size();i++) for(size_t j=i+1;j<v.size();j++){
      std::string c="(= "+ref(v[i]->k[0])+" "+ref(v[j]->k[0])+")"; if(v[i]->nk>1) c="(and "+c+" (= "+ref(v[i]->k[1])+" "+ref(v[j]->k[1])+"))";
      o+="(assert (=> "+c+" (= "+ref(v[i])+" "+ref(v[j])+")))\n"; } }
  for(E c:cs) o+="(assert "+ref(c)+")\n";
  for(E c:lemmas) o+="(assert "+ref(c)+")\n";
  return o;
}
bool validModel(const std::vector<E>& cs,const Model& m){ for(E c:cs) if(!evalBool(c,m)) return false; return true; }

// ------------------------------------------------------------ persistent z3
struct Proc { pid_t pid=-1; int in=-1,out=-1; std::string buf; };
static Proc g_z3;
static void startZ3(){
  int a[2],b[2]; if(pipe(a)||pipe(b)) abort();
  pid_t p=fork();
  if(p==0){ dup2(a[0],0); dup2(b[1],1); dup2(b[1],2); close(a[0]);close(a[1]);close(b[0]);close(b[1]); 
    execlp("z3-new","z3-new","-in","-memory:6000",(char*)0); _exit(127); }
  close(a[0]); close(b[1]); fcntl(a[1],F_SETFD,FD_CLOEXEC); fcntl(b[0],F_SETFD,FD_CLOEXEC);
  g_z3={p,a[1],b[0],""};
}
static void killZ3(){ if(g_z3.pid>0){ kill(g_z3.pid,SIGKILL); waitpid(g_z3.pid,nullptr,0); close(g_z3.in); close(g_z3.out); g_z3=Proc(); } }
static bool talk(const std::string& s,int ms,std::string& out){
  signal(SIGPIPE,SIG_IGN);
  if(g_z3.pid<0) startZ3();
  std::string q=s+"(echo \"@@done\")\n"; size_t off=0; double end=nowS()+ms/1000.0; out.clear();
  fcntl(g_z3.in,F_SETFL,O_NONBLOCK);
  char b[65536];
  while(true){
    double left=end-nowS(); if(left<=0){ killZ3(); return false; }
    struct pollfd p[2]={{g_z3.out,POLLIN,0},{g_z3.in,(short)(off<q.size()?POLLOUT:0),0}};
    int r=poll(p,off<q.size()?2:1,(int)(left*1000)+1); if(r<0) continue;
    if(off<q.size()&&(p[1].revents&POLLOUT)){ ssize_t n=write(g_z3.in,q.data()+off,q.size()-off); if(n>0) off+=n; else if(n<0&&errno!=EAGAIN){ killZ3(); return false; } }
    if(p[0].revents&(POLLIN|POLLHUP)){ ssize_t n=read(g_z3.out,b,sizeof b); if(n<=0){ killZ3(); return false; } out.append(b,n);
      size_t k=out.find("@@done"); if(k!=std::string::npos){ out.resize(k); return true; } }
  }
}
static bool parseVal(const std::string& t,u128& v){
  if(t=="true"){v=1;return true;} if(t=="false"){v=0;return true;}
  if(t.size()>2&&t[0]=='#'){ v=0; if(t[1]=='b') for(size_t i=2;i<t.size();i++) v=v*2+(t[i]-'0'); else for(size_t i=2;i<t.size();i++){ char c=t[i]; v=v*16+(c<='9'?c-'0':(c|32)-'a'+10);} return true; }
  return false;
}
static void parseModel(const std::string& s,std::map<std::string,u128>& out){
  // ((e12 #x..) (e13 true))
  size_t i=0; while((i=s.find("(e",i))!=std::string::npos){ size_t j=s.find_first_of(" )",i+1); std::string n=s.substr(i+1,j-i-1); while(j<s.size()&&isspace(s[j])) j++; size_t k=s.find_first_of(" )\n",j); u128 v; if(parseVal(s.substr(j,k-j),v)) out[n]=v; i=k==std::string::npos?s.size():k; }
}
static void fillModel(const std::map<std::string,u128>& mv,const std::vector<uint32_t>& vars,Model& m){
  for(uint32_t v:vars){ auto it=mv.find("e"+std::to_string(g_vars[v].e->id)); if(it!=mv.end()) m.var[v]=it->second; }
}
// refinement lemmas for UF apps under the solver's model
static bool refine(const std::vector<E>& ufs,const std::map<std::string,u128>& mv,Model m /*var filled*/,std::vector<E>& lem){
  Model over=m; over.memo.clear();
  for(E u:ufs){ auto it=mv.find("e"+std::to_string(u->id)+"b"); if(it!=mv.end()) over.uf[u]=it->second; }
  Model nat=m; nat.memo.clear();
  bool any=false;
  auto add=[&](E u,u128 a,u128 b){
    double x=u->sk==S_F32?(double)asF32(a):asF64(a), y=u->nk>1?(u->sk==S_F32?(double)asF32(b):asF64(b)):0;
    double r=nativeUF(g_uf[u->imm0],u->sk,x,y);
    E ca=mkFBitsConst(u->sk,(uint64_t)a); E c=mkFIdent(u->k[0],ca); if(u->nk>1) c=mkAnd(c,mkFIdent(u->k[1],mkFBitsConst(u->sk,(uint64_t)b)));
    E rv=u->sk==S_F32?mkF32((float)r):mkF64(r);
    E l=mkOr(mkNot(c),mkFIdent(u,rv)); if(l->isTrue()) return; for(E z:lem) if(z==l) return; lem.push_back(l); any=true; 
    // monotone functions: interval lemmas (with a one-ulp allowance)
    const std::string& n=g_uf[u->imm0];
    if(n=="pow"&&u->sk==S_F64&&u->k[1]->isConst()&&asF64(b)>0&&x>=0&&std::isfinite(r)){ // increasing on [0,inf); the library is accurate to an ulp
      E up=mkF64(r*(1+1e-13)+1e-300),dn=mkF64(std::max(0.0,r*(1-1e-13)-1e-300)); E z=mkF64(0);
      lem.push_back(mkOr(mkNot(mkAnd(mkFLe(z,u->k[0]),mkFLe(u->k[0],ca))),mkFLe(u,up))); lem.push_back(mkOr(mkNot(mkFLe(ca,u->k[0])),mkFLe(dn,u))); }
    if((n=="asin"||n=="atan"||n=="exp")&&!std::isnan(r)&&u->sk==S_F32){
      float rf=(float)r; E up=mkF32(std::nextafterf(rf,INFINITY)),dn=mkF32(std::nextafterf(rf,-INFINITY));
      lem.push_back(mkOr(mkNot(mkFLe(u->k[0],ca)),mkOr(mkFIsNan(u),mkFLe(u,up)))); lem.push_back(mkOr(mkNot(mkFLe(ca,u->k[0])),mkOr(mkFIsNan(u),mkFLe(dn,u)))); }
  };
  for(E u:ufs){
    u128 a=evalExpr(u->k[0],over),b=u->nk>1?evalExpr(u->k[1],over):0; u128 cur=evalExpr(u,over);
    double x=u->sk==S_F32?(double)asF32(a):asF64(a), y=u->nk>1?(u->sk==S_F32?(double)asF32(b):asF64(b)):0;
    double r=nativeUF(g_uf[u->imm0],u->sk,x,y); u128 rb=u->sk==S_F32?(u128)bitsF32((float)r):(u128)bitsF64(r);
    if(rb!=cur) add(u,a,b);
    add(u,evalExpr(u->k[0],nat),u->nk>1?evalExpr(u->k[1],nat):0);
  }
  return any;
}
static std::unordered_map<std::string,std::pair<Res,Model>> g_cache;
static std::string cacheKey(std::vector<E> cs){ std::sort(cs.begin(),cs.end(),[](E a,E b){return a->id<b->id;}); std::string k; for(E c:cs){ k.append((const char*)&c->id,4);} return k; }

static bool parseIntModel(const std::string& o,const std::vector<uint32_t>& vars,Model& m){ // ((t12 5) (t13 (- 3)) (t14 true))
  for(uint32_t v:vars){ E e=g_vars[v].e; std::string n="(t"+std::to_string(e->id)+" "; size_t i=o.find(n); if(i==std::string::npos) return false; i+=n.size(); bool neg=false;
    if(o.compare(i,4,"true")==0){ m.var[v]=1; continue; } if(o.compare(i,5,"false")==0){ m.var[v]=0; continue; }
    if(o.compare(i,3,"(- ")==0){ neg=true; i+=3; } u128 x=0; bool dig=false; while(i<o.size()&&isdigit(o[i])){ x=x*10+(o[i]-'0'); i++; dig=true; } if(!dig) return false; if(neg) x=-x; m.var[v]=x&maskw(e->w); }
  return true;
}
static std::string getInt(const std::vector<uint32_t>& vars){ std::string g; if(vars.empty()) return g; g="(get-value ("; for(uint32_t v:vars) g+=" t"+std::to_string(g_vars[v].e->id); return g+"))\n"; }
Res quickCheck(const std::vector<E>& cs0,Model* out,int ms){
  std::vector<E> cs; for(E c:cs0){ if(c->isFalse()){ g_stats.folded++; return R_UNSAT; } if(!c->isTrue()) cs.push_back(c); }
  if(cs.empty()){ g_stats.folded++; return R_SAT; }
  std::sort(cs.begin(),cs.end(),[](E a,E b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
  std::string key=cacheKey(cs); auto it=g_cache.find(key);
  if(it!=g_cache.end()&&(it->second.first!=R_UNKNOWN||true)){ g_stats.cached++; if(out) *out=it->second.second; return it->second.first; }
  double t0=nowS(); g_stats.queries++;
  std::vector<E> lem; Res res=R_UNKNOWN; Model m; double end=t0+ms/1000.0;
  if(!getenv("INK_NOBV")){ bool fp=hasAdd(cs)||hasCostly(cs); Model bm; res=bvCheck(cs,fp?300:20000,&bm); if(res!=R_UNKNOWN){ g_stats.bv++; if(res==R_SAT) m=bm; }
    if(res==R_UNSAT&&getenv("INK_BVCHECK")){ std::string o; if(talk("(reset)\n(set-option :timeout 20000)\n(set-logic QF_FPBV)\n"+toSmt(cs,lem,false,0,nullptr,nullptr)+"(check-sat)\n",21000,o)&&o.find("unsat")==std::string::npos&&o.find("sat")!=std::string::npos&&o.find("error")==std::string::npos){ fprintf(stderr,"[bv] WRONG UNSAT\n"); static int k=0; if(k++<2) for(E c:cs) fprintf(stderr,"   %s\n",show(c,30).c_str()); } }
    end=nowS()+ms/1000.0; }
  if(res==R_UNKNOWN&&(hasAdd(cs)||hasCostly(cs))){ std::string b,o; bool nl; if(toLra(cs,b,nl)){ int t=nl?ms/4:ms/2;
      if(talk("(reset)\n(set-option :timeout "+std::to_string(t)+")\n(set-logic "+(nl?"QF_NRA":"QF_LRA")+")\n"+b+"(check-sat)\n",t+500,o)&&o.find("(error")==std::string::npos){ if(o.find("unsat")!=std::string::npos){ res=R_UNSAT; g_stats.lra++; } }
      else if(o.find("(error")!=std::string::npos){ static int shown=0; if(shown++<3){ fprintf(stderr,"[smt] lra error: %s\n",o.substr(0,300).c_str()); if(getenv("INK_DUMP")){ std::ofstream f("/tmp/lra_err.smt2"); f<<b; } } }
      end=nowS()+ms/1000.0; } }
  if(res==R_UNKNOWN&&hasAdd(cs)){
    std::string o; if(talk("(reset)\n(set-option :timeout "+std::to_string(ms/4)+")\n(set-logic QF_FPBV)\n"+toSmt(cs,lem,false,2,nullptr,nullptr)+"(check-sat)\n",ms/4+500,o)&&o.find("unsat")!=std::string::npos&&o.find("(error")==std::string::npos){ res=R_UNSAT; g_stats.abstracted++; }
    else if(o.find("(error")!=std::string::npos){ static int shown=0; if(shown++<3) fprintf(stderr,"[smt] abstract2 error: %s\n",o.substr(0,300).c_str()); }
    end=nowS()+ms/1000.0; }
  if(res==R_UNKNOWN&&hasCostly(cs)){  // cheap over-approximation first: only its "unsat" is used
    std::string q="(reset)\n(set-option :timeout "+std::to_string(ms/2)+")\n(set-logic QF_FPBV)\n"+toSmt(cs,lem,false,1,nullptr,nullptr)+"(check-sat)\n"; std::string o;
    if(talk(q,ms/2+500,o)&&o.find("unsat")!=std::string::npos&&o.find("(error")==std::string::npos){ res=R_UNSAT; g_stats.abstracted++; }
    else if(o.find("(error")!=std::string::npos){ static int shown=0; if(shown++<3) fprintf(stderr,"[smt] abstract error: %s\n",o.substr(0,300).c_str()); }
    end=nowS()+ms/1000.0;
  }
  if(res==R_UNKNOWN&&cs.size()>=1&&hasMul(cs)){ std::string b,o; bool comp,nl; // products as opaque integers: only "unsat" is used
    if(toLia(cs,b,comp,nl,nullptr,true)&&!nl&&talk("(reset)\n(set-option :timeout "+std::to_string(ms/2)+")\n(set-logic QF_LIA)\n"+b+"(check-sat)\n",ms/2+500,o)){
      if(o.find("(error")!=std::string::npos){ static int shown=0; if(shown++<3) fprintf(stderr,"[smt] lia error: %s\n",o.substr(0,300).c_str()); }
      else if(o.find("unsat")!=std::string::npos){ res=R_UNSAT; g_stats.lia++; } }
    end=nowS()+ms/1000.0; }
  bool linear=false;
  if(res==R_UNKNOWN&&cs.size()>1){ std::string b; bool comp,nl; std::vector<uint32_t> vs; 
    if(toLia(cs,b,comp,nl,&vs)&&!nl&&(comp||!hasCostly(cs))&&b.size()>600){ std::string o; 
      if(talk("(reset)\n(set-option :timeout "+std::to_string(ms/2)+")\n(set-logic QF_LIA)\n"+b+"(check-sat)\n",ms/2+500,o)&&o.find("(error")==std::string::npos){
        if(o.find("unsat")!=std::string::npos){ res=R_UNSAT; g_stats.lia++; }
        else if(o.find("sat")!=std::string::npos&&o.find("unknown")==std::string::npos&&comp){ m=Model(); std::string o2,g=getInt(vs); if(!g.empty()&&talk(g,5000,o2)&&parseIntModel(o2,vs,m)&&validModel(cs,m)){ res=R_SAT; g_stats.lia++; } } }
      else if(o.find("(error")!=std::string::npos){ static int shown=0; if(shown++<3) fprintf(stderr,"[smt] lia error: %s\n",o.substr(0,300).c_str()); }
      linear=true; end=nowS()+ms/1000.0; } }
  (void)linear;
  for(int round=0;res==R_UNKNOWN&&round<14;round++){
    std::vector<uint32_t> vars; std::vector<E> ufs; std::string body=toSmt(cs,lem,false,0,&vars,&ufs);
    int left=(int)((end-nowS())*1000); if(left<50) break;
    std::string q="(reset)\n(set-option :timeout "+std::to_string(left)+")\n(set-option :pp.bv_literals true)\n(set-logic QF_FPBV)\n"+body+"(check-sat)\n";
    std::string o; if(!talk(q,left+1500,o)){ break; }
    if(o.find("(error")!=std::string::npos){ static int shown=0; if(shown++<3) fprintf(stderr,"[smt] error: %s\n",o.substr(0,300).c_str()); break; }
    if(o.find("unsat")!=std::string::npos){ res=R_UNSAT; break; }
    if(o.find("unknown")!=std::string::npos||o.find("timeout")!=std::string::npos||o.find("sat")==std::string::npos) break;
    std::string g="(get-value ("; bool any=false; for(uint32_t v:vars){ g+=" e"+std::to_string(g_vars[v].e->id); any=true; } for(E u:ufs){ g+=" e"+std::to_string(u->id)+"b"; any=true; } g+="))\n";
    std::map<std::string,u128> mv; if(any){ if(!talk(g,5000,o)) break; parseModel(o,mv); }
    m=Model(); fillModel(mv,vars,m);
    if(validModel(cs,m)){ res=R_SAT; break; }
    if(ufs.empty()) break;
    g_stats.cegar++; m.memo.clear(); if(!refine(ufs,mv,m,lem)) break;
  }
  if(res==R_UNKNOWN&&getenv("INK_DUMP")){ static int dn=0; { std::string b; bool nl; if(toLra(cs,b,nl)){ std::ofstream rf("/tmp/unk_"+std::to_string(dn)+".r.smt2"); rf<<"(set-logic "<<(nl?"QF_NRA":"QF_LRA")<<")\n"<<b<<"(check-sat)\n"; } } std::ofstream df("/tmp/unk_"+std::to_string(dn++)+".smt2"); df<<"(set-logic QF_FPBV)\n"<<toSmt(cs,lem,false,0,nullptr,nullptr)<<"(check-sat)\n"; fprintf(stderr,"[unknown] "); for(E c:cs) fprintf(stderr,"  %s\n",show(c,14).c_str()); }
  if(res==R_SAT) g_stats.sat++; else if(res==R_UNSAT) g_stats.unsat++; else g_stats.unknown++;
  g_stats.solver_s+=nowS()-t0;
  m.memo.clear(); m.memo=std::unordered_map<uint32_t,u128>();
  g_cache[key]={res,m}; if(out&&res==R_SAT) *out=m; return res;
}

// ------------------------------------------------------------ model search (never proves anything; only proposes models that are then evaluated)
static u128 pickVal(std::mt19937_64& r,const VarInfo& v){
  E e=v.e; int w=e->w; 
  int64_t fm=w==64?INT64_MIN:-((int64_t)1<<(w-1)), fM=w==64?INT64_MAX:((int64_t)1<<(w-1))-1;
  if(w>1&&w<=64&&(e->smin!=fm||e->smax!=fM)){ int c=r()%8; i128 span=(i128)e->smax-e->smin+1; if(c==0) return (u128)(i128)e->smin&maskw(w); if(c==1) return (u128)(i128)e->smax&maskw(w); if(c==2&&e->smin<=0&&e->smax>=0) return 0; i128 x=e->smin+(i128)((u128)r()%(u128)span); return (u128)x&maskw(w); }
  static const float F[]={0.f,-0.f,1.f,-1.f,0.5f,2.f,1e-45f,1.17549435e-38f,3.4028235e38f,-3.4028235e38f,INFINITY,-INFINITY,NAN,3.14159274f,6.28318548f,1.57079637f,1e-7f,16777216.f,0.99999994f,1.00000012f};
  int c=r()%6;
  if(w==32&&c<3) return bitsF32(F[r()%20]);
  if(w==32&&c==3){ float f=(float)((double)(int64_t)(r()%2001-1000)/ (double)(1<<(r()%8))); return bitsF32(f); }
  if(w==64&&c<2) return bitsF64(F[r()%20]);
  if(c==4) return r()%5; if(c==5) return maskw(w)-(r()%3);
  return (((u128)r()<<64)|r())&maskw(w);
}
bool searchModel(const std::vector<E>& cs,Model* out,double secs,uint64_t seed){
  std::vector<uint32_t> vs; for(E c:cs){ std::vector<uint32_t> t; auto& v=varsOf(c); std::set_union(vs.begin(),vs.end(),v.begin(),v.end(),std::back_inserter(t)); vs.swap(t);} 
  while(!vs.empty()&&vs.back()>=0x40000000u) vs.pop_back(); if(vs.empty()) return false;
  std::mt19937_64 r(seed); double end=nowS()+secs; Model best; int bs=-1; g_stats.search++;
  int stale=0;
  while(nowS()<end){
    Model m; if(bs<0||stale>300){ for(uint32_t v:vs) m.var[v]=pickVal(r,g_vars[v]); bs=-1; stale=0; }
    else { m.var=best.var; int n=1+r()%2; for(int i=0;i<n;i++){ uint32_t v=vs[r()%vs.size()]; switch(r()%5){ case 0: m.var[v]=m.var[vs[r()%vs.size()]]&maskw(g_vars[v].w); break; case 1: m.var[v]=(m.var[v]+((r()&1)?1:-1))&maskw(g_vars[v].w); break; case 2: m.var[v]^=(u128)1<<(r()%g_vars[v].w); break; default: m.var[v]=pickVal(r,g_vars[v]); } } }
    int sc=0; bool ok=true; for(E c:cs) if(evalBool(c,m)) sc++; else ok=false;
    if(ok){ for(uint32_t v:vs){ E e=g_vars[v].e; if(e->w>1&&e->w<=64){ int64_t s=(int64_t)(i128)(m.var[v]<<(128-e->w))>>0; (void)s; i128 x=(i128)(m.var[v]<<(128-e->w))>>(128-e->w); if(x<e->smin||x>e->smax) ok=false; } } }
    if(ok){ m.memo.clear(); *out=m; return true; }
    if(sc>=bs){ stale=sc>bs?0:stale+1; bs=sc; best=m; best.memo.clear(); } else stale++;
  }
  return false;
}

// ------------------------------------------------------------ portfolio
struct Run { HardJob* j; std::vector<pid_t> pids; std::vector<std::string> outs, names; double t0, end; std::vector<E> lem; std::vector<uint32_t> vars, ivars; std::vector<E> ufs; int round=0; std::string base; };
static pid_t spawn(const std::string& cmd,const std::string& out){
  pid_t p=fork(); if(p==0){ setpgid(0,0); int fd=open(out.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,1); dup2(fd,2); int nul=open("/dev/null",O_RDONLY); dup2(nul,0); execl("/bin/sh","sh","-c",cmd.c_str(),(char*)0); _exit(127);} 
  setpgid(p,p); return p; }
static std::string slurp(const std::string& f){ std::ifstream i(f); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static int g_q=0;
static void launch(Run& r){
  std::string base=g_tmp+"/q"+std::to_string(getpid())+"_"+std::to_string(g_q++); r.base=base; r.vars.clear(); r.ufs.clear(); r.pids.clear(); r.outs.clear(); r.names.clear();
  int left=std::max(1,(int)(r.end-nowS()));
  std::string body=toSmt(r.j->cs,r.lem,false,0,&r.vars,&r.ufs);
  std::string g="(get-value ("; bool any=false; for(uint32_t v:r.vars){ g+=" e"+std::to_string(g_vars[v].e->id); any=true; } for(E u:r.ufs){ g+=" e"+std::to_string(u->id)+"b"; any=true; } g+="))\n"; if(!any) g="";
  std::string bodyb=toSmt(r.j->cs,r.lem,true,0,nullptr,nullptr);
  { std::ofstream f(base+".smt2"); f<<"(set-option :produce-models true)\n(set-logic QF_BVFP)\n"<<body<<"(check-sat)\n"<<g; }
  { std::ofstream f(base+".z3.smt2"); f<<"(set-option :pp.bv_literals true)\n(set-logic QF_FPBV)\n"<<body<<"(check-sat)\n"<<g; }
  { std::ofstream f(base+".b.smt2"); f<<bodyb; }
  auto add=[&](const std::string& n,const std::string& c){ std::string o=base+"."+n+".out"; r.names.push_back(n); r.outs.push_back(o); r.pids.push_back(spawn("ulimit -v 12000000; exec "+c,o)); };
  add("z3-5","timeout "+std::to_string(left)+" z3-new "+base+".z3.smt2");
  add("kissat","timeout "+std::to_string(left)+" python3-vt "+g_tooldir+"/blast.py "+base+".b.smt2 "+base+".cnf");
  if(hasCostly(r.j->cs)){ std::ofstream f(base+".a.smt2"); f<<"(set-logic QF_FPBV)\n"<<toSmt(r.j->cs,r.lem,false,1,nullptr,nullptr)<<"(check-sat)\n"; f.close(); add("z3-abs","timeout "+std::to_string(left)+" z3-new "+base+".a.smt2"); }
  if(hasAdd(r.j->cs)){ std::ofstream f(base+".d.smt2"); f<<"(set-logic QF_FPBV)\n"<<toSmt(r.j->cs,r.lem,false,2,nullptr,nullptr)<<"(check-sat)\n"; f.close(); add("z3-abs2","timeout "+std::to_string(std::min(left,20))+" z3-new "+base+".d.smt2"); }
  { std::string b; bool comp,nl; r.ivars.clear(); if(toLia(r.j->cs,b,comp,nl,&r.ivars)&&b.size()>300){ std::ofstream f(base+".i.smt2"); f<<"(set-logic "<<(nl?"QF_NIA":"QF_LIA")<<")\n"<<b<<"(check-sat)\n"<<(comp?getInt(r.ivars):""); f.close(); add("z3-int","timeout "+std::to_string(left)+" z3-new "+base+".i.smt2"); } }
  if(hasMul(r.j->cs)){ std::string b; bool comp,nl; if(toLia(r.j->cs,b,comp,nl,nullptr,true)&&!nl){ std::ofstream f(base+".l.smt2"); f<<"(set-logic QF_LIA)\n"<<b<<"(check-sat)\n"; f.close(); add("z3-lin","timeout "+std::to_string(left)+" z3-new "+base+".l.smt2"); } }
  if(hasCostly(r.j->cs)||hasAdd(r.j->cs)){ std::string b; bool nl; if(toLra(r.j->cs,b,nl)){ std::ofstream f(base+".r.smt2"); f<<"(set-logic "<<(nl?"QF_NRA":"QF_LRA")<<")\n"<<b<<"(check-sat)\n"; f.close(); add("z3-real","timeout "+std::to_string(left)+" z3-new "+base+".r.smt2"); if(nl) add("cvc5-real","timeout "+std::to_string(left)+" cvc5 "+base+".r.smt2"); } }
  add("cvc5","timeout "+std::to_string(left)+" cvc5 --fp-exp "+base+".smt2");
}
static void stopRun(Run& r){ for(pid_t p:r.pids) if(p>0){ kill(-p,SIGKILL); kill(p,SIGKILL); waitpid(p,nullptr,0);} r.pids.clear(); 
  for(const char* s:{".smt2",".z3.smt2",".b.smt2",".cnf",".z3-5.out",".kissat.out",".cvc5.out",".a.smt2",".z3-abs.out",".i.smt2",".z3-int.out",".l.smt2",".z3-lin.out",".d.smt2",".z3-abs2.out",".r.smt2",".z3-real.out",".cvc5-real.out"}) unlink((r.base+s).c_str()); }
void hardCheckAll(std::vector<HardJob*>& jobs,int par,double perJob,double total){
  size_t next=0; std::vector<Run*> act; double end=nowS()+total;
  while(next<jobs.size()||!act.empty()){
    while((int)act.size()<par&&next<jobs.size()&&nowS()<end-1){ Run* r=new Run; r->j=jobs[next++]; r->t0=nowS(); r->end=std::min(end,nowS()+perJob); g_stats.queries++; launch(*r); act.push_back(r); }
    if(act.empty()){ break; }
    usleep(5000);
    for(size_t i=0;i<act.size();i++){ Run& r=*act[i]; bool done=false; bool alive=false;
      for(size_t k=0;k<r.pids.size();k++){ if(r.pids[k]<=0) continue; int st; pid_t w=waitpid(r.pids[k],&st,WNOHANG); if(w==0){ alive=true; continue; } r.pids[k]=0;
        std::string o=slurp(r.outs[k]); std::string first=o.substr(0,o.find('\n'));
        if(first=="unsat"){ r.j->res=R_UNSAT; r.j->by=r.names[k]; done=true; break; }
        if(first=="sat"&&r.names[k]=="z3-int"){ Model m; if(parseIntModel(o,r.ivars,m)&&validModel(r.j->cs,m)){ m.memo.clear(); r.j->res=R_SAT; r.j->model=m; r.j->by=r.names[k]; done=true; break; } }
        else if(first=="sat"&&r.names[k].compare(0,6,"z3-abs")){ std::map<std::string,u128> mv; parseModel(o,mv); Model m; fillModel(mv,r.vars,m);
          if(validModel(r.j->cs,m)){ m.memo.clear(); r.j->res=R_SAT; r.j->model=m; r.j->by=r.names[k]; done=true; break; }
          m.memo.clear();
          if(!r.ufs.empty()&&r.round<40&&nowS()<r.end-1&&refine(r.ufs,mv,m,r.lem)){ stopRun(r); r.round++; g_stats.cegar++; launch(r); alive=true; break; }
        } }
      if(!done&&(!alive||nowS()>r.end+3)){ done=true; }
      if(done){ stopRun(r); r.j->secs=nowS()-r.t0; g_stats.solver_s+=r.j->secs; if(r.j->res==R_SAT) g_stats.sat++; else if(r.j->res==R_UNSAT) g_stats.unsat++; else g_stats.unknown++; g_stats.by.push_back(r.j->by); delete act[i]; act.erase(act.begin()+i); i--; }
    }
  }
}
}  // namespace sx
