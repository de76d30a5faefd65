#include "expr.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <unordered_set>
#include <deque>
#include <sstream>
#include <cassert>
#include <limits>
#include <map>

namespace sx {
const char* kOpName[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","fsqrt","fneg","fabs","fma","frint","feq","flt","fle","fisnan","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","fbits","bitsf","dyad","uf"};
std::vector<VarInfo> g_vars;
std::vector<std::string> g_uf;
uint64_t g_nexprs = 0;
std::unordered_map<E, std::vector<E>> g_axioms;
static const double INF = std::numeric_limits<double>::infinity();

float asF32(u128 b){ uint32_t x=(uint32_t)b; float f; memcpy(&f,&x,4); return f; }
double asF64(u128 b){ uint64_t x=(uint64_t)b; double f; memcpy(&f,&x,8); return f; }
uint32_t bitsF32(float f){ uint32_t x; memcpy(&x,&f,4); return x; }
uint64_t bitsF64(double d){ uint64_t x; memcpy(&x,&d,8); return x; }
u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
static i128 sgn(u128 v, unsigned w){ v&=maskw(w); if(w<128 && (v>>(w-1)&1)) v|=~maskw(w); return (i128)v; }
static double fpval(SortK sk,u128 c){ return sk==S_F32?(double)asF32(c):asF64(c); }
static u128 fpbits(SortK sk,double d){ return sk==S_F32?(u128)bitsF32((float)d):(u128)bitsF64(d); }

struct KeyHash { size_t operator()(const Expr* e) const {
  uint64_t h = e->op*1000003ull + e->sk*77 + e->w*131;
  h = h*0x9E3779B97F4A7C15ull + (uint32_t)e->imm0; h = h*0x9E3779B97F4A7C15ull + (uint32_t)e->imm1;
  h = (h^(uint64_t)e->c)*0x9E3779B97F4A7C15ull; h = (h^(uint64_t)(e->c>>64))*0x9E3779B97F4A7C15ull;
  for (int i=0;i<e->nk;i++) h = (h ^ (uint64_t)(uintptr_t)e->k[i])*0xff51afd7ed558ccdull, h^=h>>32;
  return h ^ (h>>29); } };
struct KeyEq { bool operator()(const Expr* a,const Expr* b) const {
  return a->op==b->op&&a->sk==b->sk&&a->w==b->w&&a->imm0==b->imm0&&a->imm1==b->imm1&&a->c==b->c&&a->nk==b->nk&&a->k[0]==b->k[0]&&a->k[1]==b->k[1]&&a->k[2]==b->k[2]; } };
static std::unordered_set<Expr*,KeyHash,KeyEq> g_tab;
static std::deque<Expr> g_pool;

static void fullBV(Expr* e){
  if(e->w>64){ return; }
  unsigned w=e->w;
  e->umin=0; e->umax=(uint64_t)maskw(w);
  if(w==64){ e->smin=INT64_MIN; e->smax=INT64_MAX; }
  else { e->smin=-((int64_t)1<<(w-1)); e->smax=((int64_t)1<<(w-1))-1; }
}
static void setU(Expr* e,u128 lo,u128 hi){ // unsigned range
  if(e->w>64) return;
  u128 m=maskw(e->w); if(lo>hi||hi>m) return;
  if((uint64_t)lo>e->umin) e->umin=(uint64_t)lo; if((uint64_t)hi<e->umax) e->umax=(uint64_t)hi;
  u128 half=(u128)1<<(e->w-1);
  if(e->umax<half){ e->smin=std::max<int64_t>(e->smin,e->umin); e->smax=std::min<int64_t>(e->smax,e->umax);}
  else if(e->umin>=half){ e->smin=std::max<int64_t>(e->smin,(int64_t)sgn(e->umin,e->w)); e->smax=std::min<int64_t>(e->smax,(int64_t)sgn(e->umax,e->w)); }
}
static void setS(Expr* e,i128 lo,i128 hi){
  if(e->w>64) return;
  i128 mn=-((i128)1<<(e->w-1)), mx=((i128)1<<(e->w-1))-1;
  if(lo>hi||lo<mn||hi>mx) return;
  e->smin=std::max<int64_t>(e->smin,(int64_t)lo); e->smax=std::min<int64_t>(e->smax,(int64_t)hi);
  if(e->smin>=0){ e->umin=std::max<uint64_t>(e->umin,e->smin); e->umax=std::min<uint64_t>(e->umax,e->smax);}
  else if(e->smax<0){ e->umin=std::max<uint64_t>(e->umin,(uint64_t)((u128)(i128)e->smin&maskw(e->w))); e->umax=std::min<uint64_t>(e->umax,(uint64_t)((u128)(i128)e->smax&maskw(e->w))); }
}
static double fop(Op op,SortK sk,double a,double b){
  if(sk==S_F32){ float x=(float)a,y=(float)b,r=0; switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;case O_FDIV:r=x/y;break;default:break;} return r; }
  double r=0; switch(op){case O_FADD:r=a+b;break;case O_FSUB:r=a-b;break;case O_FMUL:r=a*b;break;case O_FDIV:r=a/b;break;default:break;} return r;
}
static double frintv(double a,int rm){ switch(rm){case RM_NE:return std::nearbyint(a);case RM_NA:return std::round(a);case RM_DN:return std::floor(a);case RM_UP:return std::ceil(a);default:return std::trunc(a);} }

static void computeRange(Expr* e){
  if(!e->isFP()){
    if(e->w>64) return;
    fullBV(e);
    E a=e->k[0],b=e->k[1];
    switch(e->op){
      case O_CONST: { e->umin=e->umax=(uint64_t)e->c; e->smin=e->smax=(int64_t)sgn(e->c,e->w); break; }
      case O_ADD: if(a->w<=64){ setU(e,(u128)a->umin+b->umin,(u128)a->umax+b->umax); setS(e,(i128)a->smin+b->smin,(i128)a->smax+b->smax);} break;
      case O_SUB: if(a->umin>=b->umax) setU(e,a->umin-b->umax,a->umax-b->umin); setS(e,(i128)a->smin-b->smax,(i128)a->smax-b->smin); break;
      case O_MUL: { u128 h=(u128)a->umax*b->umax; setU(e,(u128)a->umin*b->umin,h);
        i128 p[4]={(i128)a->smin*b->smin,(i128)a->smin*b->smax,(i128)a->smax*b->smin,(i128)a->smax*b->smax};
        setS(e,*std::min_element(p,p+4),*std::max_element(p,p+4)); break; }
      case O_UDIV: if(b->umin>0) setU(e,a->umin/b->umax,a->umax/b->umin); break;
      case O_UREM: if(b->umin>0) setU(e,0,std::min<uint64_t>(a->umax,b->umax-1)); break;
      case O_SREM: if(b->op==O_CONST){ i128 m=b->smin<0?-(i128)b->smin:b->smin; if(m>0) setS(e,a->smin<0?std::max<i128>(-(m-1),a->smin):0,a->smax>0?std::min<i128>(m-1,a->smax):0);} break;
      case O_SDIV: if(b->op==O_CONST&&b->smin>0) setS(e,a->smin/b->smin,a->smax/b->smin); break;
      case O_AND: setU(e,0,std::min(a->umax,b->umax)); break;
      case O_OR: { uint64_t m=a->umax|b->umax; int n=0; while(n<64&&(m>>n)) n++; setU(e,std::max(a->umin,b->umin),maskw(n)); break; }
      case O_XOR: { uint64_t m=a->umax|b->umax; int n=0; while(n<64&&(m>>n)) n++; setU(e,0,maskw(n)); break; }
      case O_SHL: if(b->isConst()&&b->c<e->w){ setU(e,(u128)a->umin<<(unsigned)b->c,(u128)a->umax<<(unsigned)b->c); setS(e,(i128)a->smin*((i128)1<<(unsigned)b->c),(i128)a->smax*((i128)1<<(unsigned)b->c)); } break;
      case O_LSHR: if(b->isConst()&&b->c<e->w) setU(e,a->umin>>(unsigned)b->c,a->umax>>(unsigned)b->c); break;
      case O_ASHR: if(b->isConst()&&b->c<e->w) setS(e,a->smin>>(unsigned)b->c,a->smax>>(unsigned)b->c); break;
      case O_CONCAT: if(e->w<=64) setU(e,((u128)a->umin<<b->w)|b->umin,((u128)a->umax<<b->w)|b->umax); break;
      case O_EXTRACT: if(a->w<=64&&e->imm0==0&&a->umax<=(uint64_t)maskw(e->w)) setU(e,a->umin,a->umax);
        if(a->w<=64&&e->imm0==0) setS(e,a->smin,a->smax);
        if(a->w<=64&&e->imm0>0&&e->imm0+e->w==a->w) setU(e,a->umin>>e->imm0,a->umax>>e->imm0); break;
      case O_ZEXT: setU(e,a->umin,a->umax); break;
      case O_SEXT: setS(e,a->smin,a->smax); break;
      case O_ITE: { E x=e->k[1],y=e->k[2]; setU(e,std::min(x->umin,y->umin),std::max(x->umax,y->umax)); setS(e,std::min(x->smin,y->smin),std::max(x->smax,y->smax)); break; }
      case O_FPTOSI: { if(!a->fnan&&std::isfinite(a->flo)&&std::isfinite(a->fhi)&&a->flo>-9e18&&a->fhi<9e18) setS(e,(i128)std::trunc(a->flo),(i128)std::trunc(a->fhi)); break; }
      case O_FPTOUI: { if(!a->fnan&&std::isfinite(a->flo)&&std::isfinite(a->fhi)&&a->flo>-1&&a->fhi<1.8e19) setU(e,(u128)std::max(0.0,std::trunc(a->flo)),(u128)std::trunc(a->fhi)); break; }
      default: break;
    }
    return;
  }
  E a=e->k[0],b=e->k[1]; SortK sk=e->sk;
  e->flo=-INF; e->fhi=INF; e->fnan=true;
  auto top=[&]{ e->flo=-INF; e->fhi=INF; e->fnan=true; };
  switch(e->op){
    case O_CONST:{ double v=fpval(sk,e->c); if(std::isnan(v)){ e->flo=INF; e->fhi=-INF; e->fnan=true;} else { e->flo=e->fhi=v; e->fnan=false;} break; }
    case O_FADD: case O_FSUB: {
      if(a->flo>a->fhi||b->flo>b->fhi) {top();break;}
      double bl=b->flo,bh=b->fhi; if(e->op==O_FSUB){ double t=bl; bl=-bh; bh=-t; }
      bool nan=a->fnan||b->fnan|| (a->fhi==INF&&bl==-INF)||(a->flo==-INF&&bh==INF);
      double lo=fop(O_FADD,sk,a->flo,bl),hi=fop(O_FADD,sk,a->fhi,bh);
      if(std::isnan(lo)) lo=-INF; if(std::isnan(hi)) hi=INF;
      if(a->flo==-INF||bl==-INF) lo=-INF; if(a->fhi==INF||bh==INF) hi=INF;
      e->flo=lo;e->fhi=hi;e->fnan=nan; break; }
    case O_FMUL: {
      if(a->flo>a->fhi||b->flo>b->fhi) {top();break;}
      bool ainf=std::isinf(a->flo)||std::isinf(a->fhi), binf=std::isinf(b->flo)||std::isinf(b->fhi);
      bool az=a->flo<=0&&a->fhi>=0, bz=b->flo<=0&&b->fhi>=0;
      e->fnan=a->fnan||b->fnan||(ainf&&bz)||(binf&&az);
      double p[4]={fop(O_FMUL,sk,a->flo,b->flo),fop(O_FMUL,sk,a->flo,b->fhi),fop(O_FMUL,sk,a->fhi,b->flo),fop(O_FMUL,sk,a->fhi,b->fhi)};
      double lo=INF,hi=-INF; for(double x:p){ if(std::isnan(x)) x=0; lo=std::min(lo,x); hi=std::max(hi,x);} 
      e->flo=lo;e->fhi=hi; 
      if(a==b){ e->flo=std::max(e->flo,0.0); e->fnan=a->fnan; }
      break; }
    case O_FDIV: {
      if(a->flo>a->fhi||b->flo>b->fhi) {top();break;}
      bool ainf=std::isinf(a->flo)||std::isinf(a->fhi), binf=std::isinf(b->flo)||std::isinf(b->fhi);
      bool az=a->flo<=0&&a->fhi>=0, bz=b->flo<=0&&b->fhi>=0;
      e->fnan=a->fnan||b->fnan||(ainf&&binf)||(az&&bz);
      if(bz){ if(b->flo==0&&b->fhi==0) break; 
        break; }
      double p[4]={fop(O_FDIV,sk,a->flo,b->flo),fop(O_FDIV,sk,a->flo,b->fhi),fop(O_FDIV,sk,a->fhi,b->flo),fop(O_FDIV,sk,a->fhi,b->fhi)};
      double lo=INF,hi=-INF; bool bad=false; for(double x:p){ if(std::isnan(x)) {bad=true;break;} lo=std::min(lo,x); hi=std::max(hi,x);} 
      if(!bad){e->flo=lo;e->fhi=hi;} break; }
    case O_FNEG: e->flo=-a->fhi; e->fhi=-a->flo; e->fnan=a->fnan; break;
    case O_FABS: e->fnan=a->fnan; if(a->flo>a->fhi){ e->flo=0;e->fhi=INF;} else if(a->flo>=0){e->flo=a->flo;e->fhi=a->fhi;} else if(a->fhi<=0){e->flo=-a->fhi;e->fhi=-a->flo;} else {e->flo=0;e->fhi=std::max(-a->flo,a->fhi);} break;
    case O_FSQRT: e->fnan=a->fnan||a->flo<0; e->flo=0; e->fhi= a->fhi>=0? (sk==S_F32? (double)std::sqrt((float)a->fhi):std::sqrt(a->fhi)):INF; if(a->flo>0) e->flo=sk==S_F32?(double)std::sqrt((float)a->flo):std::sqrt(a->flo); break;
    case O_FRINT: e->fnan=a->fnan; e->flo=std::isfinite(a->flo)?frintv(a->flo,e->imm0):a->flo; e->fhi=std::isfinite(a->fhi)?frintv(a->fhi,e->imm0):a->fhi; break;
    case O_FPEXT: e->flo=a->flo;e->fhi=a->fhi;e->fnan=a->fnan; break;
    case O_FPTRUNC: e->flo=(float)a->flo;e->fhi=(float)a->fhi;e->fnan=a->fnan; break;
    case O_SITOFP: e->fnan=false; if(a->w<=64){ e->flo=sk==S_F32?(double)(float)a->smin:(double)a->smin; e->fhi=sk==S_F32?(double)(float)a->smax:(double)a->smax; } break;
    case O_UITOFP: e->fnan=false; if(a->w<=64){ e->flo=sk==S_F32?(double)(float)a->umin:(double)a->umin; e->fhi=sk==S_F32?(double)(float)a->umax:(double)a->umax; } else e->flo=0; break;
    case O_DYAD: e->fnan=false; e->flo=std::ldexp((double)a->smin,-e->imm0); e->fhi=std::ldexp((double)a->smax,-e->imm0); break;
    case O_ITE: { E x=e->k[1],y=e->k[2]; e->fnan=x->fnan||y->fnan; e->flo=std::min(x->flo,y->flo); e->fhi=std::max(x->fhi,y->fhi); break; }
    default: break;
  }
}

static E intern(Expr& x){
  auto it=g_tab.find(&x); if(it!=g_tab.end()) return *it;
  g_pool.push_back(x); Expr* e=&g_pool.back(); e->id=(uint32_t)g_nexprs++;
  computeRange(e); g_tab.insert(e); return e;
}
static E node(Op op,SortK sk,unsigned w,E a=nullptr,E b=nullptr,E c=nullptr,int i0=0,int i1=0){
  Expr x; x.op=op;x.sk=sk;x.w=(uint16_t)w;x.nk=0;x.imm0=i0;x.imm1=i1;x.id=0;
  if(a) x.k[x.nk++]=a; if(b) x.k[x.nk++]=b; if(c) x.k[x.nk++]=c; return intern(x);
}
E mkConst(unsigned w,u128 v){ Expr x; x.op=O_CONST;x.sk=S_BV;x.w=w;x.nk=0;x.id=0;x.c=v&maskw(w); return intern(x); }
E mkBool(bool b){ static E t=mkConst(1,1),f=mkConst(1,0); return b?t:f; }
E mkFBitsConst(SortK sk,uint64_t bits){ Expr x; x.op=O_CONST;x.sk=sk;x.w=sk==S_F32?32:64;x.nk=0;x.id=0;x.c=bits; return intern(x); }
E mkF32(float f){ return mkFBitsConst(S_F32,bitsF32(f)); }
E mkF64(double f){ return mkFBitsConst(S_F64,bitsF64(f)); }
E mkVar(unsigned w,const std::string& name,int kind){ return mkVarRange(w,name,kind,1,0); }
E mkVarRange(unsigned w,const std::string& name,int kind,int64_t lo,int64_t hi){
  Expr x; x.op=O_VAR;x.sk=S_BV;x.w=w;x.nk=0;x.id=0;x.imm0=(int)g_vars.size();
  E e=intern(x); g_vars.push_back({name,(uint16_t)w,kind,e});
  if(lo<=hi){ setS(const_cast<Expr*>(e),lo,hi); }
  return e;
}
static unsigned fw(SortK s){ return s==S_F32?32:64; }

// ---------------------------------------------------------------- evaluation
double nativeUF(const std::string& n,SortK sk,double a,double b){
  if(sk==S_F32){ float x=(float)a,y=(float)b;
    if(n=="sin") return sinf(x); if(n=="cos") return cosf(x); if(n=="tan") return tanf(x); if(n=="asin") return asinf(x); if(n=="acos") return acosf(x); if(n=="atan") return atanf(x);
    if(n=="atan2") return atan2f(x,y); if(n=="hypot") return hypotf(x,y); if(n=="fmod") return fmodf(x,y); if(n=="pow") return powf(x,y); if(n=="exp") return expf(x); if(n=="log") return logf(x); if(n=="log2") return log2f(x); if(n=="exp2") return exp2f(x); if(n=="cbrt") return cbrtf(x); if(n=="remainder") return remainderf(x,y); if(n=="log10") return log10f(x);
    if(n=="nextafter") return nextafterf(x,y); if(n=="expm1") return expm1f(x);
  } else {
    double x=a,y=b;
    if(n=="sin") return sin(x); if(n=="cos") return cos(x); if(n=="tan") return tan(x); if(n=="asin") return asin(x); if(n=="acos") return acos(x); if(n=="atan") return atan(x);
    if(n=="atan2") return atan2(x,y); if(n=="hypot") return hypot(x,y); if(n=="fmod") return fmod(x,y); if(n=="pow") return pow(x,y); if(n=="exp") return exp(x); if(n=="log") return log(x); if(n=="log2") return log2(x); if(n=="exp2") return exp2(x); if(n=="cbrt") return cbrt(x); if(n=="remainder") return remainder(x,y); if(n=="log10") return log10(x);
    if(n=="nextafter") return nextafter(x,y); if(n=="expm1") return expm1(x);
  }
  fprintf(stderr,"nativeUF: unknown %s\n",n.c_str()); abort();
}
static u128 evalOp(E e,u128 a,u128 b,u128 c){
  unsigned w=e->w; E k0=e->k[0];
  auto M=[&](u128 v){ return v&maskw(w); };
  switch(e->op){
    case O_ADD:return M(a+b); case O_SUB:return M(a-b); case O_MUL:return M(a*b);
    case O_UDIV:return b? a/b : maskw(w); case O_UREM:return b? a%b : a;
    case O_SDIV:{ i128 x=sgn(a,w),y=sgn(b,w); if(!y) return x<0?1:maskw(w); if(y==-1) return M((u128)(-x)); return M((u128)(x/y)); }
    case O_SREM:{ i128 x=sgn(a,w),y=sgn(b,w); if(!y) return a; if(y==-1) return 0; return M((u128)(x%y)); }
    case O_AND:return a&b; case O_OR:return a|b; case O_XOR:return a^b; case O_NOT:return M(~a);
    case O_SHL:return b>=w?0:M(a<<(unsigned)b); case O_LSHR:return b>=w?0:a>>(unsigned)b;
    case O_ASHR:{ i128 x=sgn(a,w); unsigned s=b>=w?w-1:(unsigned)b; return M((u128)(x>>s)); }
    case O_CONCAT:return M((a<<e->k[1]->w)|b);
    case O_EXTRACT:return M(a>>e->imm0);
    case O_ZEXT:return a; case O_SEXT:return M((u128)sgn(a,k0->w));
    case O_ITE:return a?b:c;
    case O_EQ:return a==b; case O_ULT:return a<b; case O_ULE:return a<=b;
    case O_SLT:return sgn(a,k0->w)<sgn(b,k0->w); case O_SLE:return sgn(a,k0->w)<=sgn(b,k0->w);
    case O_FADD: if(e->sk==S_F32) return bitsF32(asF32(a)+asF32(b)); return bitsF64(asF64(a)+asF64(b));
    case O_FSUB: if(e->sk==S_F32) return bitsF32(asF32(a)-asF32(b)); return bitsF64(asF64(a)-asF64(b));
    case O_FMUL: if(e->sk==S_F32) return bitsF32(asF32(a)*asF32(b)); return bitsF64(asF64(a)*asF64(b));
    case O_FDIV: if(e->sk==S_F32) return bitsF32(asF32(a)/asF32(b)); return bitsF64(asF64(a)/asF64(b));
    case O_FSQRT: if(e->sk==S_F32) return bitsF32(sqrtf(asF32(a))); return bitsF64(sqrt(asF64(a)));
    case O_FNEG: return a ^ ((u128)1<<(w-1));
    case O_FABS: return a & ~((u128)1<<(w-1));
    case O_FMA: if(e->sk==S_F32) return bitsF32(fmaf(asF32(a),asF32(b),asF32(c))); return bitsF64(fma(asF64(a),asF64(b),asF64(c)));
    case O_FRINT: if(e->sk==S_F32) return bitsF32((float)frintv(asF32(a),e->imm0)); return bitsF64(frintv(asF64(a),e->imm0));
    case O_FEQ: if(k0->sk==S_F32) return asF32(a)==asF32(b); return asF64(a)==asF64(b);
    case O_FLT: if(k0->sk==S_F32) return asF32(a)<asF32(b); return asF64(a)<asF64(b);
    case O_FLE: if(k0->sk==S_F32) return asF32(a)<=asF32(b); return asF64(a)<=asF64(b);
    case O_FISNAN: if(k0->sk==S_F32) return std::isnan(asF32(a)); return std::isnan(asF64(a));
    case O_FPEXT: return bitsF64((double)asF32(a));
    case O_FPTRUNC: return bitsF32((float)asF64(a));
    case O_SITOFP:{ i128 v=sgn(a,k0->w); return e->sk==S_F32?(u128)bitsF32((float)v):(u128)bitsF64((double)v); }
    case O_UITOFP: return e->sk==S_F32?(u128)bitsF32((float)a):(u128)bitsF64((double)a);
    case O_FPTOSI:{ double v=fpval(k0->sk,a); if(!(v>-std::ldexp(1.0,w-1)-1 && v<std::ldexp(1.0,w-1))) return 0; return M((u128)(i128)std::trunc(v)); }
    case O_FPTOUI:{ double v=fpval(k0->sk,a); if(!(v>-1 && v<std::ldexp(1.0,w))) return 0; return M((u128)std::trunc(std::max(v,0.0))); }
    case O_FBITS: return a; case O_BITSF: return a;
    case O_DYAD:{ i128 v=sgn(a,k0->w); double d; if(v==0) d=b?-0.0:0.0; else d=std::ldexp((double)v,-e->imm0); return fpbits(e->sk,d); }
    case O_UF: { double x=fpval(k0->sk,a), y=e->nk>1?fpval(e->k[1]->sk,b):0; return fpbits(e->sk,nativeUF(g_uf[e->imm0],e->sk,x,y)); }
    default: break;
  }
  fprintf(stderr,"evalOp %s\n",kOpName[e->op]); abort();
}
u128 evalExpr(E e0,const Model& m){
  if(e0->isConst()) return e0->c;
  { auto it=m.memo.find(e0->id); if(it!=m.memo.end()) return it->second; }
  std::vector<std::pair<E,int>> st; st.push_back({e0,0});
  auto get=[&](E e,u128& v)->bool{ if(e->isConst()){v=e->c;return true;} auto it=m.memo.find(e->id); if(it==m.memo.end()) return false; v=it->second; return true; };
  while(!st.empty()){
    E e=st.back().first; u128 t;
    if(get(e,t)){ st.pop_back(); continue; }
    if(e->op==O_VAR){ auto it=m.var.find(e->imm0); u128 v=it==m.var.end()?0:it->second;
      if(it==m.var.end()&&e->w<=64&&!(e->smin<=0&&e->smax>=0)) v=(u128)(i128)e->smin&maskw(e->w);
      m.memo[e->id]=v; st.pop_back(); continue; }
    if(e->op==O_UF){ auto it=m.uf.find(e); if(it!=m.uf.end()){ m.memo[e->id]=it->second; st.pop_back(); continue; } }
    u128 v[3]={0,0,0}; bool ok=true;
    if(e->op==O_ITE){
      if(!get(e->k[0],v[0])){ st.push_back({e->k[0],0}); continue; }
      E s=v[0]?e->k[1]:e->k[2]; u128 r; if(!get(s,r)){ st.push_back({s,0}); continue; }
      m.memo[e->id]=r; st.pop_back(); continue;
    }
    for(int i=0;i<e->nk;i++) if(!get(e->k[i],v[i])){ st.push_back({e->k[i],0}); ok=false; }
    if(!ok) continue;
    m.memo[e->id]=evalOp(e,v[0],v[1],v[2]); st.pop_back();
  }
  u128 r=0; get(e0,r); return r;
}

// ---------------------------------------------------------------- builders
static E foldc(Op op,SortK sk,unsigned w,E a,E b=nullptr,E c=nullptr,int i0=0,int i1=0){
  Expr x; x.op=op;x.sk=sk;x.w=w;x.nk=0;x.imm0=i0;x.imm1=i1; if(a)x.k[x.nk++]=a; if(b)x.k[x.nk++]=b; if(c)x.k[x.nk++]=c;
  u128 v=evalOp(&x,a?a->c:0,b?b->c:0,c?c->c:0);
  return sk==S_BV?mkConst(w,v):mkFBitsConst(sk,(uint64_t)v);
}
static bool isAllOnes(E e){ return e->isConst()&&e->c==maskw(e->w); }
static bool isZero(E e){ return e->isConst()&&e->c==0; }

E mkNot(E a){
  if(a->isConst()) return mkConst(a->w,~a->c);
  if(a->op==O_NOT) return a->k[0];
  if(a->isBool()){
    if(a->op==O_ULT) return mkBin(O_ULE,a->k[1],a->k[0]);
    if(a->op==O_ULE) return mkBin(O_ULT,a->k[1],a->k[0]);
    if(a->op==O_SLT) return mkBin(O_SLE,a->k[1],a->k[0]);
    if(a->op==O_SLE) return mkBin(O_SLT,a->k[1],a->k[0]);
    if(a->op==O_FLT&&!a->k[0]->fnan&&!a->k[1]->fnan) return mkFLe(a->k[1],a->k[0]);
    if(a->op==O_FLE&&!a->k[0]->fnan&&!a->k[1]->fnan) return mkFLt(a->k[1],a->k[0]);
  }
  return node(O_NOT,S_BV,a->w,a);
}
E mkAnd(E a,E b){ return mkBin(O_AND,a,b); }
E mkOr(E a,E b){ return mkBin(O_OR,a,b); }

static E pushIteConst(Op op,E a,E b){ return nullptr; }

static E dySignE(E f);
E mkExtract(E a,unsigned lo,unsigned w){
  assert(lo+w<=a->w);
  if(lo==0&&w==a->w) return a;
  if(a->isConst()) return mkConst(w,a->c>>lo);
  if(w==1&&lo==a->w-1&&a->op==O_FBITS&&a->k[0]->op==O_DYAD) return mkIte(dySignE(a->k[0]),mkConst(1,1),mkConst(1,0));
  switch(a->op){
    case O_EXTRACT: return mkExtract(a->k[0],lo+a->imm0,w);
    case O_CONCAT: { unsigned lw=a->k[1]->w; if(lo+w<=lw) return mkExtract(a->k[1],lo,w); if(lo>=lw) return mkExtract(a->k[0],lo-lw,w);
      return mkConcat(mkExtract(a->k[0],0,lo+w-lw),mkExtract(a->k[1],lo,lw-lo)); }
    case O_ZEXT: { unsigned iw=a->k[0]->w; if(lo+w<=iw) return mkExtract(a->k[0],lo,w); if(lo>=iw) return mkConst(w,0);
      return mkZExt(mkExtract(a->k[0],lo,iw-lo),w); }
    case O_SEXT: { unsigned iw=a->k[0]->w; if(lo+w<=iw) return mkExtract(a->k[0],lo,w); if(lo<iw&&lo==0) return mkSExt(a->k[0],w); break; }
    case O_AND: case O_OR: case O_XOR: 
      if(a->k[0]->isConst()||a->k[1]->isConst()) return mkBin(a->op,mkExtract(a->k[0],lo,w),mkExtract(a->k[1],lo,w)); break;
    case O_NOT: return mkNot(mkExtract(a->k[0],lo,w));
    case O_SHL: if(a->k[1]->isConst()&&a->k[1]->c<a->w){ unsigned s=(unsigned)a->k[1]->c; if(lo>=s) return mkExtract(a->k[0],lo-s,w); if(lo+w<=s) return mkConst(w,0); 
        return mkConcat(mkExtract(a->k[0],0,lo+w-s),mkConst(s-lo,0)); } break;
    case O_LSHR: if(a->k[1]->isConst()&&a->k[1]->c<a->w){ unsigned s=(unsigned)a->k[1]->c; if(lo+s+w<=a->w) return mkExtract(a->k[0],lo+s,w); if(lo+s>=a->w) return mkConst(w,0);
        return mkZExt(mkExtract(a->k[0],lo+s,a->w-lo-s),w); } break;
    case O_ITE: if(a->k[1]->isConst()||a->k[2]->isConst()) return mkIte(a->k[0],mkExtract(a->k[1],lo,w),mkExtract(a->k[2],lo,w)); break;
    case O_ADD: case O_SUB: case O_MUL: if(lo==0) return mkBin(a->op,mkExtract(a->k[0],0,w),mkExtract(a->k[1],0,w)); break;
    default: break;
  }
  return node(O_EXTRACT,S_BV,w,a,nullptr,nullptr,lo);
}
E mkConcat(E hi,E lo){
  unsigned w=hi->w+lo->w;
  if(hi->isConst()&&lo->isConst()) return mkConst(w,(hi->c<<lo->w)|lo->c);
  if(isZero(hi)) return mkZExt(lo,w);
  if(hi->op==O_EXTRACT&&lo->op==O_EXTRACT&&hi->k[0]==lo->k[0]&&hi->imm0==lo->imm0+lo->w) return mkExtract(hi->k[0],lo->imm0,w);
  if(hi->op==O_EXTRACT&&hi->k[0]==lo&&hi->imm0==lo->w) {}
  if(lo->op==O_CONCAT&&lo->k[0]->op==O_EXTRACT&&hi->op==O_EXTRACT&&hi->k[0]==lo->k[0]->k[0]&&hi->imm0==lo->k[0]->imm0+lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0],lo->k[0]->imm0,hi->w+lo->k[0]->w),lo->k[1]);
  return node(O_CONCAT,S_BV,w,hi,lo);
}
E mkZExt(E a,unsigned w){
  if(a->w==w) return a; assert(w>a->w);
  if(a->isConst()) return mkConst(w,a->c);
  if(a->op==O_ZEXT) return mkZExt(a->k[0],w);
  if(a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return mkIte(a->k[0],mkZExt(a->k[1],w),mkZExt(a->k[2],w));
  return node(O_ZEXT,S_BV,w,a);
}
E mkSExt(E a,unsigned w){
  if(a->w==w) return a; assert(w>a->w);
  if(a->isConst()) return mkConst(w,(u128)sgn(a->c,a->w));
  if(a->op==O_SEXT) return mkSExt(a->k[0],w);
  if(a->op==O_ZEXT) return mkZExt(a->k[0],w);
  if(a->w<=64&&a->smin>=0&&a->w>1) return mkZExt(a,w);
  if(a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return mkIte(a->k[0],mkSExt(a->k[1],w),mkSExt(a->k[2],w));
  return node(O_SEXT,S_BV,w,a);
}
static bool isCmp(Op o){ return o==O_EQ||o==O_ULT||o==O_ULE||o==O_SLT||o==O_SLE; }
E mkEq(E a,E b){ return mkBin(O_EQ,a,b); }
static E polyCmp(Op op,E a,E b);
static bool arith(E e){ while(e->op==O_SEXT||e->op==O_ZEXT) e=e->k[0]; return e->op==O_ADD||e->op==O_SUB||e->op==O_MUL||e->op==O_SHL||e->op==O_CONCAT; }
// sign of a product that cannot wrap
static E mulSign(Op op,E a){
  while(a->op==O_SEXT) a=a->k[0]; if(a->op!=O_MUL||a->w>64||a->k[0]->isConst()||a->k[1]->isConst()) return nullptr; E x=a->k[0],y=a->k[1];
  __int128 p[4]={(__int128)x->smin*y->smin,(__int128)x->smin*y->smax,(__int128)x->smax*y->smin,(__int128)x->smax*y->smax}; unsigned w=a->w; __int128 lo=-((__int128)1<<(w-1)),hi=((__int128)1<<(w-1))-1; for(auto q:p) if(q<lo||q>hi) return nullptr;
  E zx=mkConst(x->w,0),zy=mkConst(y->w,0); E ez=mkOr(mkEq(x,zx),mkEq(y,zy)); if(op==O_EQ) return ez;
  E neg=mkOr(mkAnd(mkBin(O_SLT,x,zx),mkBin(O_SLT,zy,y)),mkAnd(mkBin(O_SLT,zx,x),mkBin(O_SLT,y,zy))); return op==O_SLT?neg:mkOr(ez,neg); }

E mkBin(Op op,E a,E b){
  if(a->w!=b->w||a->sk!=S_BV||b->sk!=S_BV){ fprintf(stderr,"mkBin sort mismatch %s %d %d\n",kOpName[op],a->w,b->w); abort(); }
  unsigned w=a->w, rw=isCmp(op)?1:w;
  if(a->isConst()&&b->isConst()) return foldc(op,S_BV,rw,a,b);
  bool comm=op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR||op==O_EQ;
  if(comm&&(a->isConst()||(!b->isConst()&&a->id>b->id))) std::swap(a,b);
  switch(op){
    case O_ADD:
      if(w==1) return mkBin(O_XOR,a,b);
      if(isZero(b)) return a;
      if(b->isConst()&&a->op==O_ADD&&a->k[1]->isConst()) return mkBin(O_ADD,a->k[0],mkConst(w,a->k[1]->c+b->c));
      if(b->isConst()&&a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
      if(a->op==O_ADD&&a->k[1]->isConst()) return mkBin(O_ADD,mkBin(O_ADD,a->k[0],b),a->k[1]);
      if(b->op==O_ADD&&b->k[1]->isConst()) return mkBin(O_ADD,mkBin(O_ADD,a,b->k[0]),b->k[1]);
      if(a->op==O_SUB&&a->k[1]==b) return a->k[0];
      if(b->op==O_SUB&&b->k[1]==a) return b->k[0];
      break;
    case O_SUB:
      if(w==1) return mkBin(O_XOR,a,b);
      if(isZero(b)) return a; if(a==b) return mkConst(w,0);
      if(b->isConst()) return mkBin(O_ADD,a,mkConst(w,(u128)0-b->c));
      if(a->op==O_ADD){ if(a->k[0]==b) return a->k[1]; if(a->k[1]==b) return a->k[0]; 
        if(a->k[1]->isConst()&&b->op==O_ADD&&b->k[1]->isConst()) return mkBin(O_ADD,mkBin(O_SUB,a->k[0],b->k[0]),mkConst(w,a->k[1]->c-b->k[1]->c));
        if(a->k[1]->isConst()) return mkBin(O_ADD,mkBin(O_SUB,a->k[0],b),a->k[1]); }
      if(b->op==O_ADD&&b->k[0]==a) return mkBin(O_SUB,mkConst(w,0),b->k[1]);
      if(b->op==O_ADD&&b->k[1]->isConst()) return mkBin(O_ADD,mkBin(O_SUB,a,b->k[0]),mkConst(w,(u128)0-b->k[1]->c));
      break;
    case O_MUL:
      if(w==1) return mkBin(O_AND,a,b);
      if(isZero(b)) return b; if(b->isConst()&&b->c==1) return a;
      if(b->isConst()&&(b->c&(b->c-1))==0){ int s=0; while((b->c>>s)!=1) s++; return mkBin(O_SHL,a,mkConst(w,s)); }
      if(b->isConst()&&a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
      break;
    case O_UDIV: if(b->isConst()&&b->c==1) return a;
      if(b->isConst()&&b->c&&(b->c&(b->c-1))==0){ int s=0; while((b->c>>s)!=1) s++; return mkBin(O_LSHR,a,mkConst(w,s)); } break;
    case O_UREM: if(b->isConst()&&b->c==1) return mkConst(w,0);
      if(b->isConst()&&b->c&&(b->c&(b->c-1))==0) return mkBin(O_AND,a,mkConst(w,b->c-1));
      if(w<=64&&a->umax<b->umin) return a; break;
    case O_SDIV: if(b->isConst()&&b->c==1) return a; if(w<=64&&a->smin>=0&&b->smin>=0) return mkBin(O_UDIV,a,b); break;
    case O_SREM: if(w<=64&&a->smin>=0&&b->smin>=0) return mkBin(O_UREM,a,b); break;
    case O_AND:
      if(isZero(b)) return b; if(isAllOnes(b)) return a; if(a==b) return a;
      if(b->isConst()&&a->op==O_AND&&a->k[1]->isConst()) return mkBin(O_AND,a->k[0],mkConst(w,a->k[1]->c&b->c));
      if((a->op==O_NOT&&a->k[0]==b)||(b->op==O_NOT&&b->k[0]==a)) return mkConst(w,0);
      if(b->isConst()){ // low mask -> zext(extract)
        u128 m=b->c; if((m&(m+1))==0){ int n=0; while(m>>n) n++; if(w<=64&&a->umax<=(uint64_t)m) return a; return mkZExt(mkExtract(a,0,n),w); } 
        // high mask / middle mask
        int lo=0; while(!((m>>lo)&1)) lo++; u128 mm=m>>lo; if((mm&(mm+1))==0){ int n=0; while(mm>>n) n++; 
          E mid=mkExtract(a,lo,n); E r=mkConcat(mid,mkConst(lo,0)); return (int)r->w==(int)w?r:mkZExt(r,w); }
        if(a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b)); }
      if(w==1){ if(a->op==O_AND&&(a->k[0]==b||a->k[1]==b)) return a; if(b->op==O_AND&&(b->k[0]==a||b->k[1]==a)) return b; 
        if(a->op==O_OR&&(a->k[0]==b||a->k[1]==b)) return b; if(b->op==O_OR&&(b->k[0]==a||b->k[1]==a)) return a; }
      break;
    case O_OR:
      if(isZero(b)) return a; if(isAllOnes(b)) return b; if(a==b) return a;
      if((a->op==O_NOT&&a->k[0]==b)||(b->op==O_NOT&&b->k[0]==a)) return mkConst(w,maskw(w));
      if(w==1){ if(a->op==O_OR&&(a->k[0]==b||a->k[1]==b)) return a; if(b->op==O_OR&&(b->k[0]==a||b->k[1]==a)) return b; 
        if(a->op==O_AND&&(a->k[0]==b||a->k[1]==b)) return b; if(b->op==O_AND&&(b->k[0]==a||b->k[1]==a)) return a; }
      else { // combine disjoint parts: zext(x) | (y << n)  -> concat
        auto tryc=[&](E hi,E lo)->E{ 
          unsigned n=0; 
          if(hi->op==O_CONCAT&&isZero(hi->k[1])) n=hi->k[1]->w;
          else if(hi->op==O_ZEXT&&hi->k[0]->op==O_CONCAT&&isZero(hi->k[0]->k[1])) n=hi->k[0]->k[1]->w;
          else if(hi->op==O_SHL&&hi->k[1]->isConst()&&hi->k[1]->c<w) n=(unsigned)hi->k[1]->c; 
          if(!n) return nullptr;
          bool fits= (lo->op==O_ZEXT&&lo->k[0]->w<=n)||(lo->w<=64&&n<64&&lo->umax<((uint64_t)1<<n));
          if(!fits) return nullptr;
          return mkConcat(mkExtract(hi,n,w-n),mkExtract(lo,0,n)); };
        if(E r=tryc(a,b)) return r; if(E r=tryc(b,a)) return r;
      }
      break;
    case O_XOR:
      if(isZero(b)) return a; if(a==b) return mkConst(w,0); if(isAllOnes(b)) return mkNot(a);
      if(a->op==O_NOT&&w==1) return mkNot(mkBin(O_XOR,a->k[0],b)); 
      if(b->op==O_NOT&&w==1) return mkNot(mkBin(O_XOR,a,b->k[0])); 
      if(b->isConst()&&a->op==O_XOR&&a->k[1]->isConst()) return mkBin(O_XOR,a->k[0],mkConst(w,a->k[1]->c^b->c));
      break;
    case O_SHL: if(isZero(b)) return a; if(isZero(a)) return a; if(b->isConst()&&b->c>=w) return mkConst(w,0);
      if(b->isConst()&&a->op==O_SHL&&a->k[1]->isConst()&&a->k[1]->c<w) return mkBin(O_SHL,a->k[0],mkConst(w,a->k[1]->c+b->c)); 
      if(b->isConst()&&a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
      if(b->isConst()&&a->op==O_ZEXT){ unsigned s=(unsigned)b->c; E i=a->k[0]; if(i->w+s<=w){ E r=mkConcat(i,mkConst(s,0)); return r->w==w?r:mkZExt(r,w);} 
        return mkConcat(mkExtract(a,0,w-s),mkConst(s,0)); } break;
    case O_LSHR: if(isZero(b)) return a; if(isZero(a)) return a; if(b->isConst()){ if(b->c>=w) return mkConst(w,0); unsigned s=(unsigned)b->c; return mkZExt(mkExtract(a,s,w-s),w); } break;
    case O_ASHR: if(isZero(b)) return a; if(isZero(a)) return a; if(w<=64&&a->smin>=0&&w>1) return mkBin(O_LSHR,a,b);
      if(b->isConst()&&b->c<w){ unsigned s=(unsigned)b->c; return mkSExt(mkExtract(a,s,w-s),w);} break;
    case O_EQ: {
      if(a==b) return mkBool(true);
      if(w==1){ if(b->isConst()) return b->c?a:mkNot(a); if((a->op==O_NOT&&a->k[0]==b)||(b->op==O_NOT&&b->k[0]==a)) return mkBool(false); return node(O_EQ,S_BV,1,a,b); }
      if(w<=64){ if(a->umax<b->umin||b->umax<a->umin||a->smax<b->smin||b->smax<a->smin) return mkBool(false); }
      if(b->isConst()){
        if(a->op==O_ADD&&a->k[1]->isConst()) return mkBin(O_EQ,a->k[0],mkConst(w,b->c-a->k[1]->c));
        if(a->op==O_XOR&&a->k[1]->isConst()) return mkBin(O_EQ,a->k[0],mkConst(w,b->c^a->k[1]->c));
        if(a->op==O_NOT) return mkBin(O_EQ,a->k[0],mkConst(w,~b->c));
        if(a->op==O_ZEXT){ if(b->c>maskw(a->k[0]->w)) return mkBool(false); return mkBin(O_EQ,a->k[0],mkConst(a->k[0]->w,b->c)); }
        if(a->op==O_SEXT){ unsigned iw=a->k[0]->w; E t=mkConst(iw,b->c); if(mkSExt(t,w)!=b) return mkBool(false); return mkBin(O_EQ,a->k[0],t); }
        if(a->op==O_CONCAT){ unsigned lw=a->k[1]->w; return mkAnd(mkBin(O_EQ,a->k[0],mkConst(w-lw,b->c>>lw)),mkBin(O_EQ,a->k[1],mkConst(lw,b->c))); }
        if(a->op==O_ITE){ E x=a->k[1],y=a->k[2];
          if(x->isConst()&&y->isConst()){ bool p=x==b,q=y==b; if(p&&q) return mkBool(true); if(p) return a->k[0]; if(q) return mkNot(a->k[0]); return mkBool(false);} 
          if(x->isConst()) return mkIte(a->k[0],mkBool(x==b),mkBin(O_EQ,y,b));
          if(y->isConst()) return mkIte(a->k[0],mkBin(O_EQ,x,b),mkBool(y==b)); }
        if(a->op==O_SHL&&a->k[1]->isConst()&&b->c==0&&w<=64){ unsigned s=(unsigned)a->k[1]->c; return mkBin(O_EQ,mkExtract(a->k[0],0,w-s),mkConst(w-s,0)); }
      } else {
        if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->w==b->k[0]->w) return mkBin(O_EQ,a->k[0],b->k[0]);
        if(a->op==O_SEXT&&b->op==O_SEXT&&a->k[0]->w==b->k[0]->w) return mkBin(O_EQ,a->k[0],b->k[0]);
        if(a->op==O_ADD&&b->op==O_ADD&&a->k[1]->isConst()&&b->k[1]->isConst()) return mkBin(O_EQ,a->k[0],mkBin(O_ADD,b->k[0],mkConst(w,b->k[1]->c-a->k[1]->c)));
        if(a->op==O_ADD&&(a->k[0]==b)) return mkBin(O_EQ,a->k[1],mkConst(w,0));
        if(a->op==O_ADD&&(a->k[1]==b)) return mkBin(O_EQ,a->k[0],mkConst(w,0));
        if(b->op==O_ADD&&(b->k[0]==a)) return mkBin(O_EQ,b->k[1],mkConst(w,0));
        if(b->op==O_ADD&&(b->k[1]==a)) return mkBin(O_EQ,b->k[0],mkConst(w,0));
        if(isZero(b)&&w<=64) if(E r=mulSign(op,a)) return r;
        if(w>2&&w<=64&&(arith(a)||arith(b))) if(E r=polyCmp(op,a,b)) return r;
      }
      break; }
    case O_ULT: case O_ULE: case O_SLT: case O_SLE: {
      if(op==O_SLT&&a->op==O_FBITS&&a->k[0]->op==O_DYAD&&b->isConst()&&b->c==0) return dySignE(a->k[0]);
      if(op==O_SLT&&b->op==O_FBITS&&b->k[0]->op==O_DYAD&&a->isConst()&&a->c==maskw(a->w)) return mkNot(dySignE(b->k[0]));
      if(a==b) return mkBool(op==O_ULE||op==O_SLE);
      if(w==1){ // unsigned bool compare
        if(op==O_ULT) return mkAnd(mkNot(a),b); if(op==O_ULE) return mkOr(mkNot(a),b);
        if(op==O_SLT) return mkAnd(a,mkNot(b)); return mkOr(a,mkNot(b)); }
      if(w<=64){
        if(op==O_ULT){ if(a->umax<b->umin) return mkBool(true); if(a->umin>=b->umax) return mkBool(false); }
        if(op==O_ULE){ if(a->umax<=b->umin) return mkBool(true); if(a->umin>b->umax) return mkBool(false); }
        if(op==O_SLT){ if(a->smax<b->smin) return mkBool(true); if(a->smin>=b->smax) return mkBool(false); }
        if(op==O_SLE){ if(a->smax<=b->smin) return mkBool(true); if(a->smin>b->smax) return mkBool(false); }
        if(op==O_SLT||op==O_SLE){
          if(isZero(b)) if(E r=mulSign(op,a)) return r;
          if(isZero(a)) if(E r=mulSign(op==O_SLT?O_SLE:O_SLT,b)) return mkNot(r);
          if(w>2&&(arith(a)||arith(b))) if(E r=polyCmp(op,a,b)) return r; }
        if((op==O_SLT||op==O_SLE)&&a->smin>=0&&b->smin>=0) return mkBin(op==O_SLT?O_ULT:O_ULE,a,b);
      }
      if(op==O_ULT&&b->isConst()&&b->c==1) return mkEq(a,mkConst(w,0));
      if(op==O_ULT&&isZero(a)) return mkNot(mkEq(b,a));
      if(op==O_ULE&&isZero(b)) return mkEq(a,b);
      if((op==O_ULT||op==O_ULE)&&a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->w==b->k[0]->w) return mkBin(op,a->k[0],b->k[0]);
      if((op==O_ULT||op==O_ULE)&&a->op==O_ZEXT&&b->isConst()){ unsigned iw=a->k[0]->w; if(b->c<=maskw(iw)) return mkBin(op,a->k[0],mkConst(iw,b->c)); }
      if((op==O_ULT||op==O_ULE)&&b->op==O_ZEXT&&a->isConst()){ unsigned iw=b->k[0]->w; if(a->c<=maskw(iw)) return mkBin(op,mkConst(iw,a->c),b->k[0]); }
      if((op==O_SLT||op==O_SLE)&&a->op==O_SEXT&&b->op==O_SEXT&&a->k[0]->w==b->k[0]->w) return mkBin(op,a->k[0],b->k[0]);
      if((op==O_SLT||op==O_SLE)&&a->op==O_SEXT&&b->isConst()){ unsigned iw=a->k[0]->w; E t=mkConst(iw,b->c); if(mkSExt(t,w)==b) return mkBin(op,a->k[0],t); }
      if((op==O_SLT||op==O_SLE)&&b->op==O_SEXT&&a->isConst()){ unsigned iw=b->k[0]->w; E t=mkConst(iw,a->c); if(mkSExt(t,w)==a) return mkBin(op,t,b->k[0]); }
      if(a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()&&b->isConst()) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
      if(b->op==O_ITE&&b->k[1]->isConst()&&b->k[2]->isConst()&&a->isConst()) return mkIte(b->k[0],mkBin(op,a,b->k[1]),mkBin(op,a,b->k[2]));
      break; }
    default: break;
  }
  (void)pushIteConst;
  return node(op,S_BV,rw,a,b);
}

// ---------------------------------------------------------------- dyadic floats
struct Dy { E i; E nz; int k; };
static int bitsFor(i128 lo,i128 hi){ // minimal signed width
  int w=1; while(lo< -((i128)1<<(w-1)) || hi> ((i128)1<<(w-1))-1) w++; return w; }
static E adaptW(E e,int w){ if((int)e->w==w) return e; if((int)e->w<w) return mkSExt(e,w); return mkExtract(e,0,w); }
static int64_t limitOf(SortK sk){ return sk==S_F32?((int64_t)1<<24):((int64_t)1<<53); }
static bool inLimit(SortK sk,i128 lo,i128 hi){ i128 l=limitOf(sk); return lo>=-l&&hi<=l; }
static bool alignDy(Dy& a,Dy& b);
static bool constTree(E e,int depth){ return e->isConst()||(depth>0&&e->op==O_ITE&&constTree(e->k[1],depth-1)&&constTree(e->k[2],depth-1)); }
static bool toDy(E f,Dy& d){
  if(f->op==O_DYAD){ d.i=f->k[0]; d.nz=f->k[1]; d.k=f->imm0; return true; }
  if(f->op==O_CONST){
    double v=fpval(f->sk,f->c); if(!std::isfinite(v)) return false;
    if(v==0){ d.i=mkConst(2,0); d.nz=mkBool(std::signbit(v)); d.k=0; return true; }
    int ex; double m=std::frexp(v,&ex); int64_t im=(int64_t)std::ldexp(m,53); int k=53-ex; while((im&1)==0){ im>>=1; k--; }
    if(k<0){ if(k<-30) return false; im=im<<(-k); if((im<0?-im:im)>((int64_t)1<<56)) return false; k=0; }
    if(k>60) return false;
    int w=std::max(2,bitsFor(im,im)); d.i=mkConst(w,(u128)(i128)im); d.nz=mkBool(false); d.k=k; return true; }
  if(f->op==O_ITE&&constTree(f,5)){ // a choice of constants
    Dy x,y; if(!toDy(f->k[1],x)||!toDy(f->k[2],y)||!alignDy(x,y)) return false;
    if(!inLimit(f->sk,x.i->smin,x.i->smax)||!inLimit(f->sk,y.i->smin,y.i->smax)) return false;
    int w=std::max({2,bitsFor(x.i->smin,x.i->smax),bitsFor(y.i->smin,y.i->smax)});
    d.i=mkIte(f->k[0],adaptW(x.i,w),adaptW(y.i,w)); d.nz=mkIte(f->k[0],x.nz,y.nz); d.k=x.k; return true; }
  return false;
}
static E mkDy(SortK sk,E i,int k,E nz){
  if(i->w>64){ fprintf(stderr,"dyad width\n"); abort(); }
  // shrink
  int w=std::max(2,bitsFor(i->smin,i->smax)); i=adaptW(i,w);
  if(i->isConst()&&(i->c!=0||nz->isConst())){ double v=i->c==0?(nz->isTrue()?-0.0:0.0):std::ldexp((double)sgn(i->c,i->w),-k); return sk==S_F32?mkF32((float)v):mkF64(v); }
  if(i->smin>0||i->smax<0) nz=mkBool(false);
  return node(O_DYAD,sk,fw(sk),i,nz,nullptr,k);
}
bool isDyad(E e){ return e->op==O_DYAD; }
static bool alignDy(Dy& a,Dy& b){ // same k
  if(a.k==b.k) return true;
  Dy& s=a.k<b.k?a:b; int d=std::abs(a.k-b.k);
  if(d>60) return false;
  i128 lo=(i128)s.i->smin<<d, hi=(i128)s.i->smax<<d; int w=std::max(2,bitsFor(lo,hi)); if(w>62) return false;
  s.i=mkBin(O_SHL,adaptW(s.i,w),mkConst(w,d)); s.k+=d; return true;
}
static E dyEq0(const Dy& a){ return mkEq(a.i,mkConst(a.i->w,0)); }
static E dySign(const Dy& a){ E neg=mkBin(O_SLT,a.i,mkConst(a.i->w,0)); if(a.nz->isFalse()) return neg; return mkOr(neg,mkAnd(dyEq0(a),a.nz)); }
static E dySignE(E f){ Dy d; toDy(f,d); return dySign(d); }
static E icmpR(Op op,E a,E b);
static E iadd(E a,E b,bool sub);
static E ineg(E a);
// Integer polynomials over opaque terms, used to cancel common terms. Only
// operations that cannot wrap (by value range) are looked through.
struct ByIds { bool operator()(const std::vector<E>& a,const std::vector<E>& b) const { return std::lexicographical_compare(a.begin(),a.end(),b.begin(),b.end(),[](E x,E y){return x->id<y->id;}); } };
typedef std::map<std::vector<E>,i128,ByIds> Poly;
static const size_t kPolyMax=24;
static std::unordered_map<E,std::shared_ptr<Poly>> g_poly;
static bool fitsW(i128 lo,i128 hi,unsigned w){ return lo>=-((i128)1<<(w-1))&&hi<=((i128)1<<(w-1))-1; }
static bool polyAdd(Poly& r,const Poly& b,i128 f){ for(auto& t:b){ if(t.second>((i128)1<<60)||t.second<-((i128)1<<60)) return false; i128& c=r[t.first]; c+=f*t.second; if(c==0) r.erase(t.first); if(r.size()>kPolyMax) return false; } return true; }
static bool polyMul(Poly& r,const Poly& a,const Poly& b){ for(auto& x:a) for(auto& y:b){ if(x.second>((i128)1<<60)||x.second<-((i128)1<<60)||y.second>((i128)1<<60)||y.second<-((i128)1<<60)) return false; std::vector<E> m; std::merge(x.first.begin(),x.first.end(),y.first.begin(),y.first.end(),std::back_inserter(m),[](E p,E q){return p->id<q->id;}); if(m.size()>5) return false; i128& c=r[m]; c+=x.second*y.second; if(c==0) r.erase(m); if(r.size()>kPolyMax) return false; } return true; }
static std::shared_ptr<Poly> toPoly(E e);
static bool polyFits(const Poly& p,unsigned w){ double lo=0,hi=0; for(auto& t:p){ double a=(double)t.second,b=a; for(E x:t.first){ double q[4]={a*x->smin,a*x->smax,b*x->smin,b*x->smax}; a=*std::min_element(q,q+4); b=*std::max_element(q,q+4); } lo+=a; hi+=b; } return w<53&&lo>=-std::ldexp(1.0,w-1)&&hi<=std::ldexp(1.0,w-1)-1; }
// polynomial congruent to e modulo 2^width (intermediate results may wrap)
static std::shared_ptr<Poly> toPolyMod(E e,int depth){
  auto K=[&](int i){ return e->k[i]; };
  if(depth>0) switch(e->op){
    case O_ADD: case O_SUB: { auto a=toPolyMod(K(0),depth-1),b=toPolyMod(K(1),depth-1); auto p=std::make_shared<Poly>(*a); if(polyAdd(*p,*b,e->op==O_ADD?1:-1)) return p; break; }
    case O_MUL: { auto a=toPolyMod(K(0),depth-1),b=toPolyMod(K(1),depth-1); auto p=std::make_shared<Poly>(); if(polyMul(*p,*a,*b)) return p; break; }
    case O_SHL: if(K(1)->isConst()&&K(1)->c<50){ auto a=toPolyMod(K(0),depth-1); Poly c; c[{}]=(i128)1<<(int)K(1)->c; auto p=std::make_shared<Poly>(); if(polyMul(*p,*a,c)) return p; } break;
    case O_CONCAT: if(K(1)->isConst()&&K(1)->c==0&&K(1)->w<50&&K(0)->w>1){ auto a=toPolyMod(K(0),depth-1); Poly c; c[{}]=(i128)1<<(int)K(1)->w; auto p=std::make_shared<Poly>(); if(polyMul(*p,*a,c)) return p; } break;
    case O_EXTRACT: if(e->imm0==0&&K(0)->w<=64) return toPolyMod(K(0),depth-1); break;
    default: break;
  }
  return toPoly(e);
}
static std::shared_ptr<Poly> toPoly(E e){
  auto it=g_poly.find(e); if(it!=g_poly.end()) return it->second;
  auto atom=[&](E a){ auto p=std::make_shared<Poly>(); (*p)[{a}]=1; return p; };
  std::shared_ptr<Poly> r; auto K=[&](int i){ return e->k[i]; };
  if(e->w>64||e->w<2) return g_poly[e]=atom(e);
  if(e->op==O_CONST){ r=std::make_shared<Poly>(); i128 v=sgn(e->c,e->w); if(v!=0) (*r)[{}]=v; return g_poly[e]=r; }
  switch(e->op){
    case O_SEXT: if(K(0)->w>1) r=toPoly(K(0)); break;
    case O_ZEXT: if(K(0)->w>1&&K(0)->w<=64&&K(0)->smin>=0) r=toPoly(K(0)); break;
    case O_EXTRACT: if(e->imm0==0&&K(0)->w<=64&&fitsW(K(0)->smin,K(0)->smax,e->w)) r=toPoly(K(0)); break;
    case O_SHL: if(K(1)->isConst()&&K(1)->c<50&&fitsW((i128)K(0)->smin<<(int)K(1)->c,(i128)K(0)->smax<<(int)K(1)->c,e->w)){ auto a=toPoly(K(0)); auto p=std::make_shared<Poly>(); bool ok=true; for(auto& t:*a){ if(t.second>((i128)1<<60)||t.second<-((i128)1<<60)) ok=false; else (*p)[t.first]=t.second*((i128)1<<(int)K(1)->c); } if(ok) r=p; } break;
    case O_ADD: case O_SUB: { i128 lo=e->op==O_ADD?(i128)K(0)->smin+K(1)->smin:(i128)K(0)->smin-K(1)->smax, hi=e->op==O_ADD?(i128)K(0)->smax+K(1)->smax:(i128)K(0)->smax-K(1)->smin; if(!fitsW(lo,hi,e->w)) break; auto a=toPoly(K(0)),b=toPoly(K(1)); auto p=std::make_shared<Poly>(*a); if(polyAdd(*p,*b,e->op==O_ADD?1:-1)) r=p; break; }
    case O_MUL: { i128 q[4]={(i128)K(0)->smin*K(1)->smin,(i128)K(0)->smin*K(1)->smax,(i128)K(0)->smax*K(1)->smin,(i128)K(0)->smax*K(1)->smax}; if(!fitsW(*std::min_element(q,q+4),*std::max_element(q,q+4),e->w)) break; auto a=toPoly(K(0)),b=toPoly(K(1)); auto p=std::make_shared<Poly>(); if(polyMul(*p,*a,*b)) r=p; break; }
    default: break;
  }
  if(!r&&(e->op==O_ADD||e->op==O_SUB||e->op==O_MUL||e->op==O_SHL||e->op==O_CONCAT||e->op==O_EXTRACT)){ g_poly[e]=atom(e); auto p=toPolyMod(e,12); if(!(p->size()==1&&p->begin()->first.size()==1&&p->begin()->first[0]==e)&&polyFits(*p,e->w)) r=p; }
  if(!r) r=atom(e);
  return g_poly[e]=r;
}
bool polyTerms(E e,std::vector<std::pair<std::vector<E>,__int128>>& out){ auto p=toPoly(e); size_t deg=0; for(auto& t:*p) deg=std::max(deg,t.first.size()); if(deg==0||(p->size()==1&&p->begin()->first.size()==1&&p->begin()->first[0]==e)) return false; out.clear(); for(auto& t:*p) out.push_back(t); return true; }
static E imulRaw(E a,E b); static E iaddRaw(E a,E b,bool sub);
static E polyExpr(const Poly& p){ // nullptr when too wide
  E pos=nullptr,neg=nullptr;
  for(auto& t:p){ i128 c=t.second; bool n=c<0; if(n) c=-c; E m=nullptr; for(E a:t.first){ m=m?imulRaw(m,a):a; if(!m) return nullptr; }
    int w=std::max(2,bitsFor(c,c)); if(w>62) return nullptr; if(!m) m=mkConst(w,(u128)c); else if(c!=1){ m=imulRaw(m,mkConst(w,(u128)c)); if(!m) return nullptr; }
    E& acc=n?neg:pos; acc=acc?iaddRaw(acc,m,false):m; if(!acc) return nullptr; }
  if(!pos&&!neg) return mkConst(2,0); if(!neg) return pos; return iaddRaw(pos?pos:mkConst(2,0),neg,true);
}
// Comparisons of multi-term polynomials share one representative per polynomial
// (up to sign and a positive factor), so that equal conditions written
// differently become the same atom.
struct PolyRep { E a,b; }; static std::map<std::string,PolyRep> g_reps; static int g_polyDepth=0;
static E polyCmp(Op op,E a,E b){
  if(g_polyDepth) return nullptr;
  auto x=toPoly(a),y=toPoly(b); Poly d=*x; if(!polyAdd(d,*y,-1)) return nullptr;
  size_t deg=0; for(auto& t:d) deg=std::max(deg,t.first.size());
  if(deg==0){ i128 c=d.empty()?0:d.begin()->second; return mkBool(op==O_EQ?c==0:op==O_SLT?c<0:c<=0); }
  if(deg<2) return nullptr;
  i128 g=0; for(auto& t:d){ i128 v=t.second<0?-t.second:t.second; while(v){ i128 r=g%v; g=v; v=r; } }
  bool flip=d.rbegin()->second<0; std::string key; char buf[64];
  for(auto& t:d){ i128 v=t.second/g; if(flip) v=-v; snprintf(buf,sizeof buf,"%lld:",(long long)v); key+=buf; for(E e:t.first){ snprintf(buf,sizeof buf,"%u,",e->id); key+=buf; } key+=';'; }
  E A,B; auto it=g_reps.find(key); if(it==g_reps.end()){ PolyRep r; r.a=flip?b:a; r.b=flip?a:b; g_reps[key]=r; A=r.a; B=r.b; } else { A=it->second.a; B=it->second.b; }
  if(flip) std::swap(A,B); // now sign(A-B) == sign(a-b)
  if(A==a&&B==b&&false) return nullptr;
  g_polyDepth++; unsigned w=std::max(A->w,B->w); A=mkSExt(A,w); B=mkSExt(B,w); E r;
  if(op==O_EQ) r=mkBin(O_EQ,A,B); else if(op==O_SLT) r=mkBin(O_SLT,A,B); else r=mkNot(mkBin(O_SLT,B,A));
  g_polyDepth--; return r;
}
static E icmpR(Op op,E a,E b){
  if(a->w<=64&&b->w<=64&&!a->isConst()&&!b->isConst()){ auto x=toPoly(a),y=toPoly(b); Poly d=*x; if(polyAdd(d,*y,-1)&&d.size()<x->size()+y->size()){
      Poly pos,neg; for(auto& t:d) if(t.second>0) pos[t.first]=t.second; else neg[t.first]=-t.second; E p=polyExpr(pos),q=polyExpr(neg); if(p&&q){ a=p; b=q; } } }
  i128 lo=std::min(a->smin,b->smin),hi=std::max(a->smax,b->smax); int w=std::max(2,bitsFor(lo,hi)); return mkBin(op,adaptW(a,w),adaptW(b,w)); }
static E imul(E a,E b){
  if(b->op!=O_ITE) std::swap(a,b);
  if(b->op==O_ITE&&b->k[1]->isConst()&&b->k[2]->isConst()&&!a->isConst()){ // by a choice of two constants
    auto m=[&](E k)->E{ i128 v=sgn(k->c,k->w); if(v==1) return a; if(v==-1) return ineg(a); return imul(a,k); };
    E x=m(b->k[1]),y=m(b->k[2]); if(!x||!y) return nullptr; int w=std::max(x->w,y->w); 
    E r=mkIte(b->k[0],adaptW(x,w),adaptW(y,w)); return r; }
  i128 p[4]={(i128)a->smin*b->smin,(i128)a->smin*b->smax,(i128)a->smax*b->smin,(i128)a->smax*b->smax};
  i128 lo=*std::min_element(p,p+4),hi=*std::max_element(p,p+4); if(a==b&&lo<0) {}
  int w=std::max(2,bitsFor(lo,hi)); w=std::max(w,(int)std::max(bitsFor(a->smin,a->smax),bitsFor(b->smin,b->smax))); if(w>62) return nullptr; return mkBin(O_MUL,adaptW(a,w),adaptW(b,w)); }
static E imulRaw(E a,E b){
  i128 p[4]={(i128)a->smin*b->smin,(i128)a->smin*b->smax,(i128)a->smax*b->smin,(i128)a->smax*b->smax};
  i128 lo=*std::min_element(p,p+4),hi=*std::max_element(p,p+4); int w=std::max(2,bitsFor(lo,hi)); w=std::max(w,(int)std::max(bitsFor(a->smin,a->smax),bitsFor(b->smin,b->smax))); if(w>62) return nullptr; return mkBin(O_MUL,adaptW(a,w),adaptW(b,w)); }
static E iadd(E a,E b,bool sub){
  if(a->w>1&&b->w>1&&a->w<=64&&b->w<=64&&!a->isConst()&&!b->isConst()){ auto x=toPoly(a),y=toPoly(b); if(x->size()>1||y->size()>1){ Poly d=*x; if(polyAdd(d,*y,sub?-1:1)&&d.size()<x->size()+y->size()) if(E r=polyExpr(d)) return r; } }
  return iaddRaw(a,b,sub); }
static E iaddRaw(E a,E b,bool sub){ i128 lo=sub?(i128)a->smin-b->smax:(i128)a->smin+b->smin, hi=sub?(i128)a->smax-b->smin:(i128)a->smax+b->smax;
  int w=std::max({2,bitsFor(lo,hi),bitsFor(a->smin,a->smax),bitsFor(b->smin,b->smax)}); if(w>62) return nullptr; return mkBin(sub?O_SUB:O_ADD,adaptW(a,w),adaptW(b,w)); }
static E ineg(E a){ return iadd(mkConst(2,0),a,true); }

static E tryDyBin(Op op,SortK sk,E a,E b){
  if(a->op!=O_DYAD&&b->op!=O_DYAD&&!(a->op==O_ITE&&b->op==O_ITE&&constTree(a,4)&&constTree(b,4))) return nullptr;
  Dy x,y; if(!toDy(a,x)||!toDy(b,y)) return nullptr;
  if(op==O_FADD||op==O_FSUB){
    if(op==O_FSUB) { y.nz=mkNot(y.nz); }
    if(!alignDy(x,y)) return nullptr;
    E s=iadd(x.i,y.i,op==O_FSUB); if(!s||!inLimit(sk,s->smin,s->smax)) return nullptr;
    E nz=mkAnd(mkAnd(x.nz,y.nz),mkAnd(dyEq0(x),dyEq0(y)));
    return mkDy(sk,s,x.k,nz);
  }
  if(op==O_FMUL){
    E p=imul(x.i,y.i); if(!p||!inLimit(sk,p->smin,p->smax)) return nullptr;
    if(x.k+y.k>100) return nullptr;
    E sx_=dySign(x), sy_=dySign(y);
    E nz=mkBin(O_XOR,sx_,sy_);
    if(a==b) nz=mkBool(false);
    E r=mkDy(sk,p,x.k+y.k,nz);
    if(a==b&&r->op==O_DYAD){ Expr* e=const_cast<Expr*>(r); e->flo=std::max(0.0,e->flo); Expr* ie=const_cast<Expr*>(r->k[0]); if(ie->op==O_MUL) setS(ie,std::max<i128>(0,ie->smin),ie->smax); }
    return r;
  }
  if(op==O_FDIV&&b->op==O_CONST){
    if(y.i->isConst()&&y.i->c!=0){ i128 m=sgn(y.i->c,y.i->w); i128 am=m<0?-m:m; if((am&(am-1))==0){ int s=0; while((am>>s)!=1) s++; // b = ±2^(s-k)
        int nk=x.k+s-y.k; if(nk>100||nk<-60) return nullptr;
        Dy r=x; r.k=nk; if(m<0){ r.i=ineg(x.i); r.nz=mkNot(x.nz);} 
        if(r.k<0){ i128 lo=(i128)r.i->smin<<(-r.k),hi=(i128)r.i->smax<<(-r.k); if(!inLimit(sk,lo,hi)) return nullptr; int w=std::max(2,bitsFor(lo,hi)); r.i=mkBin(O_SHL,adaptW(r.i,w),mkConst(w,-r.k)); r.k=0; }
        if(!inLimit(sk,r.i->smin,r.i->smax)) return nullptr;
        return mkDy(sk,r.i,r.k,r.nz); } }
  }
  return nullptr;
}

E mkIte(E c,E a,E b){
  if(c->isConst()) return c->c?a:b;
  if(a==b) return a;
  if(a->sk!=b->sk||a->w!=b->w){ fprintf(stderr,"mkIte sort mismatch\n"); abort(); }
  if(c->op==O_NOT) return mkIte(c->k[0],b,a);
  if(a->isBool()){
    if(a->isTrue()&&b->isFalse()) return c; if(a->isFalse()&&b->isTrue()) return mkNot(c);
    if(a->isTrue()) return mkOr(c,b); if(a->isFalse()) return mkAnd(mkNot(c),b);
    if(b->isTrue()) return mkOr(mkNot(c),a); if(b->isFalse()) return mkAnd(c,a);
    if(a==c) return mkOr(c,b); if(b==c) return mkAnd(c,a);
  }
  if(a->op==O_ITE&&a->k[0]==c) return mkIte(c,a->k[1],b);
  if(b->op==O_ITE&&b->k[0]==c) return mkIte(c,a,b->k[2]);
  if(b->op==O_ITE&&b->k[1]==a) return mkIte(mkOr(c,b->k[0]),a,b->k[2]);
  if(a->op==O_ITE&&a->k[2]==b) return mkIte(mkAnd(c,a->k[0]),a->k[1],b);
  if(a->isFP()&&(a->op==O_DYAD||b->op==O_DYAD)){
    Dy x,y; if(toDy(a,x)&&toDy(b,y)&&alignDy(x,y)&&inLimit(a->sk,x.i->smin,x.i->smax)&&inLimit(a->sk,y.i->smin,y.i->smax)){
      int w=std::max({2,bitsFor(x.i->smin,x.i->smax),bitsFor(y.i->smin,y.i->smax)});
      E i=mkIte(c,adaptW(x.i,w),adaptW(y.i,w)); E nz=mkIte(c,x.nz,y.nz);
      return mkDy(a->sk,i,x.k,nz); } }
  return node(O_ITE,a->sk,a->w,c,a,b);
}

E mkFBin(Op op,E a,E b){
  SortK sk=a->sk; if(sk!=b->sk||!a->isFP()){ fprintf(stderr,"mkFBin sorts\n"); abort(); }
  if(a->isConst()&&b->isConst()) return foldc(op,sk,a->w,a,b);
  if(E r=tryDyBin(op,sk,a,b)) return r;
  auto cite=[](E e){ return e->op==O_ITE&&e->k[1]->isConst()&&e->k[2]->isConst(); };
  if(a->isConst()&&cite(b)) return mkIte(b->k[0],foldc(op,sk,a->w,a,b->k[1]),foldc(op,sk,a->w,a,b->k[2]));
  if(b->isConst()&&cite(a)) return mkIte(a->k[0],foldc(op,sk,a->w,a->k[1],b),foldc(op,sk,a->w,a->k[2],b));
  if((op==O_FADD||op==O_FMUL)&&(a->isConst()||(!b->isConst()&&a->id>b->id))) std::swap(a,b);
  if(op==O_FMUL&&b->isConst()&&fpval(sk,b->c)==1.0) return a;
  if(op==O_FDIV&&b->isConst()&&fpval(sk,b->c)==1.0) return a;
  if(op==O_FSUB&&b->isConst()&&fpval(sk,b->c)==0.0&&!std::signbit(fpval(sk,b->c))) return a;
  if(op==O_FMUL&&b->isConst()&&fpval(sk,b->c)==-1.0) return mkFUn(O_FNEG,a);
  // a - b == a + (-b)
  if(op==O_FSUB&&b->op==O_FNEG) return mkFBin(O_FADD,a,b->k[0]);
  if(op==O_FADD&&b->op==O_FNEG) return mkFBin(O_FSUB,a,b->k[0]);
  if(op==O_FADD&&a->op==O_FNEG) return mkFBin(O_FSUB,b,a->k[0]);
  return node(op,sk,a->w,a,b);
}
E mkFUn(Op op,E a){
  if(a->isConst()) return foldc(op,a->sk,a->w,a);
  if(op==O_FNEG){ if(a->op==O_FNEG) return a->k[0]; if(a->op==O_DYAD){ return mkDy(a->sk,ineg(a->k[0]),a->imm0,mkNot(a->k[1])); }
    if(a->op==O_FSUB&&!a->fnan&&false) return nullptr; }
  if(op==O_FABS){ if(a->op==O_FABS) return a; if(a->op==O_FNEG) return mkFUn(O_FABS,a->k[0]);
    if(a->op==O_DYAD){ E i=a->k[0]; E n=ineg(i); int w=std::max(n->w,i->w); E r=mkIte(mkBin(O_SLT,i,mkConst(i->w,0)),adaptW(n,w),adaptW(i,w)); i128 mx=std::max<i128>(-(i128)i->smin,i->smax); if(!r->isConst()) setS(const_cast<Expr*>(r),0,mx); return mkDy(a->sk,r,a->imm0,mkBool(false)); } }
  if(op==O_FSQRT){}
  return node(op,a->sk,a->w,a);
}
E mkFma(E a,E b,E c){ if(a->isConst()&&b->isConst()&&c->isConst()) return foldc(O_FMA,a->sk,a->w,a,b,c); return node(O_FMA,a->sk,a->w,a,b,c); }
E mkFRint(E a,int rm){
  if(a->isConst()) return foldc(O_FRINT,a->sk,a->w,a,nullptr,nullptr,rm);
  if(a->op==O_FRINT) return a;
  if(a->op==O_SITOFP||a->op==O_UITOFP) return a;
  if(a->op==O_DYAD){ Dy d; toDy(a,d); if(d.k<=0) return a; if(d.k<60){
      int w=std::max<int>(d.i->w+1,3); E i=adaptW(d.i,w); if(w>d.k+1){
      E sign=dySign(d);
      if(rm==RM_DN){ E r=mkBin(O_ASHR,i,mkConst(w,d.k)); return mkDy(a->sk,r,0,mkAnd(sign,mkBool(true))); }
      if(rm==RM_UP){ E r=ineg(mkBin(O_ASHR,ineg(i),mkConst(ineg(i)->w,d.k))); return mkDy(a->sk,r,0,sign); }
      if(rm==RM_TZ){ E f=mkBin(O_ASHR,i,mkConst(w,d.k)); E n=ineg(i); E c=ineg(mkBin(O_ASHR,n,mkConst(n->w,d.k))); int ww=std::max(f->w,c->w); return mkDy(a->sk,mkIte(mkBin(O_SLT,i,mkConst(w,0)),adaptW(c,ww),adaptW(f,ww)),0,sign); }
      if(rm==RM_NA){ // round half away
        E ab=mkFUn(O_FABS,a); Dy u; if(toDy(ab,u)){ int w2=std::max<int>(u.i->w+2,d.k+2); E t=mkBin(O_ASHR,mkBin(O_ADD,adaptW(u.i,w2),mkConst(w2,(u128)1<<(d.k-1))),mkConst(w2,d.k)); E n=ineg(t); int ww=std::max(n->w,t->w);
          return mkDy(a->sk,mkIte(mkBin(O_SLT,d.i,mkConst(d.i->w,0)),adaptW(n,ww),adaptW(t,ww)),0,sign);} }
      } } }
  return node(O_FRINT,a->sk,a->w,a,nullptr,nullptr,rm);
}
static E fdivCmp(Op op,E q,E cst,bool swapped){
  // q = FDIV(DYAD,DYAD) vs constant m/2^j; exact when |b|*|m| < 2^22
  Dy a,b,c; if(!toDy(q->k[0],a)||!toDy(q->k[1],b)||!toDy(cst,c)||!c.i->isConst()) return nullptr;
  if(q->sk!=S_F32) return nullptr;
  i128 m=sgn(c.i->c,c.i->w); i128 am=m<0?-m:m; i128 mb=std::max<i128>(b.i->smax,-(i128)b.i->smin);
  if(!alignDy(a,b)) return nullptr;
  mb=std::max<i128>(b.i->smax,-(i128)b.i->smin);
  if(mb*am>=((i128)1<<22)||mb>=((i128)1<<23)) return nullptr;
  i128 ma=std::max<i128>(a.i->smax,-(i128)a.i->smin); if(ma>=((i128)1<<24)||c.k>20) return nullptr;
  // compare a/b with m/2^j  <=> (b>0) a*2^j ? m*b
  E lhs=imul(a.i,mkConst(24,(u128)1<<c.k)); E rhs=imul(b.i,c.i); if(!lhs||!rhs) return nullptr;
  E bz=mkEq(b.i,mkConst(b.i->w,0)); E bp=mkBin(O_SLT,mkConst(b.i->w,0),b.i);
  E lt=icmpR(O_SLT,lhs,rhs), gt=icmpR(O_SLT,rhs,lhs), eq=icmpR(O_EQ,lhs,rhs);
  E qlt=mkIte(bp,lt,gt), qgt=mkIte(bp,gt,lt);
  // b == 0: a==0 -> NaN false; else inf with sign(a)^sign(b)
  E az=mkEq(a.i,mkConst(a.i->w,0)); E neg=mkBin(O_XOR,dySign(a),dySign(b));
  E infneg=mkAnd(mkNot(az),neg), infpos=mkAnd(mkNot(az),mkNot(neg));
  E r;
  if(op==O_FEQ) r=mkIte(bz,mkBool(false),eq);
  else { bool le=op==O_FLE; if(!swapped) r=mkIte(bz,infneg,le?mkOr(qlt,eq):qlt); else r=mkIte(bz,infpos,le?mkOr(qgt,eq):qgt); }
  return r;
}
static E mkFCmp(Op op,E a,E b);
// FDIV(DYAD,DYAD) against FDIV(DYAD,DYAD): exact when the cross products are small (distinct quotients round apart)
static E fdivCmp2(Op op,E p,E q){
  if(p->sk!=S_F32) return nullptr; Dy a,b,c,d; if(!toDy(p->k[0],a)||!toDy(p->k[1],b)||!toDy(q->k[0],c)||!toDy(q->k[1],d)) return nullptr;
  if(!alignDy(a,b)||!alignDy(c,d)) return nullptr;
  auto mg=[](E e){ return std::max<i128>(e->smax,-(i128)e->smin); };
  if(mg(a.i)>=(1<<22)||mg(b.i)>=(1<<22)||mg(c.i)>=(1<<22)||mg(d.i)>=(1<<22)) return nullptr;
  bool same=p->k[1]==q->k[1]; if(!same&&(mg(a.i)*mg(d.i)>=(1<<22)||mg(c.i)*mg(b.i)>=(1<<22)||mg(b.i)*mg(d.i)>=(1<<22))) return nullptr;
  E l,r; if(same&&b.i==d.i){ l=a.i; r=c.i; } else { l=imul(a.i,d.i); r=imul(c.i,b.i); } if(!l||!r) return nullptr;
  auto Z=[](E e){ return mkEq(e,mkConst(e->w,0)); }; auto N=[](E e){ return mkBin(O_SLT,e,mkConst(e->w,0)); };
  E flip=(same&&b.i==d.i)?N(b.i):mkBin(O_XOR,N(b.i),N(d.i));
  E lt=icmpR(O_SLT,l,r),gt=icmpR(O_SLT,r,l),eq=icmpR(O_EQ,l,r); E flt=mkIte(flip,gt,lt);
  E bz=Z(b.i),dz=Z(d.i),na=mkAnd(bz,Z(a.i)),nc=mkAnd(dz,Z(c.i)); E sa=mkBin(O_XOR,dySign(a),dySign(b)),sc=mkBin(O_XOR,dySign(c),dySign(d));
  E ok=mkAnd(mkNot(na),mkNot(nc)); E fin=mkAnd(mkNot(bz),mkNot(dz));
  E ninfA=mkAnd(bz,sa),pinfA=mkAnd(bz,mkNot(sa)),ninfC=mkAnd(dz,sc),pinfC=mkAnd(dz,mkNot(sc));
  E eqv=mkOr(mkAnd(fin,eq),mkOr(mkAnd(ninfA,ninfC),mkAnd(pinfA,pinfC)));
  E ltv=mkOr(mkAnd(fin,flt),mkOr(mkAnd(ninfA,mkNot(ninfC)),mkAnd(pinfC,mkNot(pinfA))));
  return mkAnd(ok,op==O_FEQ?eqv:op==O_FLT?ltv:mkOr(ltv,eqv));
}
static int ratTree(E e,int depth){ // number of leaves when e is a tree of choices between constants, dyads and dyadic quotients
  if(e->isConst()) return 1; if(e->op==O_DYAD) return 1; if(e->op==O_FDIV){ Dy a,b; return toDy(e->k[0],a)&&toDy(e->k[1],b)?1:0; }
  if(e->op==O_ITE&&depth>0){ int x=ratTree(e->k[1],depth-1),y=x?ratTree(e->k[2],depth-1):0; return x&&y?x+y:0; } return 0; }
static E mkFCmp(Op op,E a,E b){
  if(a->sk!=b->sk||!a->isFP()){ fprintf(stderr,"fcmp sorts\n"); abort(); }
  if(a->isConst()&&b->isConst()) return foldc(op,S_BV,1,a,b);
  if((a->isConst()&&std::isnan(fpval(a->sk,a->c)))||(b->isConst()&&std::isnan(fpval(b->sk,b->c)))) return mkBool(false);
  bool nonan=!a->fnan&&!b->fnan;
  if(op==O_FEQ){ if(a==b) return mkNot(mkFIsNan(a)); if(a->flo<=a->fhi&&b->flo<=b->fhi&&(a->fhi<b->flo||b->fhi<a->flo)) return mkBool(false); if(a->id>b->id) std::swap(a,b); }
  if(op==O_FLT){ if(a==b) return mkBool(false); if(a->flo>=b->fhi) return mkBool(false); if(nonan&&a->fhi<b->flo) return mkBool(true); }
  if(op==O_FLE){ if(a==b) return mkNot(mkFIsNan(a)); if(a->flo>b->fhi&&a->flo<=a->fhi) return mkBool(false); if(nonan&&a->fhi<=b->flo) return mkBool(true); }
  if(a->op==O_DYAD||b->op==O_DYAD){ Dy x,y; if(toDy(a,x)&&toDy(b,y)&&alignDy(x,y)) return icmpR(op==O_FEQ?O_EQ:op==O_FLT?O_SLT:O_SLE,x.i,y.i); 
    // compare with infinite consts is handled by ranges
  }
  if(a->op==O_FDIV&&b->isConst()){ if(E r=fdivCmp(op,a,b,false)) return r; }
  if(b->op==O_FDIV&&a->isConst()){ if(E r=fdivCmp(op,b,a,true)) return r; }
  { auto rat=[](E e){ return e->op==O_FDIV||e->op==O_DYAD||e->isConst(); };
    if((a->op==O_FDIV||b->op==O_FDIV)&&rat(a)&&rat(b)){ auto q=[&](E e){ return e->op==O_FDIV?e:node(O_FDIV,e->sk,e->w,e,mkF32(1.0f)); };
      if(a->sk==S_F32&&!(a->isConst()&&!std::isfinite(fpval(a->sk,a->c)))&&!(b->isConst()&&!std::isfinite(fpval(b->sk,b->c)))) if(E r=fdivCmp2(op,q(a),q(b))) return r; }
    if(a->sk==S_F32&&(a->op==O_ITE||b->op==O_ITE)){ int x=ratTree(a,4),y=x?ratTree(b,4):0; if(x&&y&&x*y<=16){
      if(a->op==O_ITE) return mkIte(a->k[0],mkFCmp(op,a->k[1],b),mkFCmp(op,a->k[2],b)); return mkIte(b->k[0],mkFCmp(op,a,b->k[1]),mkFCmp(op,a,b->k[2])); } } }
  if(a->op==O_FNEG&&b->op==O_FNEG) return mkFCmp(op,b->k[0],a->k[0]);
  if(a->op==O_FNEG&&b->isConst()) return mkFCmp(op,mkFUn(O_FNEG,b),a->k[0]);
  if(b->op==O_FNEG&&a->isConst()) return mkFCmp(op,b->k[0],mkFUn(O_FNEG,a));
  if(a->op==O_FPEXT&&b->op==O_FPEXT) return mkFCmp(op,a->k[0],b->k[0]);
  // float compared with a constant through an extension
  auto shrinkC=[&](E c)->E{ double v=asF64(c->c); float f=(float)v; if((double)f==v) return mkF32(f); return nullptr; };
  if(a->op==O_FPEXT&&b->isConst()) if(E c=shrinkC(b)) return mkFCmp(op,a->k[0],c);
  if(b->op==O_FPEXT&&a->isConst()) if(E c=shrinkC(a)) return mkFCmp(op,c,b->k[0]);
  if(a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()&&b->isConst()) return mkIte(a->k[0],mkFCmp(op,a->k[1],b),mkFCmp(op,a->k[2],b));
  if(b->op==O_ITE&&b->k[1]->isConst()&&b->k[2]->isConst()&&a->isConst()) return mkIte(b->k[0],mkFCmp(op,a,b->k[1]),mkFCmp(op,a,b->k[2]));
  // float equality with an exact constant: compare bit patterns (cheaper)
  return node(op,S_BV,1,a,b);
}
E mkFEq(E a,E b){ return mkFCmp(O_FEQ,a,b); }
E mkFLt(E a,E b){ return mkFCmp(O_FLT,a,b); }
E mkFLe(E a,E b){ return mkFCmp(O_FLE,a,b); }
E mkFIsNan(E a){
  if(a->isConst()) return mkBool(std::isnan(fpval(a->sk,a->c)));
  if(!a->fnan) return mkBool(false);
  switch(a->op){
    case O_FNEG: case O_FABS: case O_FPEXT: case O_FPTRUNC: case O_FRINT: return mkFIsNan(a->k[0]);
    case O_ITE: return mkIte(a->k[0],mkFIsNan(a->k[1]),mkFIsNan(a->k[2]));
    default: break; }
  return node(O_FISNAN,S_BV,1,a);
}
E mkFConv(Op op,E a,SortK sk){
  unsigned w=fw(sk);
  if(a->isConst()) return foldc(op,sk,w,a);
  if(op==O_FPTRUNC&&a->op==O_FPEXT) return a->k[0];
  if(op==O_FPEXT&&a->op==O_DYAD) return mkDy(S_F64,a->k[0],a->imm0,a->k[1]);
  if(op==O_FPTRUNC&&a->op==O_DYAD&&inLimit(S_F32,a->k[0]->smin,a->k[0]->smax)) return mkDy(S_F32,a->k[0],a->imm0,a->k[1]);
  if(op==O_SITOFP&&a->w==1) return mkIte(a,sk==S_F32?mkF32(-1):mkF64(-1),sk==S_F32?mkF32(0):mkF64(0));
  if(op==O_UITOFP&&a->w==1) return mkIte(a,sk==S_F32?mkF32(1):mkF64(1),sk==S_F32?mkF32(0):mkF64(0));
  if(op==O_SITOFP&&a->w<=64&&inLimit(sk,a->smin,a->smax)) return mkDy(sk,a,0,mkBool(false));
  if(op==O_UITOFP&&a->w<=64&&inLimit(sk,0,a->umax)){ E z=a->w<=63?mkZExt(a,a->w+1):a; return mkDy(sk,z,0,mkBool(false)); }
  if(op==O_UITOFP&&a->w<=64&&a->smin>=0) return mkFConv(O_SITOFP,a,sk);
  return node(op,sk,w,a);
}
E mkFToI(Op op,E a,unsigned w){
  if(a->isConst()) return foldc(op,S_BV,w,a);
  if(a->op==O_DYAD){ E t=mkFRint(a,RM_TZ); Dy d; if(toDy(t,d)&&d.k<=0){ 
      E i=d.i; if(d.k<0){ int ww=std::min(62,(int)i->w-d.k); i=mkBin(O_SHL,adaptW(i,ww),mkConst(ww,-d.k)); }
      bool fits= op==O_FPTOSI ? (bitsFor(i->smin,i->smax)<=(int)w) : (i->smin>=0&&(w>=63||i->smax<((int64_t)1<<w)));
      if(fits) return adaptW(i,w); } 
    // out of range is poison; still give the truncated integer
    if(toDy(t,d)&&d.k==0) return adaptW(d.i,w);
  }
  if((a->op==O_SITOFP||a->op==O_UITOFP)&&false) return nullptr;
  return node(op,S_BV,w,a);
}
E mkFBits(E f){
  if(f->isConst()) return mkConst(f->w,f->c);
  if(f->op==O_BITSF) return f->k[0];
  if(f->op==O_FNEG) return mkBin(O_XOR,mkFBits(f->k[0]),mkConst(f->w,(u128)1<<(f->w-1)));
  if(f->op==O_FABS) return mkBin(O_AND,mkFBits(f->k[0]),mkConst(f->w,maskw(f->w-1)));
  if(f->op==O_ITE) return mkIte(f->k[0],mkFBits(f->k[1]),mkFBits(f->k[2]));
  return node(O_FBITS,S_BV,f->w,f);
}
E mkBitsF(E b,SortK sk){
  if(b->isConst()) return mkFBitsConst(sk,(uint64_t)b->c);
  if(b->op==O_FBITS&&b->k[0]->sk==sk) return b->k[0];
  if(b->op==O_ITE&&(b->k[1]->op==O_FBITS||b->k[2]->op==O_FBITS||b->k[1]->isConst()||b->k[2]->isConst()||b->k[1]->op==O_ITE||b->k[2]->op==O_ITE)) return mkIte(b->k[0],mkBitsF(b->k[1],sk),mkBitsF(b->k[2],sk));
  // clear sign bit -> fabs ; flip -> fneg
  unsigned w=fw(sk);
  if(b->op==O_ZEXT&&b->k[0]->w==w-1&&b->k[0]->op==O_EXTRACT&&b->k[0]->imm0==0&&b->k[0]->k[0]->w==w) return mkFUn(O_FABS,mkBitsF(b->k[0]->k[0],sk));
  if(b->op==O_XOR&&b->k[1]->isConst()&&b->k[1]->c==((u128)1<<(w-1))) return mkFUn(O_FNEG,mkBitsF(b->k[0],sk));
  return node(O_BITSF,sk,w,b);
}
E mkRangedFloat(E v,SortK sk,double lo,double hi){ E e=node(O_BITSF,sk,fw(sk),v); Expr* x=const_cast<Expr*>(e); x->flo=lo;x->fhi=hi;x->fnan=false; return e; }
E mkFIdent(E a,E b){ // value identity
  E bothnan=mkAnd(mkFIsNan(a),mkFIsNan(b));
  return mkOr(bothnan,mkAnd(mkFEq(a,b),mkEq(mkExtract(mkFBits(a),a->w-1,1),mkExtract(mkFBits(b),b->w-1,1)))); }

static void ufAxioms(E e,const std::string& n,SortK sk,E a,E b){
  auto C=[&](double d){ return sk==S_F32?mkF32((float)d):mkF64(d); };
  std::vector<E> ax; E nanA=mkFIsNan(a); E nanB=b?mkFIsNan(b):mkBool(false);
  E infA=mkFEq(mkFUn(O_FABS,a),C(INF)), infB=b?mkFEq(mkFUn(O_FABS,b),C(INF)):mkBool(false);
  E nan=mkFIsNan(e); E r=e; Expr* x=const_cast<Expr*>(e);
  auto iff=[&](E p,E q){ ax.push_back(mkEq(p,q)); }; auto imp=[&](E p,E q){ ax.push_back(mkOr(mkNot(p),q)); };
  auto neg=[&](E f){ return f->isConst()?mkBool(std::signbit(fpval(sk,f->c))):mkEq(mkExtract(mkFBits(f),f->w-1,1),mkConst(1,1)); };
  auto le=[&](E p,E q){ return mkFLe(p,q); };
  const double PIF=sk==S_F32?(double)3.14159274f:3.141592653589793, HPIF=sk==S_F32?(double)1.57079637f:1.5707963267948966;
  if(n=="hypot"){
    E inf=mkOr(infA,infB); iff(nan,mkAnd(mkNot(inf),mkOr(nanA,nanB))); imp(inf,mkFEq(r,C(INF)));
    E ok=mkNot(nan); imp(ok,le(C(0),r)); E aa=mkFUn(O_FABS,a),ab=mkFUn(O_FABS,b); imp(ok,mkAnd(mkOr(nanA,le(aa,r)),mkOr(nanB,le(ab,r))));
    imp(mkFEq(b,C(0)),mkOr(nan,mkFIdent(r,aa))); imp(mkFEq(a,C(0)),mkOr(nan,mkFIdent(r,ab)));
    // |(x,y)| <= |x|+|y| and <= 2*max (float rounding is monotone)
    imp(ok,le(r,mkFBin(O_FADD,aa,ab)));
    E mx=mkIte(mkFLt(aa,ab),ab,aa); imp(mkAnd(ok,mkNot(inf)),le(r,mkFBin(O_FMUL,mx,C(1.4143))));
    ax.push_back(mkNot(neg(r))); 
    x->flo=0; 
    if(!a->fnan&&!b->fnan) x->fnan=false;
    double am=std::max(std::fabs(a->flo),std::fabs(a->fhi)),bm=std::max(std::fabs(b->flo),std::fabs(b->fhi)); x->fhi=fop(O_FADD,sk,am,bm); if(std::isnan(x->fhi)) x->fhi=INF;
  } else if(n=="sin"||n=="cos"){
    iff(nan,mkOr(nanA,infA)); imp(mkNot(nan),mkAnd(le(C(-1),r),le(r,C(1))));
    if(n=="sin") imp(mkFEq(a,C(0)),mkFIdent(r,a)); else imp(mkFEq(a,C(0)),mkFEq(r,C(1)));
    x->flo=-1;x->fhi=1; if(!a->fnan&&std::isfinite(a->flo)&&std::isfinite(a->fhi)) x->fnan=false;
  } else if(n=="tan"){ iff(nan,mkOr(nanA,infA)); imp(mkFEq(a,C(0)),mkFIdent(r,a));
  } else if(n=="asin"||n=="acos"){ iff(nan,mkNot(mkAnd(le(C(-1),a),le(a,C(1)))));
    if(n=="asin"){ imp(mkNot(nan),mkAnd(le(C(-HPIF),r),le(r,C(HPIF)))); x->flo=-HPIF;x->fhi=HPIF; imp(mkFEq(a,C(0)),mkFIdent(r,a));}
    else { imp(mkNot(nan),mkAnd(le(C(0),r),le(r,C(PIF)))); x->flo=0;x->fhi=PIF; imp(mkFEq(a,C(1)),mkFEq(r,C(0))); imp(mkFEq(a,C(-1)),mkFEq(r,C(PIF))); }
  } else if(n=="atan"){ iff(nan,nanA); imp(mkNot(nan),mkAnd(le(C(-HPIF),r),le(r,C(HPIF)))); x->flo=-HPIF;x->fhi=HPIF; if(!a->fnan) x->fnan=false; imp(mkFEq(a,C(0)),mkFIdent(r,a)); imp(mkNot(nan),mkEq(neg(r),neg(a)));
  } else if(n=="atan2"){ // a=y, b=x
    iff(nan,mkOr(nanA,nanB)); E ok=mkNot(nan); imp(ok,mkAnd(le(C(-PIF),r),le(r,C(PIF)))); imp(ok,mkEq(neg(r),neg(a)));
    E az=mkFEq(a,C(0)); imp(mkAnd(ok,mkAnd(az,mkNot(neg(b)))),mkFEq(r,C(0)));
    imp(mkAnd(ok,mkAnd(az,neg(b))),mkFEq(mkFUn(O_FABS,r),C(PIF)));
    E ar=mkFUn(O_FABS,r);
    imp(mkAnd(ok,mkFLt(C(0),b)),le(ar,C(1.570797f))); imp(mkAnd(ok,mkFLt(b,C(0))),le(C(1.570796f),ar)); // a few ulps: the library is not exactly rounded
    imp(mkAnd(mkAnd(ok,mkNot(az)),mkFEq(b,C(0))),mkFEq(ar,C(HPIF)));
    x->flo=-PIF;x->fhi=PIF; if(!a->fnan&&!b->fnan) x->fnan=false;
  } else if(n=="fmod"){
    E bz=mkFEq(b,C(0)); iff(nan,mkOr(mkOr(nanA,nanB),mkOr(infA,bz))); E ok=mkNot(nan);
    E aa=mkFUn(O_FABS,a),ab=mkFUn(O_FABS,b),ar=mkFUn(O_FABS,r); imp(ok,mkFLt(ar,ab)); imp(ok,le(ar,aa)); imp(ok,mkEq(neg(r),neg(a)));
    imp(mkAnd(ok,mkFLt(aa,ab)),mkFIdent(r,a));
    // exact for |a| in [|b|, 2|b|]
    E two=mkFBin(O_FMUL,ab,C(2)); E d=mkFBin(O_FSUB,aa,ab); imp(mkAnd(ok,mkAnd(le(ab,aa),mkFLt(aa,two))),mkFEq(ar,d)); imp(mkAnd(ok,mkFEq(aa,two)),mkFEq(r,C(0)));
    if(b->isConst()&&std::isfinite(b->flo)){ x->flo=-std::fabs(b->flo); x->fhi=std::fabs(b->flo); if(a->flo>=0) x->flo=0; if(a->fhi<=0) x->fhi=0; if(b->flo!=0&&!a->fnan&&std::isfinite(a->flo)&&std::isfinite(a->fhi)) x->fnan=false; }
  } else if(n=="exp"||n=="exp2"){ iff(nan,nanA); E ok=mkNot(nan); imp(ok,le(C(0),r)); imp(le(a,C(0)),le(r,C(1))); imp(le(C(0),a),le(C(1),r)); imp(mkFEq(a,C(0)),mkFEq(r,C(1))); ax.push_back(mkNot(neg(r)));
    x->flo=0; if(!a->fnan) x->fnan=false; if(a->fhi<=0) x->fhi=1; if(a->flo>=0) x->flo=1;
  } else if(n=="pow"){ // only the part used: non-negative base
    imp(mkAnd(le(C(0),a),mkNot(nanB)),mkAnd(mkNot(nan),le(C(0),r)));
    imp(mkAnd(mkFEq(a,C(1)),mkNot(nanB)),mkFEq(r,C(1))); imp(mkAnd(mkFEq(a,C(0)),mkFLt(C(0),b)),mkFEq(r,C(0)));
    imp(mkAnd(mkAnd(le(C(0),a),le(a,C(1))),mkFLt(C(0),b)),le(r,C(1)));
    imp(mkAnd(le(C(1),a),mkFLt(C(0),b)),le(C(1),r));
    if(a->flo>=0&&!a->fnan&&!b->fnan){ x->flo=0; x->fnan=false; if(a->fhi<=1&&b->flo>0) x->fhi=1; }
  } else if(n=="nextafter"){
    // handled by caller
  }
  g_axioms[e]=ax;
}
E mkUF(const std::string& name,SortK sk,E a,E b){
  int ni=-1; for(size_t i=0;i<g_uf.size();i++) if(g_uf[i]==name) ni=(int)i; if(ni<0){ ni=(int)g_uf.size(); g_uf.push_back(name);} 
  if(a->isConst()&&(!b||b->isConst())){ double r=nativeUF(name,sk,fpval(sk,a->c),b?fpval(sk,b->c):0); return sk==S_F32?mkF32((float)r):mkF64(r); }
  if(name=="hypot"){ E x=mkFUn(O_FABS,a),y=mkFUn(O_FABS,b); if(x->id>y->id) std::swap(x,y); a=x;b=y; 
    if(x->isConst()&&fpval(sk,x->c)==0) return y; if(y->isConst()&&fpval(sk,y->c)==0) return x; }
  if(name=="fmod"&&b->isConst()&&!a->fnan){ double c=std::fabs(fpval(sk,b->c)); if(c>0&&a->flo>-c&&a->fhi<c) return a; }
  if(name=="cos"&&a->op==O_FNEG) a=a->k[0]; if(name=="cos"&&a->op==O_FABS) a=a->k[0];
  if((name=="sin"||name=="tan"||name=="atan"||name=="asin")&&a->op==O_FNEG) return mkFUn(O_FNEG,mkUF(name,sk,a->k[0],b));
  E e=node(O_UF,sk,fw(sk),a,b,nullptr,ni);
  if(!g_axioms.count(e)) ufAxioms(e,name,sk,a,b);
  return e;
}

// ---------------------------------------------------------------- variables
static std::unordered_set<std::string> dummy_;
static std::deque<std::vector<uint32_t>> g_vsets;
static std::vector<uint32_t> g_empty;
const std::vector<uint32_t>& varsOf(E e0){
  if(e0->vars) return *e0->vars;
  std::vector<E> st{e0};
  while(!st.empty()){
    E e=st.back(); if(e->vars){ st.pop_back(); continue; }
    if(e->nk==0){ if(e->op==O_VAR){ g_vsets.push_back({(uint32_t)e->imm0}); e->vars=&g_vsets.back(); } else e->vars=&g_empty; st.pop_back(); continue; }
    bool ok=true; for(int i=0;i<e->nk;i++) if(!e->k[i]->vars){ st.push_back(e->k[i]); ok=false; }
    if(!ok) continue; st.pop_back();
    const std::vector<uint32_t>* best=e->k[0]->vars; bool same=true;
    for(int i=1;i<e->nk;i++) if(e->k[i]->vars->size()>best->size()) best=e->k[i]->vars;
    for(int i=0;i<e->nk;i++) if(e->k[i]->vars!=best&&!std::includes(best->begin(),best->end(),e->k[i]->vars->begin(),e->k[i]->vars->end())) same=false;
    if(e->op==O_UF) same=false;
    if(same){ e->vars=best; continue; }
    std::vector<uint32_t> u; for(int i=0;i<e->nk;i++){ std::vector<uint32_t> t; std::set_union(u.begin(),u.end(),e->k[i]->vars->begin(),e->k[i]->vars->end(),std::back_inserter(t)); u.swap(t);} 
    if(e->op==O_UF){ uint32_t id=0x40000000u+e->imm0; if(!std::binary_search(u.begin(),u.end(),id)) u.insert(std::lower_bound(u.begin(),u.end(),id),id); }
    g_vsets.push_back(std::move(u)); e->vars=&g_vsets.back();
  }
  return *e0->vars;
}
std::string show(E e,int depth){
  std::ostringstream o;
  if(e->op==O_CONST){ if(e->isFP()) { o<<fpval(e->sk,e->c); return o.str(); } if(e->w==1) return e->c?"true":"false"; o<<(long long)sgn(e->c,e->w)<<":"<<e->w; return o.str(); }
  if(e->op==O_VAR) return g_vars[e->imm0].name;
  if(depth<=0){ o<<"#"<<e->id; return o.str(); }
  o<<"("<<(e->op==O_UF?g_uf[e->imm0].c_str():kOpName[e->op]); if(e->op==O_EXTRACT) o<<"["<<e->imm0<<"+"<<e->w<<"]"; if(e->op==O_DYAD) o<<"/2^"<<e->imm0; if(e->op==O_FRINT) o<<e->imm0;
  for(int i=0;i<e->nk;i++) o<<" "<<show(e->k[i],depth-1); o<<")"; return o.str();
}
}  // namespace sx
