// Hash-consed bit-vector expressions over symbolic *bytes*.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <array>
#include <string>
#include <algorithm>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;
typedef uint8_t u8; typedef uint16_t u16;

static inline u64 maskw(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i64 sx(u64 v, unsigned w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=maskw(w); return (i64)((v^m)-m); }

enum EOp : u8 { E_CONST, E_VAR, E_UNINIT,
  E_ADD,E_SUB,E_MUL,E_UDIV,E_SDIV,E_UREM,E_SREM,E_SHL,E_LSHR,E_ASHR,E_AND,E_OR,E_XOR,
  E_EQ,E_ULT,E_ULE,E_SLT,E_SLE, E_ZEXT,E_SEXT,E_TRUNC,E_EXTB /*byte k*/,E_CATB /*n bytes*/,E_ITE,E_TABLE };

struct Bits { u64 w[4];
  bool operator==(const Bits&o)const{ return !memcmp(w,o.w,32);}
  bool get(unsigned i)const{ return (w[i>>6]>>(i&63))&1; }
  void set(unsigned i){ w[i>>6]|=1ull<<(i&63);} 
  bool any()const{ return w[0]|w[1]|w[2]|w[3]; }
  int count()const{ return __builtin_popcountll(w[0])+__builtin_popcountll(w[1])+__builtin_popcountll(w[2])+__builtin_popcountll(w[3]); }
  int first()const{ for(int i=0;i<4;i++) if(w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
  Bits operator&(const Bits&o)const{ Bits r; for(int i=0;i<4;i++) r.w[i]=w[i]&o.w[i]; return r; }
  Bits operator|(const Bits&o)const{ Bits r; for(int i=0;i<4;i++) r.w[i]=w[i]|o.w[i]; return r; }
  Bits operator~()const{ Bits r; for(int i=0;i<4;i++) r.w[i]=~w[i]; return r; }
  static Bits none(){ Bits b; memset(&b,0,sizeof b); return b; }
  static Bits all(){ Bits b; memset(&b,0xff,sizeof b); return b; }
};
struct BitsHash { size_t operator()(const Bits&b)const{ u64 h=0x9e3779b97f4a7c15ull; for(int i=0;i<4;i++){ h^=b.w[i]; h*=0xff51afd7ed558ccdull; h^=h>>33; } return h; } };

struct Expr { EOp op; u8 w; u8 taint; u8 nk; u32 id; i32 var; /* >=0: the only variable; -1 none; -2 several */
  u64 k; Expr* a; Expr* b; Expr* c; Expr** kids; u64* tab; /*256 entries if var>=0*/ std::vector<int>* sup; int ttid; };

struct Val { u64 c; Expr* e; };

struct EKey { EOp op; u8 w; u64 k; Expr*a,*b,*c; const std::vector<Expr*>* kids; };

struct ExprPool {
  std::vector<Expr*> all; std::unordered_multimap<u64,Expr*> tabl; 
  std::vector<std::vector<u64>> tables; std::unordered_multimap<u64,int> tableIdx;
  std::vector<Bits> ttSets; std::unordered_map<Bits,int,BitsHash> ttIdx;
  int internSet(const Bits&b){ auto it=ttIdx.find(b); if(it!=ttIdx.end()) return it->second; int id=ttSets.size(); ttSets.push_back(b); ttIdx[b]=id; return id; }
  static u64 mix(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdull; }
  u64 hashOf(EOp op,u8 w,u64 k,Expr*a,Expr*b,Expr*c,Expr**kids,int nk){ u64 h=mix(op*131+w,k); h=mix(h,(u64)a); h=mix(h,(u64)b); h=mix(h,(u64)c); for(int i=0;i<nk;i++) h=mix(h,(u64)kids[i]); return h; }
  static u64 evalBin(EOp op,unsigned w,u64 x,u64 y){ u64 m=maskw(w); switch(op){
    case E_ADD: return (x+y)&m; case E_SUB: return (x-y)&m; case E_MUL: return (x*y)&m;
    case E_UDIV: return y? (x/y)&m : m; case E_UREM: return y? x%y : x;
    case E_SDIV: { i64 p=sx(x,w),q=sx(y,w); if(!q) return p<0?1:m; if(q==-1) return (0-(u64)p)&m; return (u64)(p/q)&m; }
    case E_SREM: { i64 p=sx(x,w),q=sx(y,w); if(!q) return x; if(q==-1) return 0; return (u64)(p%q)&m; }
    case E_SHL: return y>=w?0:(x<<y)&m; case E_LSHR: return y>=w?0:(x>>y); case E_ASHR: { i64 p=sx(x,w); return (u64)(p>>(y>=w?w-1:y))&m; }
    case E_AND: return x&y; case E_OR: return x|y; case E_XOR: return x^y;
    case E_EQ: return x==y; case E_ULT: return x<y; case E_ULE: return x<=y; case E_SLT: return sx(x,w)<sx(y,w); case E_SLE: return sx(x,w)<=sx(y,w);
    default: abort(); } }
  u64 evalOne(Expr*e,u64 va,u64 vb,u64 vc){ switch(e->op){
    case E_ZEXT: return va; case E_SEXT: return (u64)sx(va,e->a->w)&maskw(e->w); case E_TRUNC: return va&maskw(e->w);
    case E_EXTB: return (va>>(8*e->k))&0xff; case E_ITE: return va?vb:vc;
    case E_TABLE: { auto&t=tables[e->k]; return va<t.size()?t[va]:0; }
    default: return evalBin(e->op,e->a->w,va,vb); } }
  Expr* raw(EOp op,u8 w,u64 k,Expr*a=nullptr,Expr*b=nullptr,Expr*c=nullptr,Expr**kids=nullptr,int nk=0){
    u64 h=hashOf(op,w,k,a,b,c,kids,nk);
    auto r=tabl.equal_range(h);
    for(auto it=r.first;it!=r.second;++it){ Expr*e=it->second; if(e->op==op&&e->w==w&&e->k==k&&e->a==a&&e->b==b&&e->c==c&&e->nk==nk&&(!nk||!memcmp(e->kids,kids,nk*sizeof(Expr*)))) return e; }
    Expr*e=new Expr(); e->op=op;e->w=w;e->k=k;e->a=a;e->b=b;e->c=c;e->nk=nk;e->kids=nullptr;e->tab=nullptr;e->sup=nullptr;e->ttid=-1;
    if(nk){ e->kids=new Expr*[nk]; memcpy(e->kids,kids,nk*sizeof(Expr*)); }
    e->id=all.size(); all.push_back(e);
    e->taint = op==E_UNINIT; e->var=-1;
    auto addk=[&](Expr*x){ if(!x) return; e->taint|=x->taint; 
      if(x->var==-1) return; if(e->var==-1){ e->var=x->var; if(x->var==-2) e->sup=new std::vector<int>(*x->sup); return; }
      if(e->var>=0 && x->var==e->var) return;
      if(!e->sup){ e->sup=new std::vector<int>{e->var}; }
      if(x->var>=0) e->sup->push_back(x->var); else e->sup->insert(e->sup->end(),x->sup->begin(),x->sup->end());
      std::sort(e->sup->begin(),e->sup->end()); e->sup->erase(std::unique(e->sup->begin(),e->sup->end()),e->sup->end()); e->var=-2; };
    if(op==E_VAR){ e->var=(int)k; }
    addk(a);addk(b);addk(c); for(int i=0;i<nk;i++) addk(kids[i]);
    if(e->var>=0 && !e->taint){ e->tab=new u64[256];
      if(op==E_VAR) for(int i=0;i<256;i++) e->tab[i]=i;
      else if(op==E_CATB) for(int i=0;i<256;i++){ u64 v=0; for(int j=0;j<nk;j++) v|=at(kids[j],i)<<(8*j); e->tab[i]=v; }
      else for(int i=0;i<256;i++) e->tab[i]=evalOne(e,at(a,i),b?at(b,i):0,c?at(c,i):0);
    }
    tabl.emplace(h,e); return e; }
  static u64 at(Expr*e,int i){ return e->op==E_CONST? e->k : e->tab[i]; }
  Expr* cst(u64 v,u8 w){ return raw(E_CONST,w,v&maskw(w)); }
  Expr* toE(Val v,u8 w){ return v.e? v.e : cst(v.c,w); }
  // collapse an expression to a Val: constant tables fold
  Val fin(Expr*e){ if(e->op==E_CONST) return Val{e->k,nullptr};
    if(e->tab){ u64 x=e->tab[0]; bool same=true; for(int i=1;i<256;i++) if(e->tab[i]!=x){ same=false; break; } if(same) return Val{x,nullptr}; }
    return Val{0,e}; }
  Val var(int id){ return Val{0,raw(E_VAR,8,(u64)id)}; }
  Val uninit(u8 w){ return Val{0,raw(E_UNINIT,w,0)}; }
  Val bin(EOp op,u8 w,Val x,Val y){ // w: operand width
    bool cmp=op>=E_EQ&&op<=E_SLE; 
    if(!x.e&&!y.e) return Val{evalBin(op,w,x.c,y.c),nullptr};
    if(!y.e){ u64 m=maskw(w); switch(op){ case E_ADD: case E_SUB: case E_OR: case E_XOR: case E_SHL: case E_LSHR: case E_ASHR: if(y.c==0) return x; if(op==E_OR&&y.c==m) return y; break;
      case E_AND: if(y.c==0) return y; if(y.c==m) return x; break; case E_MUL: if(y.c==0) return y; if(y.c==1) return x; break; case E_UDIV: case E_SDIV: if(y.c==1) return x; break; default: break; } }
    if(!x.e){ u64 m=maskw(w); switch(op){ case E_ADD: case E_OR: case E_XOR: if(x.c==0) return y; if(op==E_OR&&x.c==m) return x; break; case E_AND: if(x.c==0) return x; if(x.c==m) return y; break; case E_MUL: if(x.c==0) return x; if(x.c==1) return y; break; default: break; } }
    if(x.e==y.e && !x.e->taint){ switch(op){ case E_EQ: case E_ULE: case E_SLE: return Val{1,nullptr}; case E_ULT: case E_SLT: case E_SUB: case E_XOR: return Val{0,nullptr}; case E_AND: case E_OR: return x; default: break; } }
    if(op==E_SUB && x.e && !y.e) return bin(E_ADD,w,x,Val{(0-y.c)&maskw(w),nullptr});
    { // sums: x = base + constant
      auto split=[&](Val v,Expr*&base,u64&k){ base=v.e; k=0; if(!v.e){ k=v.c; return; } if(v.e->op==E_ADD&&v.e->b->op==E_CONST){ base=v.e->a; k=v.e->b->k; } };
      if(op==E_ADD||op==E_SUB||op==E_EQ||op==E_XOR){ Expr*p,*q; u64 j,k; split(x,p,j); split(y,q,k); u64 m=maskw(w);
        if(op==E_ADD){ if(!q&&p!=x.e) return bin(E_ADD,w,Val{0,p},Val{(j+k)&m,nullptr}); if(!p&&q!=y.e) return bin(E_ADD,w,Val{0,q},Val{(j+k)&m,nullptr}); }
        if(op==E_SUB&&p&&p==q&&!p->taint) return Val{(j-k)&m,nullptr};
        if(op==E_EQ&&p&&p==q&&!p->taint) return Val{(u64)(j==k),nullptr};
        if(op==E_EQ&&p&&!q&&p!=x.e) return bin(E_EQ,w,Val{0,p},Val{(k-j)&m,nullptr});
        if(op==E_EQ&&q&&!p&&q!=y.e) return bin(E_EQ,w,Val{0,q},Val{(j-k)&m,nullptr}); } }
    Expr*a=toE(x,w),*b=toE(y,w);
    if((op==E_ADD||op==E_MUL||op==E_AND||op==E_OR||op==E_XOR||op==E_EQ) && a->op==E_CONST) std::swap(a,b);
    return fin(raw(op,cmp?1:w,0,a,b)); }
  Val notv(Val x){ return bin(E_XOR,1,x,Val{1,nullptr}); }
  Val zext(Val x,u8 wf,u8 wt){ if(!x.e) return x; if(wf==wt) return x; return fin(raw(E_ZEXT,wt,0,x.e)); }
  Val sext(Val x,u8 wf,u8 wt){ if(!x.e) return Val{(u64)::sx(x.c,wf)&maskw(wt),nullptr}; if(wf==wt) return x; return fin(raw(E_SEXT,wt,0,x.e)); }
  Val trunc(Val x,u8 wf,u8 wt){ if(!x.e) return Val{x.c&maskw(wt),nullptr}; if(wf==wt) return x; Expr*e=x.e;
    if(e->op==E_ZEXT||e->op==E_SEXT){ if(e->a->w==wt) return Val{0,e->a}; }
    if(wt==8) return extb(x,0);
    return fin(raw(E_TRUNC,wt,0,e)); }
  Val extb(Val x,int k){ if(!x.e) return Val{(x.c>>(8*k))&0xff,nullptr}; Expr*e=x.e;
    if(e->w<8){ if(k) return Val{0,nullptr}; return fin(raw(E_ZEXT,8,0,e)); }
    if(e->w==8&&k==0) return x;
    if(8*k>=e->w) return Val{0,nullptr};
    if(e->op==E_CATB) { return fin(e->kids[k]); }
    if(e->op==E_ZEXT){ if(8*(u64)k>=e->a->w) return Val{0,nullptr}; if(e->a->w>=8) return extb(Val{0,e->a},k); }
    if(e->op==E_UNINIT) return uninit(8);
    return fin(raw(E_EXTB,8,k,e)); }
  Val catb(Val*by,int n){ // little endian bytes
    bool conc=true; for(int i=0;i<n;i++) if(by[i].e) conc=false;
    if(conc){ u64 v=0; for(int i=0;i<n;i++) v|=by[i].c<<(8*i); return Val{v,nullptr}; }
    if(n==1) return by[0];
    { bool z=by[0].e!=nullptr; for(int i=1;i<n&&z;i++) if(by[i].e||by[i].c) z=false; if(z) return zext(by[0],8,8*n); }
    if(by[0].e&&by[0].e->op==E_EXTB&&by[0].e->k==0&&by[0].e->a->w==8*n){ Expr*s=by[0].e->a; bool ok=true; for(int i=1;i<n&&ok;i++){ Val q=extb(Val{0,s},i); if(q.e!=by[i].e||q.c!=by[i].c) ok=false; } if(ok) return Val{0,s}; }
    Expr*ks[8]; for(int i=0;i<n;i++) ks[i]=toE(by[i],8);
    { bool allu=true; for(int i=0;i<n;i++) if(ks[i]->op!=E_UNINIT) allu=false; if(allu) return uninit(8*n); }
    return fin(raw(E_CATB,8*n,0,nullptr,nullptr,nullptr,ks,n)); }
  Val ite(Val c,u8 w,Val x,Val y){ if(!c.e) return c.c?x:y; if(x.e==y.e&&x.c==y.c) return x;
    if(w==1&&!x.e&&!y.e) return x.c? c : notv(c);
    return fin(raw(E_ITE,w,0,c.e,toE(x,w),toE(y,w))); }
  int internTable(const std::vector<u64>&t){ u64 h=t.size(); for(u64 v:t) h=mix(h,v); auto r=tableIdx.equal_range(h); for(auto it=r.first;it!=r.second;++it) if(tables[it->second]==t) return it->second;
    int id=tables.size(); tables.push_back(t); tableIdx.emplace(h,id); return id; }
  Val table(Expr*idx /*8-bit*/,u8 w,const std::vector<u64>&t){ return fin(raw(E_TABLE,w,internTable(t),idx)); }
  int setOf(Expr*e){ if(e->ttid>=0) return e->ttid; Bits b=Bits::none(); for(int i=0;i<256;i++) if(e->tab[i]) b.set(i); return e->ttid=internSet(b); }
  // evaluate under an assignment
  u64 eval(Expr*e,const std::vector<u8>&asg,std::unordered_map<Expr*,u64>&memo){
    if(e->op==E_CONST) return e->k; if(e->op==E_UNINIT) return 0;
    if(e->var>=0&&e->tab) return e->tab[asg[e->var]];
    auto it=memo.find(e); if(it!=memo.end()) return it->second; u64 r;
    if(e->op==E_VAR) r=asg[e->k];
    else if(e->op==E_CATB){ r=0; for(int i=0;i<e->nk;i++) r|=eval(e->kids[i],asg,memo)<<(8*i); }
    else r=evalOne(e,eval(e->a,asg,memo),e->b?eval(e->b,asg,memo):0,e->c?eval(e->c,asg,memo):0);
    memo[e]=r; return r; }
};
