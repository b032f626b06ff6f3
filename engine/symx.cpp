// symx: symbolic executor for LLVM IR with Z3 (see DESIGN.md).
#include "decode.h"
#include "solver.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>
#include <csignal>
#include <sys/prctl.h>
#include <sys/resource.h>

static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

enum Kind : u8 { K_CONST, K_GLOBAL, K_STACK, K_HEAP, K_HARNESS };
struct Obj { int refs; u32 size; u8 kind; bool ro, libglobal, frozen=false; u8* data; u8* sh; Expr** ex; 
  static Obj* make(u32 n,u8 kind,bool uninit){ Obj*o=new Obj(); o->refs=1;o->size=n;o->kind=kind;o->ro=false;o->libglobal=false;o->data=(u8*)calloc(n?n:1,1);o->sh=nullptr;o->ex=nullptr; if(uninit&&n){ o->shadow(); memset(o->sh,1,n);} return o; }
  void shadow(){ if(!sh) sh=(u8*)calloc(size?size:1,1); }
  void exprs(){ shadow(); if(!ex) ex=(Expr**)calloc(size?size:1,sizeof(Expr*)); }
  Obj* clone(){ Obj*o=new Obj(*this); o->refs=1; o->data=(u8*)malloc(size?size:1); memcpy(o->data,data,size); if(sh){ o->sh=(u8*)malloc(size?size:1); memcpy(o->sh,sh,size);} if(ex){ o->ex=(Expr**)malloc((size?size:1)*sizeof(Expr*)); memcpy(o->ex,ex,size*sizeof(Expr*)); } return o; }
  void drop(){ if(--refs==0){ ::free(data); ::free(sh); ::free(ex); delete this; } } };
struct Slot { Obj*o; u32 gen; };
struct Frame { Func*f; u32 pc,base; i32 ret; u8 retn; u32 uid, astart; u64 va; };
struct Jmp { u32 uid, depth, pc; i32 dst; };
struct State { std::vector<Val> regs; std::vector<Frame> fr; std::vector<Slot> objs; std::vector<u32> freeSlots, allocas; std::vector<Jmp> jmps; std::vector<int> dom; std::vector<u8> invMulti; std::vector<Expr*> cons; std::unordered_map<Expr*,u64> known; std::vector<Val> trace; std::vector<std::vector<int>> tvars; std::vector<int> symvars; u64 steps=0; u32 uidc=1; int live=0; u32 forks=0;
  std::vector<std::pair<int,u8>> dummy;
  State()=default;
  State(const State&s)=default;
  void acquire(){ for(auto&s:objs) if(s.o) s.o->refs++; }
  void release(){ for(auto&s:objs) if(s.o) s.o->drop(); objs.clear(); } };

struct TextItem { bool sym; u8 c; Bits set; };
struct Job { std::string name, entry; std::vector<long> params; std::vector<std::vector<TextItem>> texts; u64 maxsteps=50000000; double cap=1e9; bool nogw=false; int samples=3; u64 maxpaths=~0ull; bool hasStepIsViolation=true; std::string descr; };

ExprPool P; Program* G; Solver* S;
std::vector<Obj*> constObjs; u32 NC=0; std::vector<Slot> initObjs; std::vector<std::string> slotName;
std::vector<u8> cov; // per block
std::vector<u8> covChild;
static int fullSet;

struct Stats { u64 paths=0, done=0, violations=0, steps=0, forks=0, infeasible=0, abandoned=0, reach=0, assertsChecked=0, symBranches=0, instCap=0; std::map<std::string,u64> reached; } stt;
FILE* outf=nullptr; std::string outdir; Job* J; double deadline; int jsr=-1, jsw=-1; bool child=false;
std::vector<State*> work; double jobStart;
std::map<std::string,int> vioSeen; int samplesLeft;

static std::string esc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
static std::string hex(const std::vector<u8>&v){ std::string s; char b[4]; for(u8 c:v){ snprintf(b,4,"%02x",c); s+=b; } return s; }

struct Exec {
  State* st; Func*f; Inst* code; Val* R; const Val* C; u32 pc; bool ended; 
  bool restart;
  inline const Val& V(i32 op){ return op>=0? R[op] : C[~op]; }
  void sync(){ Frame&fr=st->fr.back(); f=fr.f; code=f->code.data(); C=f->consts.data(); R=st->regs.data()+fr.base; pc=fr.pc; }
  // ---- solving
  bool slice(Expr*e,std::vector<std::pair<int,int>>&vars,std::vector<Expr*>&cs){ std::set<int> vs; auto addv=[&](Expr*x){ bool ch=false; if(x->var>=0) ch|=vs.insert(x->var).second; else if(x->var==-2) for(int v:*x->sup) ch|=vs.insert(v).second; return ch; };
    if(e){ addv(e); cs.push_back(e);} else for(size_t i=0;i<st->dom.size();i++) vs.insert(i);
    std::vector<char> in(st->cons.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<st->cons.size();i++) if(!in[i]){ Expr*c=st->cons[i]; bool touch=false; if(c->var>=0) touch=vs.count(c->var); else for(int v:*c->sup) if(vs.count(v)){ touch=true; break; } if(touch){ in[i]=1; cs.push_back(c); addv(c); ch=true; } } }
    for(int v:vs) vars.push_back({v,st->dom[v]}); return true; }
  bool inMulti(int v){ return v<(int)st->invMulti.size() && st->invMulti[v]; }
  bool sat(Expr*e){ // e boolean (w=1), feasible with the path condition?
    if(e->op==E_CONST) return e->k;
    if(e->var>=0 && !inMulti(e->var)) return S->single(st->dom[e->var],e);
    std::vector<std::pair<int,int>> vars; std::vector<Expr*> cs; slice(e,vars,cs); return S->multi(vars,cs,nullptr)!=0; }
  void add(Expr*e){ if(e->op==E_CONST) return; if(e->var>=0){ Bits b=P.ttSets[st->dom[e->var]]&P.ttSets[P.setOf(e)]; st->dom[e->var]=P.internSet(b); return; }
    for(Expr*c:st->cons) if(c==e) return; st->cons.push_back(e); for(int v:*e->sup){ if((int)st->invMulti.size()<=v) st->invMulti.resize(v+1,0); st->invMulti[v]=1; } }
  bool model(State*s,std::vector<u8>&asg,Expr*extra){ asg.assign(s->dom.size(),0); for(size_t i=0;i<asg.size();i++){ const Bits&b=P.ttSets[s->dom[i]]; int pick=b.first(); // prefer printable witnesses
        static const char pref[]="a1 x"; for(const char*p=pref;*p;p++) if(b.get((u8)*p)){ pick=*p; break; } asg[i]=pick; }
    if(extra && extra->var>=0 && !inMulti(extra->var)){ Bits b=P.ttSets[s->dom[extra->var]]&P.ttSets[P.setOf(extra)]; asg[extra->var]=b.first(); extra=nullptr; }
    std::vector<std::pair<int,int>> vars; std::vector<Expr*> cs; std::set<int> vs; for(Expr*c:s->cons){ cs.push_back(c); if(c->var>=0) vs.insert(c->var); else for(int v:*c->sup) vs.insert(v);} 
    if(extra&&extra->op!=E_CONST){ cs.push_back(extra); if(extra->var>=0) vs.insert(extra->var); else if(extra->sup) for(int v:*extra->sup) vs.insert(v); }
    if(cs.empty()) return true; for(int v:vs) vars.push_back({v,s->dom[v]}); std::vector<std::pair<int,u8>> m; int r=S->multi(vars,cs,&m); if(r!=1) return false; for(auto&p:m) asg[p.first]=p.second; return true; }
  State* fork(){ State*n=new State(*st); n->acquire(); n->fr.back().pc=pc; n->forks++; stt.forks++; return n; }
  void push(State*n){ work.push_back(n); }
  // constant under the current path?
  bool isConst(const Val&v,u64&out){ if(!v.e){ out=v.c; return true; } Expr*e=v.e; if(e->taint) return false; if(e->var>=0){ const Bits&b=P.ttSets[st->dom[e->var]]; bool first=true; u64 x=0; for(int i=0;i<256;i++) if(b.get(i)){ if(first){ x=e->tab[i]; first=false; } else if(e->tab[i]!=x) { if(!st->known.empty()){ auto it=st->known.find(e); if(it!=st->known.end()){ out=it->second; return true; } } return false; } } out=x; return true; }
    auto it=st->known.find(e); if(it!=st->known.end()){ out=it->second; return true; } return false; }
  // concretise: fork one state per feasible value, re-executing the current instruction. true if constant now.
  bool conc(const Val&v,u64&out,u8 w){ if(isConst(v,out)) return true; Expr*e=v.e; if(e->taint){ fault("uninit","use of uninitialised value"); return false; }
    if(e->var>=0 && !inMulti(e->var)){ const Bits b=P.ttSets[st->dom[e->var]]; std::map<u64,Bits> g; for(int i=0;i<256;i++) if(b.get(i)){ auto it=g.emplace(e->tab[i],Bits::none()).first; it->second.set(i); }
      std::vector<std::pair<u64,Bits>> gv; for(auto&kv:g){ Val q=P.bin(E_EQ,e->w,v,Val{kv.first,nullptr}); if(q.e? S->single(st->dom[e->var],q.e):q.c) gv.push_back(kv); }
      if(gv.empty()){ stt.infeasible++; ended=true; return false; }
      for(size_t i=1;i<gv.size();i++){ State*n=fork(); n->dom[e->var]=P.internSet(gv[i].second); push(n);} st->dom[e->var]=P.internSet(gv[0].second); out=gv[0].first; return true; }
    // several variables: ask the solver for the values one by one
    std::vector<u64> vals; State* save=st; State tmp(*st); std::vector<Expr*> excl; 
    for(int it=0;it<4096;it++){ std::vector<std::pair<int,int>> vars; std::vector<Expr*> cs; slice(e,vars,cs); cs.erase(std::remove(cs.begin(),cs.end(),e),cs.end()); for(auto*x:excl) cs.push_back(x); std::vector<std::pair<int,u8>> m; int r=S->multi(vars,cs,&m); if(r!=1) break; std::vector<u8> asg(st->dom.size(),0); for(auto&p:m) asg[p.first]=p.second; std::unordered_map<Expr*,u64> memo; u64 val=P.eval(e,asg,memo); vals.push_back(val); Val ne=P.notv(P.bin(E_EQ,e->w,v,Val{val,nullptr})); if(!ne.e){ if(!ne.c) break; continue; } excl.push_back(ne.e); }
    (void)save; if(vals.empty()){ stt.infeasible++; ended=true; return false; }
    for(size_t i=1;i<vals.size();i++){ State*n=fork(); n->known[e]=vals[i]; State*o=st; st=n; Val q=P.bin(E_EQ,e->w,v,Val{vals[i],nullptr}); if(q.e) add(q.e); st=o; push(n);} 
    st->known[e]=vals[0]; { Val q=P.bin(E_EQ,e->w,v,Val{vals[0],nullptr}); if(q.e) add(q.e);} out=vals[0]; return true; }
  // decide a boolean; forks if both ways feasible
  bool decide(const Val&v,bool&out){ if(!v.e){ out=v.c&1; return true; } Expr*e=v.e; if(e->taint){ fault("uninit","branch on uninitialised value"); return false; }
    auto it=st->known.find(e); if(it!=st->known.end()){ out=it->second; return true; }
    stt.symBranches++;
    Val ne=P.notv(v); bool t=sat(e), fl= ne.e? sat(ne.e): ne.c; 
    if(t&&fl){ State*n=fork(); State*o=st; st=n; add(ne.e); st=o; 
      n->fr.back().pc=pc; push(n); add(e); out=true; return true; }
    if(t){ out=true; return true; } if(fl){ out=false; return true; } stt.infeasible++; ended=true; return false; }
  // ---- reporting
  std::string record(State*s,const std::vector<u8>&asg,bool withTrace){ std::string r="entry "+J->entry+"\nname "+J->name+"\n"; for(size_t i=0;i<J->params.size();i++) r+="param "+std::to_string(J->params[i])+"\n";
    for(size_t k=0;k<J->texts.size();k++){ std::vector<u8> b; size_t vi=0; for(auto&t:J->texts[k]){ if(!t.sym) b.push_back(t.c); else { u8 c=t.set.first(); if(k<s->tvars.size()&&vi<s->tvars[k].size()) c=asg[s->tvars[k][vi]]; vi++; b.push_back(c);} } r+="text "+hex(b)+"\n"; }
    std::vector<u8> sv; for(int v:s->symvars) sv.push_back(asg[v]); r+="bytes "+hex(sv)+"\n";
    if(withTrace){ u64 h=1469598103934665603ull; std::unordered_map<Expr*,u64> memo; for(auto&v:s->trace){ u64 x=v.e?P.eval(v.e,asg,memo):v.c; h^=x; h*=1099511628211ull; h^=h>>29; } r+="trace "+std::to_string(s->trace.size())+" "+std::to_string(h)+"\n"; }
    return r; }
  void fault(const char*kind,const std::string&msg,Expr*extra=nullptr){ ended=true; 
    std::vector<u8> asg; st->fr.back().pc=pc; if(!model(st,asg,extra)){ stt.infeasible++; return; }
    stt.violations++; std::string where; for(int i=(int)st->fr.size()-1,k=0;i>=0&&k<12;i--,k++){ Frame&fr=st->fr[i]; u32 p=fr.pc; if(i!=(int)st->fr.size()-1&&p>0) p--; u32 ln=p<fr.f->code.size()?fr.f->code[p].line:0; if(k) where+=" < "; where+=fr.f->name+":"+std::to_string(ln); }
    std::string top=st->fr.empty()?"?":st->fr.back().f->name; std::string sig=std::string(kind)+"|"+top+"|"+msg; int&c=vioSeen[sig]; if(c++>=6) return;
    std::string rec=record(st,asg,false);
    fprintf(outf,"{\"t\":\"vio\",\"job\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"rec\":\"%s\"}\n",esc(J->name).c_str(),kind,esc(msg).c_str(),esc(where).c_str(),esc(rec).c_str()); fflush(outf); }
  // ---- memory
  Obj* find(u64 a,u32&slot,i64&off,const char*what){ 
    if(!(a>>62&1)){ if(a<65536) fault("nullderef",std::string(what)+" through a null pointer"); else if(a>>61&1) fault("oob",std::string(what)+" through a function pointer"); else fault("oob",std::string(what)+" through a wild pointer"); return nullptr; }
    slot=(a>>28)&0xfffff; off=(i64)(a&0xfffffff)-(1<<27); u32 gen=(a>>48)&0x3fff;
    if(slot<NC) return constObjs[slot]; u32 s=slot-NC; if(s>=st->objs.size()){ fault("oob",std::string(what)+" through a wild pointer"); return nullptr; }
    Slot&sl=st->objs[s]; if(!sl.o||(sl.gen&0x3fff)!=gen){ fault("uaf",std::string(what)+" to released memory"); return nullptr; } return sl.o; }
  Obj* rd(u64 a,u64 n,i64&off){ u32 slot; Obj*o=find(a,slot,off,"read"); if(!o) return nullptr; if(off<0||(u64)off+n>o->size){ fault("oob","read out of bounds"); return nullptr; } return o; }
  Obj* wr(u64 a,u64 n,i64&off){ u32 slot; Obj*o=find(a,slot,off,"write"); if(!o) return nullptr; if(off<0||(u64)off+n>o->size){ fault("oob","write out of bounds"); return nullptr; }
    if(o->ro||slot<NC){ fault("rostore","write to read-only memory"); return nullptr; } if(o->libglobal&&J->nogw){ fault("globalwrite","the library writes its own variable "+(slot-NC<slotName.size()?slotName[slot-NC]:std::string("?"))); return nullptr; }
    if(o->frozen){ fault("sharedwrite","an operation that only reads writes to the tree it is given"); return nullptr; }
    Slot&sl=st->objs[slot-NC]; if(o->refs>1){ Obj*n2=o->clone(); o->refs--; sl.o=n2; o=n2; } return o; }
  u64 newObj(Obj*o){ u32 s; if(!st->freeSlots.empty()){ s=st->freeSlots.back(); st->freeSlots.pop_back(); st->objs[s].o=o; } else { s=st->objs.size(); st->objs.push_back(Slot{o,0}); } if(s+NC>=(1u<<20)){ fprintf(stderr,"slots exhausted\n"); exit(3);} return Program::slotAddr(s+NC,st->objs[s].gen,0); }
  void freeSlot(u32 s){ Slot&sl=st->objs[s]; sl.o->drop(); sl.o=nullptr; sl.gen++; st->freeSlots.push_back(s); }
  Val loadN(Obj*o,i64 off,u32 n){ if(!o->sh){ u64 v=0; memcpy(&v,o->data+off,n); return Val{v,nullptr}; } bool any=false; for(u32 i=0;i<n;i++) any|=o->sh[off+i]; if(!any){ u64 v=0; memcpy(&v,o->data+off,n); return Val{v,nullptr}; }
    Val b[8]; for(u32 i=0;i<n;i++){ u8 s=o->sh[off+i]; b[i]= s==0? Val{o->data[off+i],nullptr}: s==1? P.uninit(8): Val{0,o->ex[off+i]}; } return P.catb(b,n); }
  void storeN(Obj*o,i64 off,u32 n,const Val&v){ if(!v.e){ memcpy(o->data+off,&v.c,n); if(o->sh) memset(o->sh+off,0,n); return; }
    for(u32 i=0;i<n;i++){ Val b=P.extb(v,i); if(!b.e){ o->data[off+i]=b.c; if(o->sh) o->sh[off+i]=0; } else if(b.e->op==E_UNINIT){ o->shadow(); o->sh[off+i]=1; } else { o->exprs(); o->sh[off+i]=2; o->ex[off+i]=b.e; } } }
  bool addr(const Val&v,u64&out){ return conc(v,out,64); }
  // symbolic table lookup in constant data
  bool tableLoad(const Val&p,u32 n,u8 w,Val&out){ Expr*e=p.e; if(!e||e->taint||e->var<0) return false; const Bits b=P.ttSets[st->dom[e->var]]; Obj*o0=nullptr; std::vector<u64> t(256,0); 
    for(int i=0;i<256;i++) if(b.get(i)){ u64 a=e->tab[i]; if(!(a>>62&1)) return false; u32 slot=(a>>28)&0xfffff; i64 off=(i64)(a&0xfffffff)-(1<<27); Obj*o; if(slot<NC) o=constObjs[slot]; else { u32 s=slot-NC; if(s>=st->objs.size()||!st->objs[s].o||(st->objs[s].gen&0x3fff)!=((a>>48)&0x3fff)) return false; o=st->objs[s].o; } if(o0&&o!=o0) return false; o0=o; if(off<0||(u64)off+n>o->size) return false; if(o->sh) for(u32 k=0;k<n;k++) if(o->sh[off+k]) return false; u64 v=0; memcpy(&v,o->data+off,n); t[i]=v&maskw(w); }
    if(!o0) return false; int vid=e->var; out=P.table(P.var(vid).e,w,t); return true; }
  bool copyMem(u64 d,u64 s,u64 n){ if(!n) return true; i64 so,dof; Obj*so_=rd(s,n,so); if(!so_) return false; so_->refs++; Obj*o=wr(d,n,dof); if(!o){ so_->refs--; if(!so_->refs){ so_->refs=1; so_->drop(); } return false; }
    // note: when source and destination are one object, wr() cloned it because of the extra reference
    memmove(o->data+dof,so_->data+so,n); if(so_->sh){ o->shadow(); memmove(o->sh+dof,so_->sh+so,n); if(so_->ex){ o->exprs(); memmove(o->ex+dof,so_->ex+so,n*sizeof(Expr*)); } } else if(o->sh) memset(o->sh+dof,0,n);
    so_->drop(); return true; }
  // ---- control
  inline void take(u32 ei){ Edge&e=G->edges[ei]; if(e.ccount){ Copy*c=&G->copies[e.cstart]; if(e.ccount==1){ R[c->dst]=V(c->src); } else { Val tmp[64]; if(e.ccount>64){ fprintf(stderr,"many phis\n"); exit(3);} for(u32 i=0;i<e.ccount;i++) tmp[i]=V(c[i].src); for(u32 i=0;i<e.ccount;i++) R[c[i].dst]=tmp[i]; } } pc=e.pc; cov[e.blk]=1; st->steps+=e.ninst; }
  void popFrame(){ Frame&fr=st->fr.back(); while(st->allocas.size()>fr.astart){ freeSlot(st->allocas.back()); st->allocas.pop_back(); } st->regs.resize(fr.base); st->fr.pop_back(); }
  bool call(Func*fn,const std::vector<Val>&args,const CallInfo*ci,i32 ret,u8 retn,const std::vector<Val>&va){ if(!fn->defined){ fprintf(outf,"{\"t\":\"err\",\"msg\":\"call to undefined function %s\"}\n",fn->name.c_str()); fflush(outf); ended=true; return false; }
    if(st->fr.size()>60000){ fault("stack","call depth limit"); return false; }
    if(!st->fr.empty()) st->fr.back().pc=pc+1;
    Frame nf; nf.f=fn; nf.pc=0; nf.base=st->regs.size(); nf.ret=ret; nf.retn=retn; nf.uid=st->uidc++; nf.astart=st->allocas.size(); nf.va=0; st->regs.resize(nf.base+fn->nregs,Val{0,nullptr}); for(u32 i=0;i<args.size()&&i<fn->nargs;i++) st->regs[nf.base+i]=args[i];
    st->fr.push_back(nf); st->steps+=fn->entryN; cov[fn->entryBlk]=1;
    if(fn->vararg){ Obj*o=Obj::make(8*va.size()+8,K_STACK,true); for(size_t i=0;i<va.size();i++) storeN(o,8*i,8,va[i]); u64 a=newObj(o); st->allocas.push_back(((a>>28)&0xfffff)-NC); st->fr.back().va=a; }
    return true; }
  static bool icmpSwap(u8 p){ return false; }
  Val icmp(u8 p,u8 w,const Val&x,const Val&y){ using I=llvm::CmpInst; switch(p){ case I::ICMP_EQ: return P.bin(E_EQ,w,x,y); case I::ICMP_NE: return P.notv(P.bin(E_EQ,w,x,y)); case I::ICMP_ULT: return P.bin(E_ULT,w,x,y); case I::ICMP_ULE: return P.bin(E_ULE,w,x,y); case I::ICMP_UGT: return P.bin(E_ULT,w,y,x); case I::ICMP_UGE: return P.bin(E_ULE,w,y,x); case I::ICMP_SLT: return P.bin(E_SLT,w,x,y); case I::ICMP_SLE: return P.bin(E_SLE,w,x,y); case I::ICMP_SGT: return P.bin(E_SLT,w,y,x); default: return P.bin(E_SLE,w,y,x); } }
  static u64 icmpC(u8 p,u8 w,u64 x,u64 y){ using I=llvm::CmpInst; switch(p){ case I::ICMP_EQ: return x==y; case I::ICMP_NE: return x!=y; case I::ICMP_ULT: return x<y; case I::ICMP_ULE: return x<=y; case I::ICMP_UGT: return x>y; case I::ICMP_UGE: return x>=y; case I::ICMP_SLT: return sx(x,w)<sx(y,w); case I::ICMP_SLE: return sx(x,w)<=sx(y,w); case I::ICMP_SGT: return sx(x,w)>sx(y,w); default: return sx(x,w)>=sx(y,w); } }
  std::string cstr(u64 a){ std::string s; for(int i=0;i<300;i++){ i64 off; u32 slot; bool e=ended; Obj*o=find(a+i,slot,off,"read"); ended=e; if(!o||off<0||off>=o->size) break; if(o->sh&&o->sh[off]) { s+='?'; continue; } if(!o->data[off]) break; s+=(char)o->data[off]; } return s; }
  int newVar(int set){ int id=st->dom.size(); st->dom.push_back(set); return id; }
#include "builtins.inc"
  void run(State*s);
};
#include "interp.inc"
