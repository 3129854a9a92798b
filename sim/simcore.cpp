// simcore: deterministic simulator for an OpenMP shared library.
//
// The library under test is compiled from /repo with compiler instrumentation (every load, store, atomic and
// basic block calls a hook below) and linked with its calls to the OpenMP runtime, the C allocator, stdio, the
// clock, exit and the multi-dimensional integrator renamed to the sim_* functions below.  A team of OpenMP
// threads is a set of coroutines on one operating-system thread; each hook is a possible switch point, and a
// seeded scheduler (or an explicit schedule in replay) takes every decision.  Nothing here reads a real clock,
// a real random source or a real address (other than for look-up).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <math.h>
#include <alloca.h>
#include <link.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <vector>
#include <map>
#include <string>
#include <algorithm>

#define API extern "C" __attribute__((visibility("default")))
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uintptr_t uptr;

// ------------------------------------------------------------------ configuration and shared state
// Both structures are mirrored in engine (python/ctypes): keep the field order.
enum Strategy { ST_SERIAL, ST_REVERSE, ST_RANDNP, ST_RANDP, ST_RR, ST_PCT, ST_STALL, ST_SYNC, ST_BURST, ST_REPLAY };

struct Config {
  i64 seed;
  i64 strategy, sp1, sp2;         // scheduling strategy and its parameters
  i64 nprocs;                     // processors the simulated machine claims to have (default team size)
  i64 pool_mode;                  // 0 fresh workers, 1 reused, 2 reused in another order, 3 mixed
  i64 grant_mode, grant_n;        // 0 full team; 1 at most grant_n; 2 random 1..requested
  i64 budget;                     // steps after which the run counts as not terminating (per API call)
  i64 kill_step;                  // crash of the process at this step (0 none)
  i64 c_fail_n, c_fail_persist;   // the n-th allocation of the library fails (1-based; 0 none)
  i64 np_fail_n, np_fail_persist; // the n-th allocation of array data by the Python layer fails
  i64 clock_mode;                 // 0 normal 1 frozen 2 backwards 3 jumps 4 error 5 far future
  i64 out_fail_after, out_fail_mode; // standard output: after so many bytes (-1 never) 1 error 2 partial write then error 3 error once
  i64 fopen_fail_n;               // n-th fopen fails
  i64 fs_fail_after, fs_fail_mode;// files: after so many bytes (-1 never) 1 error(ENOSPC) 2 partial then error, 3 error once
  i64 suave_n, suave_order, suave_workers, suave_dup, suave_lose, suave_fail; // integrator
  i64 junk_mode;                  // content of uninitialised memory
  i64 quarantine;                 // freed blocks kept per size class before reuse (-1: never reuse)
  i64 race_on, mem_on;            // detectors
  i64 line_buffered;
  i64 stdout_closed;
  i64 max_trace;
  i64 reserved[4];
};

struct FsFile { char name[96]; i64 exists; i64 len; i64 touched; i64 opens; i64 closes; char data[32768]; };
#define NFS 8
#define OUTCAP 262144
#define TRACECAP 262144
#define COVCAP 262144
#define VIOCAP 32768
struct Shared {
  i64 status;          // 0 running, 1 finished, 2 exit() called, 3 crash signal, 4 hang, 5 deadlock, 6 killed by fault, 7 abort(), 8 unsupported
  i64 exit_code, signo, pc, op;
  i64 steps, maxop_steps, switches, decisions, regions, multi_regions, teams_max, sim_ns;
  u64 sched_hash, ev_hash;
  i64 n_trace, trace_lost;
  i64 n_vio;           // number of violations recorded
  i64 vio_len;
  i64 out_len, err_len, out_lost, err_lost;
  i64 f_calloc, f_np, f_out, f_fopen, f_fs, f_clock, f_kill, f_grant, f_stall, f_poolfresh, f_poolreuse, f_suave_reorder, f_suave_dup, f_suave_lose, f_suave_worker, f_suave_fail; // faults fired
  i64 n_calloc, n_free, n_np, n_printf, n_fopen, n_crit, n_barrier, n_access, n_clock, n_suave, n_samples;
  i64 preempt;
  i64 spare[16];
  i64 n_teams; i64 team_log[510];
  char vio[VIOCAP];
  char out[OUTCAP];
  char err[65536];
  u64 trace[TRACECAP];
  FsFile fs[NFS];
  u8 cov[COVCAP];
};

static Config C;
static Shared *H;
static bool active;           // initialised in this process
static i64 cur_op = -1;
static u64 next_event = ~0ull;
static u64 step;              // simulated steps
static u64 call_start;        // step at entry of the current API call

static inline u64 splitmix(u64 &s){ u64 z=(s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static u64 hashmix(u64 a,u64 b){ u64 s=a^(b*0x9e3779b97f4a7c15ull+0x7f4a7c15); return splitmix(s); }
struct Rng { u64 s; void seed(u64 a,u64 b){ s=hashmix(a,b);} u64 next(){return splitmix(s);} u64 below(u64 n){ return n? next()%n:0;} };
static Rng R_sched, R_junk, R_clock, R_suave, R_pool;

// ------------------------------------------------------------------ library image
static uptr lib_lo, lib_hi;           // whole image
static uptr dat_lo, dat_hi;           // writable, non-relro part
static uptr tls_init; static size_t tls_filesz, tls_memsz, tls_align=16;
static uptr main_stack_lo, main_stack_hi;

static void ev(u64 a,u64 b){ if(H) H->ev_hash=hashmix(H->ev_hash^a,b); }

static i64 relpc(const void*pc){ uptr p=(uptr)pc; return (p>=lib_lo&&p<lib_hi)?(i64)(p-lib_lo):-1; }

static int vio_kinds;
static char vio_seen[64][96]; static int n_vio_seen;
static void violation(const char*kind,const char*fmt,...){
  char buf[512]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
  char key[96]; snprintf(key,sizeof key,"%s:%.70s",kind,buf);
  for(int i=0;i<n_vio_seen;i++) if(!strcmp(vio_seen[i],key)) return;
  if(n_vio_seen<64) strcpy(vio_seen[n_vio_seen++],key); else return;
  H->n_vio++; ev(0x51,H->n_vio);
  char line[640]; int n=snprintf(line,sizeof line,"%s|op=%lld|%s\n",kind,(long long)cur_op,buf);
  if(H->vio_len+n<VIOCAP){ memcpy(H->vio+H->vio_len,line,n); H->vio_len+=n; }
}

static FILE *f_out_file,*f_err_file;
static void flush_all();
[[noreturn]] static void die(int status,int code){ // the simulated process ends here
  H->status=status; H->steps=step; H->op=cur_op; _exit(code);
}

// ------------------------------------------------------------------ arena
#define ARENA ((uptr)0x200000000000ull)
#define ARENA_SIZE ((size_t)768<<20)
#define STKBASE ((uptr)0x210000000000ull)
#define STKSZ ((size_t)512<<10)
#define MAXT 264
#define RT 16 // teams are this large at most while the race detector is on
#define NSTK (MAXT+1)
#define TLSBASE ((uptr)0x220000000000ull)
#define TLSSLOT ((size_t)65536)
#define NTLS 2048
static uptr brk_; // bump pointer
static u8 *shadow; // arena shadow: one byte per 8 bytes: 0xff dead, 0 all, 1..7 first n bytes
struct Hdr { u64 magic; u64 size; u64 cap; u64 id; i64 kind; i64 state; i64 pc_alloc, pc_free; i64 op; Hdr*prev,*next; u64 sum; };
#define MAGIC_LIVE 0x4c495645424c4f4bull
#define MAGIC_FREE 0x46524545424c4f4bull
#define RZ 32
enum { K_C=1, K_NP=2, K_SIM=3 };
static Hdr live_head[4]; // lists per kind
static u64 n_live[4], bytes_live[4], alloc_id;
struct FreeQ { std::vector<Hdr*> q; size_t head=0; };
static FreeQ freeq[4][256];
static bool inside_region(); static void mem_reset(uptr a,size_t n); static void race_free(uptr a,size_t n,i64 pc);

static int cls(size_t cap){ if(cap<=1024) return cap/16; int c=65; size_t s=1280; while(s<cap){ s+=s/4; s=(s+15)&~15ull; c++; } return c; }
static size_t clscap(size_t n){ if(n<=1024) return n?((n+15)&~15ull):16; size_t s=1280; while(s<n){ s+=s/4; s=(s+15)&~15ull;} return s; }
static void set_shadow(uptr a,size_t n,size_t cap){ u8*s=shadow+((a-ARENA)>>3); size_t w=n>>3; memset(s,0,w); size_t k=w; if(n&7) s[k++]=n&7; size_t e=(cap+7)>>3; if(e>k) memset(s+k,0xff,e-k); }
static void junk(u8*p,size_t n){
  switch(C.junk_mode){
    case 0: memset(p,0,n); break;
    case 1: memset(p,0xff,n); break; // NaN
    case 2: { u64 *q=(u64*)p; size_t i=0; for(;i<n/8;i++){ double d=(double)(i64)(R_junk.next()>>20)*1e-3; memcpy(q+i,&d,8);} for(i*=8;i<n;i++) p[i]=0x5a; break; }
    default: memset(p,0x41,n);
  }
}
static void *arena_alloc(size_t n,int kind,bool zero,i64 pc){
  size_t cap=clscap(n); int c=cls(cap); Hdr*h=nullptr;
  FreeQ&f=freeq[kind][c>255?255:c];
  if(C.quarantine>=0 && kind==K_C && f.q.size()-f.head>(size_t)C.quarantine){
    if(f.q[f.head]->cap>=cap){ h=f.q[f.head++]; if(f.head>4096){ f.q.erase(f.q.begin(),f.q.begin()+f.head); f.head=0; } }
  }
  if(!h){
    uptr a=(brk_+15)&~15ull; size_t tot=sizeof(Hdr)+RZ+cap+RZ;
    if(a+tot>ARENA+ARENA_SIZE) return nullptr;
    brk_=a+tot; h=(Hdr*)a; h->cap=cap;
  }
  u8*p=(u8*)h+sizeof(Hdr)+RZ;
  h->magic=MAGIC_LIVE; h->size=n; h->id=++alloc_id; h->kind=kind; h->state=1; h->pc_alloc=pc; h->pc_free=-1; h->op=cur_op; h->sum=0;
  memset(p-RZ,0xfa,RZ); memset(p+n,0xfb,h->cap-n+RZ);
  if(zero) memset(p,0,n); else junk(p,n);
  set_shadow((uptr)p,n,h->cap);
  Hdr*L=&live_head[kind]; h->next=L->next; h->prev=L; if(L->next) L->next->prev=h; L->next=h;
  n_live[kind]++; bytes_live[kind]+=n;
  mem_reset((uptr)p,h->cap);
  return p;
}
static Hdr*hdr_of(void*p){
  uptr a=(uptr)p; if(a<ARENA+sizeof(Hdr)+RZ||a>=brk_||(a&15)) return nullptr;
  Hdr*h=(Hdr*)(a-RZ-sizeof(Hdr)); if(h->magic!=MAGIC_LIVE&&h->magic!=MAGIC_FREE) return nullptr; return h;
}
static void check_rz(Hdr*h,const char*when){
  u8*p=(u8*)h+sizeof(Hdr)+RZ; bool bad=false; i64 off=0;
  for(int i=0;i<RZ;i++) if(p[i-RZ]!=0xfa){ bad=true; off=i-RZ; }
  for(size_t i=h->size;i<h->cap+RZ;i++) if(p[i]!=0xfb){ bad=true; off=(i64)i; break; }
  if(bad) violation("mem","bytes next to a block were overwritten (offset %lld of a %s block of %llu bytes, seen at %s) alloc_pc=%lld",(long long)off,h->kind==K_C?"library":"caller",(unsigned long long)h->size,when,(long long)h->pc_alloc);
}
static void arena_free(void*p,int kind,i64 pc){
  Hdr*h=hdr_of(p);
  if(!h){ violation("free","release of an address that is not a block (pc=%lld)",(long long)pc); return; }
  if(h->magic==MAGIC_FREE){ violation("free","block released twice (size %llu, alloc_pc=%lld first_free_pc=%lld second_free_pc=%lld)",(unsigned long long)h->size,(long long)h->pc_alloc,(long long)h->pc_free,(long long)pc); return; }
  if(h->kind!=kind){ violation("free","%s released a block that belongs to %s (pc=%lld)",kind==K_C?"the library":"the caller",h->kind==K_C?"the library":"the caller",(long long)pc); if(kind==K_C) return; }
  check_rz(h,"release");
  if(kind==K_C) race_free((uptr)p,h->size,pc);
  h->magic=MAGIC_FREE; h->state=0; h->pc_free=pc;
  h->prev->next=h->next; if(h->next) h->next->prev=h->prev;
  n_live[h->kind]--; bytes_live[h->kind]-=h->size;
  memset(shadow+(((uptr)p-ARENA)>>3),0xff,(h->cap+7)>>3);
  memset(p,0xdd,h->size); // a stale read yields a conspicuous value
  int c=cls(h->cap); freeq[h->kind][c>255?255:c].q.push_back(h);
}

// ------------------------------------------------------------------ threads
struct Lock; struct Team;
struct VC { u32 c[RT]; }; // clocks matter only while the race detector is on (teams of at most RT threads)
static void vc_join(VC&a,const VC&b){ for(int i=0;i<RT;i++) if(b.c[i]>a.c[i]) a.c[i]=b.c[i]; }
enum TState { T_READY, T_BLOCKED, T_DONE };
struct Thread {
  int id; TState st; void*sp; uptr stk_lo,stk_hi; uptr tls; Team*team; VC vc;
  u64 ws; // work-share counter
  const void*wait; const char*why;
  i64 loop_next; i64 static_trip; struct WS*cur_ws; u64 stalled_until; u64 prio; bool ordered_held; int nest; i64 ordered_iter;
  void (*fn)(void*); void*arg;
  i64 last_pc;
};
struct WS { u64 idx; int left; bool init; i64 next,end,incr,chunk; int sched; u64 unext,uend,uincr,uchunk; bool up; int single_owner; void*copy; int sec_next,sec_count; i64 ord_next; VC vc; i64 start; };
struct Team { int n; Thread th[MAXT]; int bar_count; u64 bar_gen; VC bar_vc; std::map<u64,WS> ws; int done; int level; };
struct Lock { int owner; u64 depth; VC vc; };
static std::map<const void*,Lock> locks;
static std::map<uptr,VC> atomvc; static VC fence_vc;
static Team *team; static Thread *cur; static Thread seq; // seq: outside regions
static void *main_sp;
static u32 region_stamp;
static int caller; // calling thread of the program
struct CallerCtx { bool dyn=false;  bool used; uptr tls; i64 nthreads; std::vector<uptr> pool; };
static CallerCtx callers[8];
static int tls_used;
static bool inside_region(){ return team && team->n>1; }

static uptr new_tls(){
  if(tls_used>=NTLS){ violation("sim","out of TLS blocks"); tls_used=0; }
  uptr a=TLSBASE+TLSSLOT*(uptr)(tls_used++)+64;
  memset((void*)(a-64),0,tls_memsz+128); memcpy((void*)a,(void*)tls_init,tls_filesz); return a;
}
struct tls_index { unsigned long mod, off; };
API void *sim_tls_get_addr(tls_index*ti){
  uptr b; if(team) b=cur->tls; else { CallerCtx&k=callers[caller]; if(!k.used){ k.used=true; k.tls=new_tls(); k.nthreads=0; } b=k.tls; }
  return (void*)(b+ti->off);
}

extern "C" void sim_switch(void**from,void*to);
asm(R"(
.text
.type sim_switch,@function
sim_switch:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp); fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp); fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
)");


// ------------------------------------------------------------------ scheduler
// A schedule is the list of decisions (step<<8 | forced<<7 | thread): at a hook the running thread is preempted
// (forced=0), or it cannot go on (forced=1).  Steps count hooks only, so that a schedule stays meaningful when
// entries are removed from it during minimisation.
static u64 next_switch=~0ull; static std::vector<u64> replay_list; static size_t replay_pos;
static std::vector<u64> pct_points; static u64 pct_low; static u64 burst_until; static bool burst_on;
static int stall_tid; static u64 stall_end;
static void update_next(){
  u64 n=next_switch; if(C.kill_step>0 && (u64)C.kill_step<n) n=C.kill_step;
  u64 b=call_start+(u64)C.budget; if(b<n) n=b; next_event=n;
}
static void plan_switch(){ // when to preempt next
  next_switch=~0ull;
  if(inside_region()) switch(C.strategy){
    case ST_RANDP: next_switch=step+1+R_sched.below(2*C.sp1); break;
    case ST_RR: next_switch=step+C.sp1; break;
    case ST_PCT: for(u64 p:pct_points) if(p>step && p<next_switch) next_switch=p; break;
    case ST_STALL: next_switch=step+1+R_sched.below(2*C.sp1); break;
    case ST_BURST:
      if(step>=burst_until){ burst_on=!burst_on; burst_until=step+1+R_sched.below(burst_on?C.sp2:C.sp2*20); }
      next_switch=burst_on?std::min(burst_until,step+1+R_sched.below(2*C.sp1)):burst_until; break;
    case ST_REPLAY:
      while(replay_pos<replay_list.size()){ u64 e=replay_list[replay_pos],es=e>>8; bool f=e&128; if(es<step||(es==step&&!f)) replay_pos++; else break; }
      if(replay_pos<replay_list.size() && !(replay_list[replay_pos]&128)) next_switch=replay_list[replay_pos]>>8;
      break;
    default: break;
  }
  update_next();
}
static int pick(bool forced){ // choose among the ready threads; -1 if there is none
  int ready[MAXT],n=0; for(int i=0;i<team->n;i++) if(team->th[i].st==T_READY) ready[n++]=i;
  if(!n) return -1;
  int c=cur?cur->id:-1; bool cready=cur&&cur->st==T_READY;
  switch(C.strategy){
    case ST_SERIAL: return cready?c:ready[0];
    case ST_REVERSE: return cready?c:ready[n-1];
    case ST_RR: for(int i=0;i<n;i++) if(ready[i]>c) return ready[i]; return ready[0];
    case ST_PCT: { int b=ready[0]; for(int i=1;i<n;i++) if(team->th[ready[i]].prio>team->th[b].prio) b=ready[i]; return b; }
    case ST_STALL: { if(step<stall_end && n>1){ int m=0; for(int i=0;i<n;i++) if(ready[i]!=stall_tid) ready[m++]=ready[i]; if(m<n){ H->f_stall++; n=m; } } return ready[R_sched.below(n)]; }
    case ST_REPLAY:
      if(replay_pos<replay_list.size()){ u64 e=replay_list[replay_pos]; bool f=e&128; if((e>>8)==step && f==forced){ int t=e&127; replay_pos++; for(int i=0;i<n;i++) if(ready[i]==t) return t; } }
      return cready?c:ready[0];
    default: return ready[R_sched.below(n)];
  }
}
static void decide(bool forced){
  H->decisions++;
  if(C.strategy==ST_PCT && !forced) for(u64&p:pct_points) if(p && p<=step){ p=0; cur->prio=--pct_low; }
  if(team->done==team->n){ void*dummy; cur=nullptr; sim_switch(&dummy,main_sp); }
  int t=pick(forced);
  if(t<0){
    char b[300]; int k=0; for(int i=0;i<team->n&&k<250;i++) k+=snprintf(b+k,sizeof b-k," thread %d %s",i,team->th[i].st==T_DONE?"finished":team->th[i].why?team->th[i].why:"?");
    violation("deadlock","no thread can run:%s",b); die(5,105);
  }
  Thread*to=&team->th[t]; Thread*from=cur;
  if(to==from){ plan_switch(); return; }
  H->switches++; if(!forced) H->preempt++;
  u64 e=(step<<8)|(forced?128:0)|(u64)t;
  H->sched_hash=hashmix(H->sched_hash,e);
  if(H->n_trace<TRACECAP) H->trace[H->n_trace++]=e; else H->trace_lost++;
  cur=to; plan_switch();
  if(from) sim_switch(&from->sp,to->sp); else sim_switch(&main_sp,to->sp);
}
static void slow_tick(){
  if(C.kill_step>0 && step>=(u64)C.kill_step){ H->f_kill++; die(6,106); }
  if(step>=call_start+(u64)C.budget){ violation("hang","no end within the step limit"); die(4,104); }
  if(step>=next_switch && inside_region()) decide(false); else plan_switch();
}
static inline void tick(){ if(__builtin_expect(++step>=next_event,0)) slow_tick(); }
static void syncpoint(){ // a synchronisation or I/O point
  u64 sw=H->switches; tick(); if(H->switches!=sw||!inside_region()) return;
  switch(C.strategy){
    case ST_SYNC: decide(false); break;
    case ST_RANDNP: case ST_BURST: case ST_RANDP: if(R_sched.below(3)==0) decide(false); break;
    default: break;
  }
}
static void block(const void*w,const char*why){ cur->st=T_BLOCKED; cur->wait=w; cur->why=why; decide(true); }
static void wake(const void*w){ for(int i=0;i<team->n;i++) if(team->th[i].st==T_BLOCKED && team->th[i].wait==w) team->th[i].st=T_READY; }
static void thread_main(){
  Thread*t=cur; t->fn(t->arg);
  t->st=T_DONE; team->done++;
  decide(true);
  __builtin_trap();
}

// ------------------------------------------------------------------ data races
// Happens-before detector (vector clocks) over 8-byte words with byte masks; active inside regions only.
struct Cell { u32 stamp, wclk; u8 wtid,wmask,watom,ratom; u32 rclk[RT]; u8 rmask[RT]; i64 wpc; u32 rpc[RT]; };
struct Zone { uptr lo,hi; Cell*cells; };
static Zone zones[8]; static int nzones;
static void add_zone(uptr lo,uptr hi){
  lo&=~7ull; size_t n=(hi-lo)/8+2; void*m=mmap(nullptr,n*sizeof(Cell),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(m==MAP_FAILED) return; zones[nzones++]={lo,hi,(Cell*)m};
}
static inline Cell*cell_of(uptr a){ for(int i=0;i<nzones;i++) if(a>=zones[i].lo&&a<zones[i].hi) return zones[i].cells+((a-zones[i].lo)>>3); return nullptr; }
static void where_txt(uptr a,char*b,size_t n){
  if(a>=ARENA&&a<ARENA+ARENA_SIZE) snprintf(b,n,"heap");
  else if(a>=lib_lo&&a<lib_hi) snprintf(b,n,"data=%lld",(long long)(a-lib_lo));
  else if(a>=TLSBASE&&a<TLSBASE+TLSSLOT*NTLS) snprintf(b,n,"per-thread+%lld",(long long)((a-TLSBASE)%TLSSLOT-64));
  else if(a>=STKBASE&&a<STKBASE+STKSZ*NSTK) snprintf(b,n,"stack of thread %d",(int)((a-STKBASE)/STKSZ));
  else if(a>=main_stack_lo&&a<main_stack_hi) snprintf(b,n,"stack of the caller");
  else snprintf(b,n,"elsewhere");
}
static void race_report(uptr a,const char*k1,i64 pc1,const char*k2,i64 pc2){
  char w[64]; where_txt(a,w,sizeof w);
  violation("race","%s pc=%lld and %s pc=%lld of two threads on %s without synchronisation",k1,(long long)pc1,k2,(long long)pc2,w);
}
static void race_word(Cell*c,uptr a,u8 mask,bool wr,bool atom,i64 pc){
  Thread*t=cur; int id=t->id;
  if(c->stamp!=region_stamp){ memset(c,0,sizeof *c); c->stamp=region_stamp; }
  if(c->wmask&mask && c->wtid!=id && c->wclk>t->vc.c[c->wtid] && !(atom&&c->watom)) race_report(a,"write",c->wpc,wr?"write":"read",pc);
  if(wr){
    for(int i=0;i<team->n;i++) if(i!=id && c->rmask[i]&mask && c->rclk[i]>t->vc.c[i] && !(atom&&(c->ratom))) race_report(a,"read",(i64)c->rpc[i],"write",pc);
    if(c->wtid!=id||c->wclk!=t->vc.c[id]) c->wmask=0;
    c->wtid=id; c->wclk=t->vc.c[id]; c->wmask|=mask; c->watom=atom; c->wpc=pc;
    if(!atom) c->ratom=0;
  } else {
    if(c->rclk[id]!=t->vc.c[id]) c->rmask[id]=0;
    c->rclk[id]=t->vc.c[id]; c->rmask[id]|=mask; c->ratom=atom; c->rpc[id]=(u32)pc;
  }
}
static void race_access(uptr a,size_t n,bool wr,bool atom,i64 pc){
  uptr e=a+n;
  while(a<e){ uptr w=a&~7ull; int o=a-w; int l=(int)std::min<size_t>(8-o,e-a); Cell*c=cell_of(w); if(!c) return; race_word(c,a,(u8)(((1u<<l)-1)<<o),wr,atom,pc); a=w+8; }
}
static void mem_reset(uptr a,size_t n){ if(!inside_region()||!C.race_on) return; for(uptr w=a&~7ull;w<a+n;w+=8){ Cell*c=cell_of(w); if(c) c->stamp=0; } }
static void race_free(uptr a,size_t n,i64 pc){ if(inside_region()&&C.race_on&&cur) race_access(a,n,true,false,pc); }

// ------------------------------------------------------------------ memory checks
static void bad_heap(uptr a,size_t n,bool wr,i64 pc){
  Hdr*best=nullptr; const char*rel="outside any block"; i64 off=0;
  // nearest block: walk back over 16-byte positions
  for(uptr p=(a&~15ull);p>ARENA&&p+(1<<20)>a;p-=16){ Hdr*h=hdr_of((void*)p); if(h&&(h->magic==MAGIC_LIVE||h->magic==MAGIC_FREE)&&h->cap&&h->cap<ARENA_SIZE){ best=h; off=(i64)(a-p); break; } }
  if(best){
    if(best->magic==MAGIC_FREE&&(u64)off<best->size) rel="inside a released block";
    else if(best->magic==MAGIC_FREE) rel="outside a released block"; else rel="outside a live block";
    violation("mem","%s of %llu bytes %s (offset %lld, block of %llu bytes of %s) pc=%lld alloc_pc=%lld free_pc=%lld",wr?"write":"read",(unsigned long long)n,rel,(long long)off,(unsigned long long)best->size,best->kind==K_C?"the library":best->kind==K_NP?"the caller":"the integrator",(long long)pc,(long long)best->pc_alloc,(long long)best->pc_free);
  } else violation("mem","%s of %llu bytes outside any block pc=%lld",wr?"write":"read",(unsigned long long)n,(long long)pc);
}
static u8 *kasan_on; // non-null when the instrumentation maintains stack and global redzones
static inline bool heap_bad(uptr a,size_t n){
  uptr e=a+n;
  for(uptr w=a&~7ull;w<e;w+=8){ u8 s=shadow[(w-ARENA)>>3]; if(s){ if(s==0xff) return true; uptr last=std::min(e,w+8); if(last-w>s) return true; } }
  return false;
}
#define KOFF ((uptr)0x7fff8000)
static inline bool kas_bad(uptr a,size_t n){
  uptr e=a+n;
  for(uptr w=a&~7ull;w<e;w+=8){ signed char s=*(signed char*)((w>>3)+KOFF); if(s){ if(s<0) return true; uptr last=std::min(e,w+8); if((int)(last-w)>s) return true; } }
  return false;
}
static void access(uptr a,size_t n,bool wr,bool atom,const void*ra){
  if(!active) return;
  H->n_access++;
  tick();
  Thread*t=team?cur:nullptr;
  uptr lo=t?t->stk_lo:main_stack_lo, hi=t?t->stk_hi:main_stack_hi;
  bool own=a>=lo&&a<hi;
  if(C.mem_on){
    if(a>=ARENA&&a<ARENA+ARENA_SIZE){ if(__builtin_expect(heap_bad(a,n),0)) bad_heap(a,n,wr,relpc(ra)); }
    else if(kasan_on){
      if(own||(a>=lib_lo&&a<lib_hi)||(a>=STKBASE&&a<STKBASE+STKSZ*NSTK)||(a>=main_stack_lo&&a<main_stack_hi)){
        if(__builtin_expect(kas_bad(a,n),0)){ char w[64]; where_txt(a,w,sizeof w); violation("mem","%s of %llu bytes outside a variable on %s pc=%lld",wr?"write":"read",(unsigned long long)n,own?"its stack":w,(long long)relpc(ra)); }
      }
    }
    if(wr&&!own&&!(a>=ARENA&&a<ARENA+ARENA_SIZE)&&!(a>=lib_lo&&a<lib_hi)&&!(a>=TLSBASE&&a<TLSBASE+TLSSLOT*NTLS)&&!(a>=STKBASE&&a<STKBASE+STKSZ*NSTK)&&!(a>=main_stack_lo&&a<main_stack_hi))
      violation("mem","write of %llu bytes to memory the library was never given pc=%lld",(unsigned long long)n,(long long)relpc(ra));
  }
  if(own||!t||team->n<2||!C.race_on) return;
  race_access(a,n,wr,atom,relpc(ra));
}
#define RA __builtin_return_address(0)

// ------------------------------------------------------------------ hooks: -fsanitize=thread
API void __tsan_init(){}
#define TS(n) API void __tsan_read##n(void*p){access((uptr)p,n,false,false,RA);} API void __tsan_write##n(void*p){access((uptr)p,n,true,false,RA);} \
  API void __tsan_unaligned_read##n(void*p){access((uptr)p,n,false,false,RA);} API void __tsan_unaligned_write##n(void*p){access((uptr)p,n,true,false,RA);} \
  API void __tsan_volatile_read##n(void*p){access((uptr)p,n,false,false,RA);} API void __tsan_volatile_write##n(void*p){access((uptr)p,n,true,false,RA);}
TS(1) TS(2) TS(4) TS(8) TS(16)
API void __tsan_read_range(void*p,size_t n){access((uptr)p,n,false,false,RA);} API void __tsan_write_range(void*p,size_t n){access((uptr)p,n,true,false,RA);}
API void __tsan_func_entry(void*){} API void __tsan_func_exit(){} API void __tsan_vptr_update(void**,void*){} API void __tsan_vptr_read(void**){}
static void at_pre(void*p,size_t n,bool wr,int mo,const void*ra){ // one atomic access; order: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
  if(!active) return;
  access((uptr)p,n,wr,true,ra);
  if(inside_region()&&cur&&mo>0){ VC&v=atomvc[(uptr)p]; if(mo!=3) vc_join(cur->vc,v); if(mo>=3){ vc_join(v,cur->vc); cur->vc.c[cur->id%RT]++; } }
}
#define AT(T,B) \
API T __tsan_atomic##B##_load(const volatile T*p,int mo){ at_pre((void*)p,sizeof(T),false,mo,RA); return *p; } \
API void __tsan_atomic##B##_store(volatile T*p,T v,int mo){ at_pre((void*)p,sizeof(T),true,mo,RA); *p=v; } \
API T __tsan_atomic##B##_exchange(volatile T*p,T v,int mo){ at_pre((void*)p,sizeof(T),true,mo,RA); T o=*p; *p=v; return o; } \
API T __tsan_atomic##B##_fetch_add(volatile T*p,T v,int mo){ at_pre((void*)p,sizeof(T),true,mo,RA); T o=*p; *p=o+v; return o; } \
API T __tsan_atomic##B##_fetch_sub(volatile T*p,T v,int mo){ at_pre((void*)p,sizeof(T),true,mo,RA); T o=*p; *p=o-v; return o; } \
API T __tsan_atomic##B##_fetch_and(volatile T*p,T v,int mo){ at_pre((void*)p,sizeof(T),true,mo,RA); T o=*p; *p=o&v; return o; } \
API T __tsan_atomic##B##_fetch_or(volatile T*p,T v,int mo){ at_pre((void*)p,sizeof(T),true,mo,RA); T o=*p; *p=o|v; return o; } \
API T __tsan_atomic##B##_fetch_xor(volatile T*p,T v,int mo){ at_pre((void*)p,sizeof(T),true,mo,RA); T o=*p; *p=o^v; return o; } \
API T __tsan_atomic##B##_fetch_nand(volatile T*p,T v,int mo){ at_pre((void*)p,sizeof(T),true,mo,RA); T o=*p; *p=~(o&v); return o; } \
API int __tsan_atomic##B##_compare_exchange_strong(volatile T*p,T*e,T v,int mo,int){ at_pre((void*)p,sizeof(T),true,mo,RA); if(*p==*e){*p=v;return 1;} *e=*p; return 0; } \
API int __tsan_atomic##B##_compare_exchange_weak(volatile T*p,T*e,T v,int mo,int){ at_pre((void*)p,sizeof(T),true,mo,RA); if(*p==*e){*p=v;return 1;} *e=*p; return 0; } \
API T __tsan_atomic##B##_compare_exchange_val(volatile T*p,T e,T v,int mo,int){ at_pre((void*)p,sizeof(T),true,mo,RA); T o=*p; if(o==e)*p=v; return o; }
AT(u8,8) AT(uint16_t,16) AT(u32,32) AT(u64,64) 
typedef unsigned __int128 u128; AT(u128,128)
API void __tsan_atomic_thread_fence(int){ if(active&&inside_region()&&cur){ tick(); vc_join(cur->vc,fence_vc); vc_join(fence_vc,cur->vc); cur->vc.c[cur->id%RT]++; } }
API void __tsan_atomic_signal_fence(int){}

// ------------------------------------------------------------------ hooks: -fsanitize=kernel-address
#define KA(n) API void __asan_load##n##_noabort(uptr p){access(p,n,false,false,RA);} API void __asan_store##n##_noabort(uptr p){access(p,n,true,false,RA);} \
  API void __asan_load##n(uptr p){access(p,n,false,false,RA);} API void __asan_store##n(uptr p){access(p,n,true,false,RA);}
KA(1) KA(2) KA(4) KA(8) KA(16)
API void __asan_loadN_noabort(uptr p,size_t n){access(p,n,false,false,RA);} API void __asan_storeN_noabort(uptr p,size_t n){access(p,n,true,false,RA);}
API void __asan_loadN(uptr p,size_t n){access(p,n,false,false,RA);} API void __asan_storeN(uptr p,size_t n){access(p,n,true,false,RA);}
struct AGlobal { uptr beg,size,size_rz; const char*name,*mod; uptr dyn,loc,odr; };
static std::vector<AGlobal> *pend_globals;
API void __asan_register_globals(AGlobal*g,uptr n){ if(!pend_globals) pend_globals=new std::vector<AGlobal>; for(uptr i=0;i<n;i++) pend_globals->push_back(g[i]); }
API void __asan_unregister_globals(AGlobal*,uptr){}
API void __asan_before_dynamic_init(const char*){} API void __asan_after_dynamic_init(){}
API void __asan_handle_no_return(){ if(!active||!kasan_on) return; uptr lo=team?cur->stk_lo:(uptr)__builtin_frame_address(0)-64, hi=team?cur->stk_hi:main_stack_hi; memset((void*)((lo>>3)+KOFF),0,(hi-lo)>>3); }
API void __asan_alloca_poison(uptr a,size_t n){ if(!active||!kasan_on) return; uptr al=(n+31)&~31ull; memset((void*)(((a-32)>>3)+KOFF),0xca,4); memset((void*)(((a+al)>>3)+KOFF),0xcb,4); u8*s=(u8*)((a>>3)+KOFF); memset(s,0,n>>3); size_t k=n>>3; if(n&7) s[k++]=n&7; for(;k<al>>3;k++) s[k]=0xcb; }
API void __asan_allocas_unpoison(uptr top,uptr bot){ if(!active||!kasan_on||!top||top>bot) return; memset((void*)((top>>3)+KOFF),0,(bot-top)>>3); }
#define KS(v) API void __asan_set_shadow_##v(uptr a,size_t n){ memset((void*)a,0x##v,n); }
KS(00) KS(f1) KS(f2) KS(f3) KS(f5) KS(f8)
API void __asan_poison_stack_memory(uptr a,size_t n){ memset((void*)((a>>3)+KOFF),0xf8,n>>3); }
API void __asan_unpoison_stack_memory(uptr a,size_t n){ u8*s=(u8*)((a>>3)+KOFF); memset(s,0,n>>3); if(n&7) s[n>>3]=n&7; }

// ------------------------------------------------------------------ hook: -fsanitize-coverage=trace-pc
API void __sanitizer_cov_trace_pc(){
  if(!active) return;
  uptr p=(uptr)RA; if(p>=lib_lo&&p<lib_hi){ size_t i=(p-lib_lo)>>2; if(i<COVCAP) H->cov[i]=1; if(team) cur->last_pc=p-lib_lo; else seq.last_pc=p-lib_lo; }
  tick();
}

// ------------------------------------------------------------------ OpenMP
static i64 icv_nthreads(){ CallerCtx&k=callers[caller]; if(!k.used){ k.used=true; k.tls=new_tls(); k.nthreads=0; } return k.nthreads>0?k.nthreads:C.nprocs; }
static void sync_fork(){ }
static int grant(unsigned req){
  i64 n=req?(i64)req:icv_nthreads(); if(n<1) n=1; if(n>MAXT) n=MAXT; if(C.race_on&&n>RT) n=RT;
  i64 g=n;
  if(C.grant_mode==1) g=std::min(n,std::max<i64>(1,C.grant_n));
  else if(C.grant_mode==2) g=1+(i64)(hashmix(C.seed^0x6772,H->regions)%(u64)n);
  if(callers[caller].dyn) g=std::min(g,1+(i64)(hashmix(C.seed^0x6479,H->regions)%(u64)std::max<i64>(1,std::min(n,C.nprocs)))); // the library lets the runtime adjust its teams to the load
  if(g<n) H->f_grant++;
  return (int)g;
}
static void run_team(void(*fn)(void*),void*data,int n){
  Team*T=new Team(); T->n=n; T->bar_count=0; T->bar_gen=0; T->done=0; T->level=1; memset(&T->bar_vc,0,sizeof(VC));
  CallerCtx&k=callers[caller]; if(!k.used){ k.used=true; k.tls=new_tls(); }
  H->regions++; if(H->n_teams<510) H->team_log[H->n_teams++]=n; if(n>1) H->multi_regions++; if(n>H->teams_max) H->teams_max=n;
  std::vector<int> perm; for(int i=0;i<n-1;i++) perm.push_back(i);
  if(C.pool_mode>=2) for(int i=(int)perm.size()-1;i>0;i--) std::swap(perm[i],perm[R_pool.below(i+1)]);
  for(int i=0;i<n;i++){
    Thread&t=T->th[i]; memset((void*)&t,0,sizeof t); t.id=i; t.st=T_READY; t.team=T; t.vc.c[i%RT]=1; t.stalled_until=0;
    t.stk_lo=STKBASE+STKSZ*i+4096; t.stk_hi=STKBASE+STKSZ*(i+1); t.last_pc=-1;
    if(i==0) t.tls=k.tls;
    else {
      bool fresh=C.pool_mode==0||(C.pool_mode==3&&R_pool.below(2)==0); int slot=perm[i-1];
      while((int)k.pool.size()<=slot) k.pool.push_back(0);
      if(fresh||!k.pool[slot]){ if(tls_used<NTLS-1||!k.pool[slot]) { k.pool[slot]=new_tls(); H->f_poolfresh++; } } else H->f_poolreuse++;
      t.tls=k.pool[slot];
    }
    t.fn=fn; t.arg=data;
    u64*sp=(u64*)(t.stk_hi-64);
    *--sp=0; *--sp=(u64)(void*)thread_main; for(int r=0;r<6;r++) *--sp=0; --sp; u32 mx; uint16_t cw; asm volatile("stmxcsr %0":"=m"(mx)); asm volatile("fnstcw %0":"=m"(cw)); ((u32*)sp)[0]=mx; ((u32*)sp)[1]=cw;
    t.sp=sp;
  }
  region_stamp++; fence_vc=VC(); atomvc.clear(); for(auto&l:locks) memset(&l.second.vc,0,sizeof(VC));
  if(C.strategy==ST_PCT){ pct_low=1000; for(int i=0;i<n;i++) T->th[i].prio=2000+R_sched.below(1000000); pct_points.clear(); for(int i=0;i<C.sp1;i++) pct_points.push_back(step+1+R_sched.below(std::max<i64>(C.sp2,2))); }
  if(C.strategy==ST_STALL){ stall_tid=(int)R_sched.below(n); stall_end=step+(u64)C.sp2; }
  team=T; cur=nullptr;
  if(n>1) plan_switch();
  decide(true);
  // back here when every thread has finished
  team=nullptr; cur=nullptr; delete T; next_switch=~0ull; update_next();
}
static void parallel(void(*fn)(void*),void*data,unsigned req){
  if(!active){ fn(data); return; }
  if(team){ // nested regions run on a team of one
    Thread*c=cur; c->nest++; Team*T=team; (void)T; fn(data); c->nest--; return;
  }
  tick(); run_team(fn,data,grant(req)); tick();
}
static int tid(){ return team?(cur->nest?0:cur->id):0; }
static int nth(){ return team?(cur->nest?1:team->n):1; }
static bool solo(){ return nth()==1; }

API void sim_GOMP_parallel(void(*fn)(void*),void*data,unsigned n,unsigned){ parallel(fn,data,n); }
API int sim_omp_get_thread_num(){ return tid(); }
API int sim_omp_get_num_threads(){ return nth(); }
API int sim_omp_get_max_threads(){ return (int)icv_nthreads(); }
API void sim_omp_set_num_threads(int n){ icv_nthreads(); if(n>0) callers[caller].nthreads=n; }
API int sim_omp_get_num_procs(){ return (int)C.nprocs; }
API int sim_omp_in_parallel(){ return team&&team->n>1; }
API void sim_omp_set_dynamic(int on){ icv_nthreads(); callers[caller].dyn=on!=0; } API int sim_omp_get_dynamic(){ return callers[caller].dyn; } API void sim_omp_set_nested(int){} API int sim_omp_get_nested(){ return 0; }
static int run_sched=2,run_chunk=1;
API void sim_omp_set_schedule(int k,int c){ run_sched=k; run_chunk=c; } API void sim_omp_get_schedule(int*k,int*c){ *k=run_sched; *c=run_chunk; }
API int sim_omp_get_thread_limit(){ return C.race_on?RT:MAXT; } API void sim_omp_set_max_active_levels(int){} API int sim_omp_get_max_active_levels(){ return 1; }
API int sim_omp_get_level(){ return team?1+cur->nest:0; } API int sim_omp_get_active_level(){ return team&&team->n>1; }
API int sim_omp_get_ancestor_thread_num(int l){ return l==0?0:tid(); } API int sim_omp_get_team_size(int l){ return l==0?1:nth(); }
API int sim_omp_in_final(){ return 0; } API int sim_omp_get_cancellation(){ return 0; } API int sim_omp_get_proc_bind(){ return 0; }
API double sim_omp_get_wtick(){ return 1e-9; }

static void barrier(){
  if(!active||!team||solo()) return;
  H->n_barrier++; syncpoint();
  Team*T=team; vc_join(T->bar_vc,cur->vc);
  u64 gen=T->bar_gen;
  if(++T->bar_count==T->n){
    T->bar_count=0; T->bar_gen++; VC v=T->bar_vc; memset(&T->bar_vc,0,sizeof(VC));
    for(int i=0;i<T->n;i++){ T->th[i].vc=v; T->th[i].vc.c[i%RT]++; }
    wake(&T->bar_gen); syncpoint();
  } else { if(T->done>0 && T->bar_count+T->done==T->n){} while(T->bar_gen==gen) block(&T->bar_gen,"waits at a barrier"); }
}
API void sim_GOMP_barrier(){ barrier(); } API bool sim_GOMP_barrier_cancel(){ barrier(); return false; }

static void lock_acq(const void*p,const char*why,bool nest=false){
  if(!active) return; H->n_crit++; syncpoint();
  Lock&l=locks[p]; int me=team?cur->id:0;
  if(nest&&l.depth&&l.owner==me){ l.depth++; return; }
  if(!team||team->n<2){ if(l.depth&&l.owner==me){ violation("deadlock","a thread waits for a lock it holds (%s)",why); die(5,105);} l.owner=me; l.depth=1; return; }
  while(locks[p].depth) block(p,why);
  Lock&m=locks[p]; m.owner=me; m.depth=1; vc_join(cur->vc,m.vc);
}
static bool lock_try(const void*p,bool nest){ syncpoint(); Lock&l=locks[p]; int me=team?cur->id:0; if(l.depth){ if(nest&&l.owner==me){ l.depth++; return true;} return false; } l.owner=me; l.depth=1; if(inside_region()) vc_join(cur->vc,l.vc); return true; }
static void lock_rel(const void*p){
  if(!active) return; Lock&l=locks[p]; if(!l.depth){ violation("sync","a lock that is not held is released"); return; }
  if(--l.depth) return;
  if(inside_region()){ vc_join(l.vc,cur->vc); cur->vc.c[cur->id%RT]++; wake(p); }
  syncpoint();
}
static char crit_key,atomic_key;
API void sim_GOMP_critical_start(){ lock_acq(&crit_key,"waits for a critical section"); } API void sim_GOMP_critical_end(){ lock_rel(&crit_key); }
API void sim_GOMP_critical_name_start(void**p){ lock_acq(p,"waits for a named critical section"); } API void sim_GOMP_critical_name_end(void**p){ lock_rel(p); }
API void sim_GOMP_atomic_start(){ lock_acq(&atomic_key,"waits for an atomic section"); } API void sim_GOMP_atomic_end(){ lock_rel(&atomic_key); }
API void sim_omp_init_lock(void*p){ locks[p]=Lock(); } API void sim_omp_destroy_lock(void*p){ locks.erase(p); } API void sim_omp_set_lock(void*p){ lock_acq(p,"waits for a lock"); } API void sim_omp_unset_lock(void*p){ lock_rel(p); } API int sim_omp_test_lock(void*p){ return lock_try(p,false); }
API void sim_omp_init_nest_lock(void*p){ locks[p]=Lock(); } API void sim_omp_destroy_nest_lock(void*p){ locks.erase(p); } API void sim_omp_set_nest_lock(void*p){ lock_acq(p,"waits for a lock",true); } API void sim_omp_unset_nest_lock(void*p){ lock_rel(p); } API int sim_omp_test_nest_lock(void*p){ return lock_try(p,true)?(int)locks[p].depth:0; }
API int sim_pthread_mutex_lock(void*p){ lock_acq(p,"waits for a mutex"); return 0; } API int sim_pthread_mutex_unlock(void*p){ lock_rel(p); return 0; } API int sim_pthread_mutex_trylock(void*p){ return lock_try(p,false)?0:EBUSY; }

// work sharing
static WS seq_ws;
static WS*ws_enter(bool&first){
  if(solo()){ WS*w=new WS(); w->left=1; w->idx=0; first=true; return w; }
  u64 i=cur->ws++; auto it=team->ws.find(i); first=it==team->ws.end(); WS&w=team->ws[i];
  if(first){ w=WS(); w.idx=i; w.left=team->n; w.ord_next=0; }
  return &w;
}
static void ws_leave(WS*w){ if(!w) return; if(solo()){ delete w; return; } if(--w->left==0) team->ws.erase(w->idx); }
static WS*&my_ws(){ static WS*s; return team?cur->cur_ws:s; }
enum { SD_STATIC=1, SD_DYN=2, SD_GUIDED=3 };
static bool loop_next_(i64*a,i64*b){
  WS*w=my_ws(); if(!w) return false; syncpoint();
  i64 step_=w->incr, total=step_>0?(w->end-w->start+step_-1)/step_:(w->start-w->end-step_-1)/(-step_); if(total<0) total=0;
  int n=nth(), me=tid(); i64 lo,hi;
  if(w->sched==SD_STATIC){
    i64&trip=team?cur->static_trip:seq.static_trip;
    if(w->chunk<=0){ if(trip) return false; i64 q=total/n,r=total%n; if(me<r){ lo=me*(q+1); hi=lo+q+1; } else { lo=me*q+r; hi=lo+q; } trip++; if(lo>=hi) return false; }
    else { lo=(trip*n+me)*w->chunk; hi=std::min(total,lo+w->chunk); trip++; if(lo>=total) return false; }
  } else {
    i64 ch=std::max<i64>(1,w->chunk); if(w->next>=total) return false; if(w->sched==SD_GUIDED) ch=std::max(ch,(total-w->next+n-1)/n);
    lo=w->next; hi=std::min(total,lo+ch); w->next=hi;
  }
  *a=w->start+lo*step_; *b=w->start+hi*step_; if(team) cur->ordered_iter=lo; else seq.ordered_iter=lo; return true;
}
static void loop_init(i64 s,i64 e,i64 inc,int sched,i64 chunk){
  bool first; WS*w=ws_enter(first); my_ws()=w; if(team) cur->static_trip=0; else seq.static_trip=0;
  if(first){ w->start=s; w->end=e; w->incr=inc; w->next=0; w->sched=sched; w->chunk=chunk; }
}
static bool loop_start(i64 s,i64 e,i64 inc,int sched,i64 chunk,i64*a,i64*b){ loop_init(s,e,inc,sched,chunk); return loop_next_(a,b); }
API void sim_GOMP_loop_end_nowait(){ ws_leave(my_ws()); my_ws()=nullptr; }
API void sim_GOMP_loop_end(){ ws_leave(my_ws()); my_ws()=nullptr; barrier(); }
API bool sim_GOMP_loop_end_cancel(){ sim_GOMP_loop_end(); return false; }
static int rs(){ int k=run_sched&0xff; return k==1?SD_STATIC:k==3?SD_GUIDED:SD_DYN; }
#define LOOP(name,SD,CH) \
API bool sim_GOMP_loop_##name##_start(long s,long e,long inc,long ch,long*a,long*b){ (void)ch; return loop_start(s,e,inc,SD,CH,(i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_##name##_next(long*a,long*b){ return loop_next_((i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ordered_##name##_start(long s,long e,long inc,long ch,long*a,long*b){ (void)ch; return loop_start(s,e,inc,SD,CH,(i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ordered_##name##_next(long*a,long*b){ return loop_next_((i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ull_##name##_start(bool up,u64 s,u64 e,u64 inc,u64 ch,u64*a,u64*b){ (void)ch;(void)up; return loop_start((i64)s,(i64)e,(i64)inc,SD,(i64)CH,(i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ull_##name##_next(u64*a,u64*b){ return loop_next_((i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ull_ordered_##name##_start(bool up,u64 s,u64 e,u64 inc,u64 ch,u64*a,u64*b){ (void)ch;(void)up; return loop_start((i64)s,(i64)e,(i64)inc,SD,(i64)CH,(i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ull_ordered_##name##_next(u64*a,u64*b){ return loop_next_((i64*)a,(i64*)b); }
LOOP(static,SD_STATIC,ch) LOOP(dynamic,SD_DYN,ch) LOOP(guided,SD_GUIDED,ch) LOOP(nonmonotonic_dynamic,SD_DYN,ch) LOOP(nonmonotonic_guided,SD_GUIDED,ch)
#define RLOOP(name) /* no chunk size among the arguments */ \
API bool sim_GOMP_loop_##name##_start(long s,long e,long inc,long*a,long*b){ return loop_start(s,e,inc,rs(),run_chunk,(i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_##name##_next(long*a,long*b){ return loop_next_((i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ordered_##name##_start(long s,long e,long inc,long*a,long*b){ return loop_start(s,e,inc,rs(),run_chunk,(i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ordered_##name##_next(long*a,long*b){ return loop_next_((i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ull_##name##_start(bool up,u64 s,u64 e,u64 inc,u64*a,u64*b){ (void)up; return loop_start((i64)s,(i64)e,(i64)inc,rs(),run_chunk,(i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ull_##name##_next(u64*a,u64*b){ return loop_next_((i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ull_ordered_##name##_start(bool up,u64 s,u64 e,u64 inc,u64*a,u64*b){ (void)up; return loop_start((i64)s,(i64)e,(i64)inc,rs(),run_chunk,(i64*)a,(i64*)b); } \
API bool sim_GOMP_loop_ull_ordered_##name##_next(u64*a,u64*b){ return loop_next_((i64*)a,(i64*)b); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
struct PLoop { void(*fn)(void*); void*data; i64 s,e,inc,ch; int sd; };
static void ploop_body(void*p){ PLoop*l=(PLoop*)p; loop_init(l->s,l->e,l->inc,l->sd,l->ch); l->fn(l->data); }
static void ploop(void(*fn)(void*),void*d,unsigned n,i64 s,i64 e,i64 inc,i64 ch,int sd){ PLoop l={fn,d,s,e,inc,ch,sd}; parallel(ploop_body,&l,n); }
#define PLOOP(name,SD) API void sim_GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned n,long s,long e,long inc,long ch,unsigned){ ploop(fn,d,n,s,e,inc,ch,SD); }
PLOOP(static,SD_STATIC) PLOOP(dynamic,SD_DYN) PLOOP(guided,SD_GUIDED) PLOOP(nonmonotonic_dynamic,SD_DYN) PLOOP(nonmonotonic_guided,SD_GUIDED)
API void sim_GOMP_parallel_loop_runtime(void(*fn)(void*),void*d,unsigned n,long s,long e,long inc,unsigned){ ploop(fn,d,n,s,e,inc,run_chunk,rs()); }
API void sim_GOMP_parallel_loop_nonmonotonic_runtime(void(*fn)(void*),void*d,unsigned n,long s,long e,long inc,unsigned){ ploop(fn,d,n,s,e,inc,run_chunk,rs()); }
API void sim_GOMP_parallel_loop_maybe_nonmonotonic_runtime(void(*fn)(void*),void*d,unsigned n,long s,long e,long inc,unsigned){ ploop(fn,d,n,s,e,inc,run_chunk,rs()); }
API void sim_GOMP_ordered_start(){ if(!team||solo()) return; WS*w=my_ws(); if(!w) return; syncpoint(); while(w->ord_next!=cur->ordered_iter) block(&w->ord_next,"waits for its turn in an ordered section"); vc_join(cur->vc,w->vc); }
API void sim_GOMP_ordered_end(){ if(!team||solo()) return; WS*w=my_ws(); if(!w) return; w->ord_next++; cur->ordered_iter++; vc_join(w->vc,cur->vc); cur->vc.c[cur->id%RT]++; wake(&w->ord_next); syncpoint(); }
API bool sim_GOMP_single_start(){ if(!active||solo()) return true; bool first; syncpoint(); WS*w=ws_enter(first); ws_leave(w); return first; }
API void*sim_GOMP_single_copy_start(){ bool first; WS*w=ws_enter(first); my_ws()=w; if(first||solo()) return nullptr; barrier(); void*r=w->copy; vc_join(cur->vc,w->vc); ws_leave(w); return r; }
API void sim_GOMP_single_copy_end(void*p){ WS*w=my_ws(); if(solo()){ ws_leave(w); return; } w->copy=p; vc_join(w->vc,cur->vc); barrier(); ws_leave(w); }
API unsigned sim_GOMP_sections_next(){ WS*w=my_ws(); syncpoint(); return w->sec_next<w->sec_count?++w->sec_next:0; }
API unsigned sim_GOMP_sections_start(unsigned n){ bool first; WS*w=ws_enter(first); my_ws()=w; if(first){ w->sec_next=0; w->sec_count=n; } return sim_GOMP_sections_next(); }
API void sim_GOMP_sections_end_nowait(){ ws_leave(my_ws()); my_ws()=nullptr; } API void sim_GOMP_sections_end(){ sim_GOMP_sections_end_nowait(); barrier(); }
struct PSec { void(*fn)(void*); void*d; unsigned n; };
static void psec_body(void*p){ PSec*s=(PSec*)p; bool first; WS*w=ws_enter(first); my_ws()=w; if(first){ w->sec_next=0; w->sec_count=s->n; } s->fn(s->d); }
API void sim_GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned n,unsigned c,unsigned){ PSec s={fn,d,c}; parallel(psec_body,&s,n); }
// tasks run at once on the thread that creates them (a permitted execution)
API void sim_GOMP_task(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,bool,unsigned,void**,int,void*){
  syncpoint(); if(cpy){ char*b=(char*)alloca(sz+al); char*q=(char*)(((uptr)b+al-1)/al*al); cpy(q,data); fn(q); } else fn(data); syncpoint();
}
API void sim_GOMP_taskloop(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,unsigned,unsigned long,int,long s,long e,long inc){
  for(long i=s;inc>0?i<e:i>e;i+=inc){ char*b=(char*)alloca(sz+al); char*q=(char*)(((uptr)b+al-1)/al*al); if(cpy) cpy(q,data); else memcpy(q,data,sz); ((long*)q)[0]=i; ((long*)q)[1]=i+inc; fn(q); syncpoint(); }
}
API void sim_GOMP_taskloop_ull(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,unsigned f,unsigned long n,int p,u64 s,u64 e,u64 inc){ (void)f;(void)n;(void)p; sim_GOMP_taskloop(fn,data,cpy,sz,al,f,n,p,(long)s,(long)e,(long)inc); }
API void sim_GOMP_taskwait(){} API void sim_GOMP_taskyield(){ if(active) syncpoint(); } API void sim_GOMP_taskgroup_start(){} API void sim_GOMP_taskgroup_end(){}
API bool sim_GOMP_cancel(int,bool){ return false; } API bool sim_GOMP_cancellation_point(int){ return false; }

// ------------------------------------------------------------------ allocator seen by the library
static bool c_fail(){ H->n_calloc++; if(C.c_fail_n>0 && (H->n_calloc==C.c_fail_n||(C.c_fail_persist&&H->n_calloc>=C.c_fail_n))){ H->f_calloc++; errno=ENOMEM; return true; } return false; }
static void*c_alloc(size_t n,bool zero,const void*ra){
  if(!active) return zero?calloc(1,n):malloc(n);
  tick(); if(c_fail()) return nullptr; if(n>(ARENA_SIZE>>1)){ errno=ENOMEM; return nullptr; }
  void*p=arena_alloc(n,K_C,zero,relpc(ra)); if(!p) errno=ENOMEM; return p;
}
API void*sim_malloc(size_t n){ return c_alloc(n,false,RA); }
API void*sim_calloc(size_t n,size_t m){ size_t t; if(__builtin_mul_overflow(n,m,&t)) return nullptr; return c_alloc(t,true,RA); }
API void sim_free(void*p){ if(!p) return; if(!active){ free(p); return; } tick(); H->n_free++; arena_free(p,K_C,relpc(RA)); }
API void*sim_realloc(void*p,size_t n){
  if(!active) return realloc(p,n); if(!p) return c_alloc(n,false,RA); if(!n){ H->n_free++; arena_free(p,K_C,relpc(RA)); return nullptr; }
  Hdr*h=hdr_of(p); if(!h||h->magic!=MAGIC_LIVE||h->kind!=K_C){ violation("free","resizing of an address that is not a live block (pc=%lld)",(long long)relpc(RA)); return nullptr; }
  void*q=c_alloc(n,false,RA); if(!q) return nullptr; memcpy(q,p,std::min<size_t>(n,h->size)); arena_free(p,K_C,relpc(RA)); H->n_free++; return q;
}
API void*sim_reallocarray(void*p,size_t n,size_t m){ size_t t; if(__builtin_mul_overflow(n,m,&t)) return nullptr; return sim_realloc(p,t); }
API void*sim_aligned_alloc(size_t,size_t n){ return c_alloc(n,false,RA); }
API int sim_posix_memalign(void**p,size_t,size_t n){ void*q=c_alloc(n,false,RA); if(!q) return ENOMEM; *p=q; return 0; }
API char*sim_strdup(const char*s){ size_t n=strlen(s)+1; char*p=(char*)c_alloc(n,false,RA); if(p) memcpy(p,s,n); return p; }
API void*sim_memcpy(void*d,const void*s,size_t n){ if(n){ access((uptr)s,n,false,false,RA); access((uptr)d,n,true,false,RA); } return memcpy(d,s,n); }
API void*sim_memmove(void*d,const void*s,size_t n){ if(n){ access((uptr)s,n,false,false,RA); access((uptr)d,n,true,false,RA); } return memmove(d,s,n); }
API void*sim_memset(void*d,int c,size_t n){ if(n) access((uptr)d,n,true,false,RA); return memset(d,c,n); }
static size_t rd_str(const char*s,size_t m,uptr ra){ size_t n=strnlen(s,m); size_t k=n<m?n+1:m; if(k) access((uptr)s,k,false,false,(void*)ra); return n; }
API int sim_memcmp(const void*a,const void*b,size_t n){ if(n){ access((uptr)a,n,false,false,RA); access((uptr)b,n,false,false,RA); } return memcmp(a,b,n); }
API size_t sim_strlen(const char*s){ return rd_str(s,-1,(uptr)RA); }
API int sim_strcmp(const char*a,const char*b){ rd_str(a,-1,(uptr)RA); rd_str(b,-1,(uptr)RA); return strcmp(a,b); }
API int sim_strncmp(const char*a,const char*b,size_t n){ rd_str(a,n,(uptr)RA); rd_str(b,n,(uptr)RA); return strncmp(a,b,n); }
API char*sim_strcpy(char*d,const char*s){ size_t n=rd_str(s,-1,(uptr)RA); access((uptr)d,n+1,true,false,RA); return strcpy(d,s); }
API char*sim_strncpy(char*d,const char*s,size_t n){ rd_str(s,n,(uptr)RA); if(n) access((uptr)d,n,true,false,RA); return strncpy(d,s,n); }
API char*sim_strcat(char*d,const char*s){ size_t m=rd_str(d,-1,(uptr)RA),n=rd_str(s,-1,(uptr)RA); access((uptr)d+m,n+1,true,false,RA); return strcat(d,s); }
static int to_buf(char*d,size_t cap,const char*f,va_list ap,uptr ra){ va_list bp; va_copy(bp,ap); char*q=nullptr; int n=vasprintf(&q,f,bp); va_end(bp); if(n<0) return n; size_t k=std::min<size_t>(n+1,cap); if(k){ access((uptr)d,k,true,false,(void*)ra); memcpy(d,q,k); d[k-1]=0; } free(q); return n; }
API int sim_sprintf(char*d,const char*f,...){ va_list ap; va_start(ap,f); int n=to_buf(d,-1,f,ap,(uptr)RA); va_end(ap); return n; }
API int sim_snprintf(char*d,size_t c,const char*f,...){ va_list ap; va_start(ap,f); int n=to_buf(d,c,f,ap,(uptr)RA); va_end(ap); return n; }
API int sim_vsnprintf(char*d,size_t c,const char*f,va_list ap){ return to_buf(d,c,f,ap,(uptr)RA); }

// array data of the Python layer (numpy memory handler, NEP 49)
static bool np_fail(){ H->n_np++; if(C.np_fail_n>0 && (H->n_np==C.np_fail_n||(C.np_fail_persist&&H->n_np>=C.np_fail_n))){ H->f_np++; return true; } return false; }
static bool np_armed=true;
API void sim_np_arm(int on){ np_armed=on; }
API void*sim_np_malloc(void*,size_t n){ if(np_armed&&np_fail()) return nullptr; return arena_alloc(n,K_NP,false,-2); }
API void*sim_np_calloc(void*,size_t n,size_t m){ if(np_armed&&np_fail()) return nullptr; return arena_alloc(n*m,K_NP,true,-2); }
API void sim_np_free(void*,void*p,size_t){ if(!p) return; uptr a=(uptr)p; if(a>=ARENA&&a<ARENA+ARENA_SIZE) arena_free(p,K_NP,-2); else free(p); }
API void*sim_np_realloc(void*x,void*p,size_t n){ if(!p) return sim_np_malloc(x,n); if(np_armed&&np_fail()) return nullptr; Hdr*h=hdr_of(p); void*q=arena_alloc(n,K_NP,false,-2); if(!q) return nullptr; if(h) memcpy(q,p,std::min<size_t>(n,h->size)); sim_np_free(x,p,0); return q; }

// ------------------------------------------------------------------ clock
static i64 clk_off;
static i64 now_ns(){ // simulated time: one microsecond per step, plus clock faults
  H->n_clock++; H->sim_ns=(i64)step*1000;
  i64 t=(i64)1700000000*1000000000ll+(i64)step*1000;
  switch(C.clock_mode){
    case 1: H->f_clock++; return (i64)1700000000*1000000000ll;
    case 2: H->f_clock++; return (i64)1700000000*1000000000ll-(i64)step*1000000;
    case 3: H->f_clock++; clk_off+=(i64)(R_clock.next()%4000000000000ull)-2000000000000ll; return t+clk_off*1000;
    case 5: H->f_clock++; return t+(i64)4000000000*1000000000ll;
    default: return t;
  }
}
API time_t sim_time(time_t*p){ if(active) tick(); if(C.clock_mode==4){ H->f_clock++; errno=EFAULT; if(p)*p=-1; return -1; } time_t t=now_ns()/1000000000ll; if(p)*p=t; return t; }
API double sim_omp_get_wtime(){ tick(); if(C.clock_mode==4){ H->f_clock++; return -1; } return now_ns()*1e-9; }
API clock_t sim_clock(){ tick(); if(C.clock_mode==4){ H->f_clock++; return (clock_t)-1; } return (clock_t)(now_ns()/1000); }
API int sim_clock_gettime(clockid_t,struct timespec*t){ tick(); if(C.clock_mode==4){ H->f_clock++; errno=EINVAL; return -1; } i64 n=now_ns(); t->tv_sec=n/1000000000ll; t->tv_nsec=n%1000000000ll; if(t->tv_nsec<0){ t->tv_nsec+=1000000000; t->tv_sec--; } return 0; }
API int sim_gettimeofday(struct timeval*t,void*){ struct timespec s; if(sim_clock_gettime(CLOCK_REALTIME,&s)) return -1; t->tv_sec=s.tv_sec; t->tv_usec=s.tv_nsec/1000; return 0; }
API int sim_usleep(unsigned us){ if(active){ step+=us; syncpoint(); } return 0; } API unsigned sim_sleep(unsigned s){ if(active){ step+=1000000ull*s; syncpoint(); } return 0; }
API int sim_nanosleep(const struct timespec*t,struct timespec*){ if(active){ step+=t->tv_sec*1000000ull+t->tv_nsec/1000; syncpoint(); } return 0; } API int sim_sched_yield(){ if(active) syncpoint(); return 0; }

// ------------------------------------------------------------------ streams and files
extern "C" { __attribute__((visibility("default"))) FILE*sim_stdout=nullptr; __attribute__((visibility("default"))) FILE*sim_stderr=nullptr; }
static i64 out_acc; static bool out_once;
static ssize_t w_out(void*,const char*b,size_t n){
  size_t m=n; bool fail=false;
  if(C.out_fail_mode && C.out_fail_after>=0 && !(C.out_fail_mode==3&&out_once) && out_acc+(i64)n>C.out_fail_after){
    fail=true; out_once=true; H->f_out++; m=C.out_fail_mode==2?(size_t)std::max<i64>(0,C.out_fail_after-out_acc):0; }
  size_t k=m; if(H->out_len+(i64)k>OUTCAP){ H->out_lost+=k; k=OUTCAP-H->out_len; } memcpy(H->out+H->out_len,b,k); H->out_len+=k; out_acc+=m;
  if(fail){ errno=EIO; return m?(ssize_t)m:0; } return n;
}
static ssize_t w_err(void*,const char*b,size_t n){ size_t k=n; if(H->err_len+(i64)k>(i64)sizeof H->err){ H->err_lost+=k; k=sizeof H->err-H->err_len; } memcpy(H->err+H->err_len,b,k); H->err_len+=k; return n; }
struct FH { int i; i64 pos; bool rd,wr; };
static i64 fs_acc; static bool fs_once;
static ssize_t w_fs(void*c,const char*b,size_t n){
  FH*h=(FH*)c; FsFile&f=H->fs[h->i]; size_t m=n; bool fail=false; tick();
  if(C.fs_fail_mode && C.fs_fail_after>=0 && (fs_once?C.fs_fail_mode!=3:fs_acc+(i64)n>C.fs_fail_after)){ fail=true; fs_once=true; H->f_fs++; m=C.fs_fail_mode==2?(size_t)std::max<i64>(0,C.fs_fail_after-fs_acc):0; }
  size_t k=m; if(h->pos+(i64)k>(i64)sizeof f.data) k=sizeof f.data-h->pos; memcpy(f.data+h->pos,b,k); h->pos+=k; if(h->pos>f.len) f.len=h->pos; fs_acc+=m; f.touched++;
  if(fail){ errno=ENOSPC; return m?(ssize_t)m:0; } return n;
}
static ssize_t r_fs(void*c,char*b,size_t n){ FH*h=(FH*)c; FsFile&f=H->fs[h->i]; i64 k=std::min<i64>(n,f.len-h->pos); if(k<=0) return 0; memcpy(b,f.data+h->pos,k); h->pos+=k; return k; }
static int s_fs(void*c,off64_t*o,int wh){ FH*h=(FH*)c; i64 b=wh==SEEK_SET?0:wh==SEEK_CUR?h->pos:H->fs[h->i].len; if(b+*o<0) return -1; h->pos=b+*o; *o=h->pos; return 0; }
static int c_fs(void*c){ FH*h=(FH*)c; H->fs[h->i].closes++; delete h; return 0; }
static int fs_find(const char*n,bool create){ if(!strncmp(n,"./",2)) n+=2; for(int i=0;i<NFS;i++) if(H->fs[i].name[0]&&!strcmp(H->fs[i].name,n)) return i; if(create) for(int i=0;i<NFS;i++) if(!H->fs[i].name[0]){ strncpy(H->fs[i].name,n,95); return i; } return -1; }
API FILE*sim_fopen(const char*name,const char*mode){
  if(!active) return fopen(name,mode); syncpoint(); H->n_fopen++; ev(0xf0,H->n_fopen);
  if(C.fopen_fail_n==H->n_fopen){ H->f_fopen++; errno=EACCES; return nullptr; }
  bool r=mode[0]=='r',w=mode[0]=='w',a=mode[0]=='a',plus=strchr(mode,'+'); int i=fs_find(name,!r); if(i<0||(r&&!H->fs[i].exists)){ errno=ENOENT; return nullptr; }
  FsFile&f=H->fs[i]; if(!r||plus) f.touched++; f.opens++; if(w) f.len=0; f.exists=1;
  FH*h=new FH{i,a?f.len:0,r||plus,!r||plus}; cookie_io_functions_t io={r||plus?r_fs:nullptr,!r||plus?w_fs:nullptr,s_fs,c_fs};
  FILE*F=fopencookie(h,mode,io); return F;
}
API FILE*sim_fopen64(const char*n,const char*m){ return sim_fopen(n,m); }
API FILE*sim_freopen(const char*n,const char*m,FILE*f){ if(f&&f!=sim_stdout&&f!=sim_stderr) fclose(f); return sim_fopen(n,m); }
API int sim_remove(const char*n){ int i=fs_find(n,false); if(i<0||!H->fs[i].exists){ errno=ENOENT; return -1; } H->fs[i].exists=0; H->fs[i].len=0; H->fs[i].touched++; return 0; }
API int sim_unlink(const char*n){ return sim_remove(n); }
API int sim_rename(const char*a,const char*b){ int i=fs_find(a,false); if(i<0||!H->fs[i].exists){ errno=ENOENT; return -1; } int j=fs_find(b,true); if(j<0){ errno=ENOSPC; return -1; } memcpy(H->fs[j].data,H->fs[i].data,H->fs[i].len); H->fs[j].len=H->fs[i].len; H->fs[j].exists=1; H->fs[j].touched++; H->fs[i].exists=0; H->fs[i].len=0; return 0; }
static FILE*chk(FILE*f){ return f; }
API int sim_vfprintf(FILE*f,const char*m,va_list ap){ if(!active) return vfprintf(f,m,ap); syncpoint(); H->n_printf++; int r=vfprintf(chk(f),m,ap); syncpoint(); return r; }
API int sim_printf(const char*m,...){ va_list ap; va_start(ap,m); int r=sim_vfprintf(sim_stdout?sim_stdout:stdout,m,ap); va_end(ap); return r; }
API int sim_vprintf(const char*m,va_list ap){ return sim_vfprintf(sim_stdout?sim_stdout:stdout,m,ap); }
API int sim_fprintf(FILE*f,const char*m,...){ va_list ap; va_start(ap,m); int r=sim_vfprintf(f,m,ap); va_end(ap); return r; }
API int sim_fputs(const char*s,FILE*f){ if(active){ syncpoint(); H->n_printf++; } int r=fputs(s,f); if(active) syncpoint(); return r; }
API int sim_puts(const char*s){ if(!active) return puts(s); syncpoint(); H->n_printf++; int r=fputs(s,sim_stdout); if(r>=0) r=fputc('\n',sim_stdout); syncpoint(); return r; }
API int sim_fputc(int c,FILE*f){ if(active){ syncpoint(); H->n_printf++; } int r=fputc(c,f); if(active) syncpoint(); return r; }
API int sim_putc(int c,FILE*f){ return sim_fputc(c,f); }
API int sim_putchar(int c){ return sim_fputc(c,sim_stdout?sim_stdout:stdout); }
API size_t sim_fwrite(const void*p,size_t a,size_t b,FILE*f){ if(active){ syncpoint(); H->n_printf++; } size_t r=fwrite(p,a,b,f); if(active) syncpoint(); return r; }
API int sim_fflush(FILE*f){ if(active) syncpoint(); if(!f&&active){ fflush(sim_stdout); return 0; } return fflush(f); }
API int sim_fclose(FILE*f){ if(active) syncpoint(); return fclose(f); }
API void sim_perror(const char*s){ sim_fprintf(sim_stderr?sim_stderr:stderr,"%s: %s\n",s?s:"",strerror(errno)); }
API int sim_dprintf(int fd,const char*m,...){ char b[4096]; va_list ap; va_start(ap,m); int n=vsnprintf(b,sizeof b,m,ap); va_end(ap); FILE*f=fd==2?sim_stderr:sim_stdout; fflush(f); fwrite(b,1,std::min<int>(n,sizeof b-1),f); fflush(f); return n; }
API ssize_t sim_write(int fd,const void*b,size_t n){ if(!active||(fd!=1&&fd!=2)) return write(fd,b,n); syncpoint(); FILE*f=fd==2?sim_stderr:sim_stdout; fflush(f); fwrite(b,1,n,f); fflush(f); return n; }
static void flush_all(){ if(sim_stdout) fflush(sim_stdout); if(sim_stderr) fflush(sim_stderr); }
[[noreturn]] static void bye(int st,int code){ H->exit_code=code; ev(0xe0,code); flush_all(); die(st,107); }
API void sim_exit(int c){ if(!active) exit(c); bye(2,c); } API void sim__exit(int c){ H->exit_code=c; die(2,107); } API void sim_quick_exit(int c){ H->exit_code=c; die(2,107); }
API void sim_abort(){ if(!active) abort(); H->exit_code=134; die(7,107); }
API void sim___assert_fail(const char*e,const char*f,unsigned l,const char*fn){ if(sim_stderr) fprintf(sim_stderr,"%s:%u: %s: Assertion `%s' failed.\n",f,l,fn,e); H->exit_code=134; flush_all(); die(7,107); }

// ------------------------------------------------------------------ integrator (Cuba)
typedef int (*integrand_t)(const int*,const double*,const int*,double*,void*,const int*,const int*);
static i64 cuba_cores=-1;
API void sim_cubacores(const int*n,const int*){ cuba_cores=*n; }
API void sim_cubacores_v(int n,int){ cuba_cores=n; }
API void sim_cubaaccel_v(int,int){}
static int suave_failed=0;
struct Img { std::vector<u8> d,t; };
static std::vector<Img> spinning; // worker processes kept from one integration to the next, with what they knew when they were started
struct IArgs { double epsrel,epsabs; int flags,seed,mineval,maxeval,p1,p2; double p3; const char*statefile; void*spin; };
static int integrate(const IArgs&A,int ndim,int ncomp,integrand_t f,void*ud,int nvec,double*integral,double*error,double*prob){
  H->n_suave++; if(nvec<1) nvec=1;
  if((A.flags&3)&&active) sim_fprintf(sim_stdout,"Integrator input parameters:\n  ndim %d\n  ncomp %d\n  epsrel %g\n  epsabs %g\n  seed %d\n",ndim,ncomp,A.epsrel,A.epsabs,A.seed);
  // the workers it was told to use
  { i64 c=-1000-cuba_cores; if(H->n_teams<510&&!(H->n_teams&&H->team_log[H->n_teams-1]==c)) H->team_log[H->n_teams++]=c; }
  i64 N=std::max<i64>(1,C.suave_n);
  // a fixed low-discrepancy set of samples, so that the result is a function of the integrand only
  std::vector<double> xs((size_t)N*ndim), vals((size_t)N*ncomp,0.), ref;
  double g=1.; for(int it=0;it<60;it++) g=pow(1.+g,1./(ndim+1));
  // which set is chosen depends on all that is asked of the integrator
  double off; { u64 h=0x9e3779b97f4a7c15ull; auto mix=[&](double v){ u64 b; memcpy(&b,&v,8); h^=b; h*=0xff51afd7ed558ccdull; h^=h>>32; }; mix(A.epsrel); mix(A.epsabs); mix(A.seed); mix(A.mineval); mix(A.maxeval); mix(A.p1); mix(A.p2); mix(A.p3); mix(A.flags&~3); off=(double)(h>>11)/9007199254740992.; }
  for(i64 i=0;i<N;i++) for(int d=0;d<ndim;d++){ double v=off+(double)(i+1)*pow(1./g,d+1); xs[i*ndim+d]=v-floor(v); }
  // a real integrator refines some regions: samples next to, and others with coordinates in common with, the one before
  for(i64 i=1;i<N;i++) for(int d=0;d<ndim;d++){ if(i%8==3) xs[i*ndim+d]=std::min(0.999,xs[(i-1)*ndim+d]*(1.+1e-5*(d+1))); else if(i%8==5&&d!=(i/8)%ndim) xs[i*ndim+d]=xs[(i-1)*ndim+d]; else if(i%8==6&&d==(i/8)%ndim) xs[i*ndim+d]=xs[(i-2)*ndim+d]; }
  double*x=(double*)arena_alloc(sizeof(double)*ndim*nvec,K_SIM,true,-3); double*ff=(double*)arena_alloc(sizeof(double)*ncomp*nvec,K_SIM,true,-3);
  int*nd=(int*)arena_alloc(sizeof(int),K_SIM,true,-3),*nc=(int*)arena_alloc(sizeof(int),K_SIM,true,-3),*nv=(int*)arena_alloc(sizeof(int),K_SIM,true,-3),*co=(int*)arena_alloc(sizeof(int),K_SIM,true,-3);
  *nd=ndim; *nc=ncomp;
  // worker processes: each has its own copy of the library's variables, taken when the integration starts
  i64 W=std::max<i64>(0,C.suave_workers); size_t dn=dat_hi-dat_lo; uptr tb=callers[caller].used?callers[caller].tls:0;
  std::vector<Img> img; void**spin=(void**)A.spin;
  Img master; auto save=[&](Img&m){ m.d.assign((u8*)dat_lo,(u8*)dat_hi); if(tb) m.t.assign((u8*)tb,(u8*)tb+tls_memsz); }; auto load=[&](Img&m){ memcpy((void*)dat_lo,m.d.data(),dn); if(tb) memcpy((void*)tb,m.t.data(),tls_memsz); };
  bool multi=W>0||C.suave_order||C.suave_dup||C.suave_lose; 
  bool abandoned=false;
  auto eval=[&](const i64*idx,int n,double*out,int core){
    for(int j=0;j<n;j++) memcpy(x+j*ndim,&xs[idx[j]*ndim],sizeof(double)*ndim);
    for(int j=0;j<n*ncomp;j++) ff[j]=C.junk_mode==1?NAN:1e300; // an integrand must set every component
    *nv=n; *co=core; H->n_samples+=n; tick();
    int r=f(nd,x,nc,ff,ud,nv,co); if(r==-999) abandoned=true; // the integrand asks for the integration to be given up
    for(int j=0;j<n;j++) if(memcmp(x+j*ndim,&xs[idx[j]*ndim],sizeof(double)*ndim)) violation("integrand","the integrand changed its sample point");
    if(*nd!=ndim||*nc!=ncomp) violation("integrand","the integrand changed its dimensions");
    for(int j=0;j<n;j++) memcpy(out+j*ncomp,ff+j*ncomp,sizeof(double)*ncomp);
  };
  std::vector<i64> idx(nvec); std::vector<double> out((size_t)nvec*ncomp);
  if(!multi){ for(i64 i=0;i<N&&!abandoned;i+=nvec){ int n=(int)std::min<i64>(nvec,N-i); for(int j=0;j<n;j++) idx[j]=i+j; eval(idx.data(),n,out.data(),32768); memcpy(&vals[i*ncomp],out.data(),sizeof(double)*n*ncomp); } }
  else {
    save(master); if(spin&&*spin&&(i64)spinning.size()==W+1){ img=spinning; img[0]=master; } else { img.resize(W+1); for(auto&m:img) m=master; }
    std::vector<i64> ord; for(i64 i=0;i<N;i++) ord.push_back(i);
    if(C.suave_order==1) std::reverse(ord.begin(),ord.end()); else if(C.suave_order>=2) for(i64 i=N-1;i>0;i--) std::swap(ord[i],ord[R_suave.below(i+1)]);
    if(C.suave_order) H->f_suave_reorder++;
    if(C.suave_dup) for(i64 i=0;i<N/4+1;i++){ ord.push_back((i64)R_suave.below(N)); H->f_suave_dup++; }
    std::vector<char> have(N,0); size_t pos=0; int lost=0; bool bad=false; std::vector<i64> again;
    while(!abandoned&&(pos<ord.size()||!again.empty())){
      std::vector<i64> batch; i64 bs=1+R_suave.below(8);
      if(pos<ord.size()){ while((i64)batch.size()<bs&&pos<ord.size()) batch.push_back(ord[pos++]); } else { batch.swap(again); }
      int w=W?(int)(R_suave.below(W)+1):0; load(img[w]); if(w) H->f_suave_worker++;
      bool lose=C.suave_lose&&W&&lost<2&&R_suave.below(6)==0; size_t done=lose?R_suave.below(batch.size()+1):batch.size(); size_t c=0;
      while(c<done&&!abandoned){ int n=(int)std::min<size_t>(nvec,done-c); eval(&batch[c],n,out.data(),w?w-1:32768);
        for(int j=0;j<n;j++){ i64 i=batch[c+j]; if(have[i]){ if(memcmp(&vals[i*ncomp],&out[j*ncomp],sizeof(double)*ncomp)) bad=true; } else { have[i]=1; memcpy(&vals[i*ncomp],&out[j*ncomp],sizeof(double)*ncomp); } }
        c+=n; }
      save(img[w]);
      if(lose){ // the worker dies: its results since the last reply are lost and re-sent to others; a fresh one replaces it
        lost++; H->f_suave_lose++; img[w]=master; for(i64 i:batch) again.push_back(i); }
    }
    load(master);
    if(spin){ spinning=img; *spin=(void*)&spinning; }
    if(bad) violation("integrand","evaluating a sample twice gave two values");
  }
  bool miss=C.suave_fail&&(C.suave_fail==1||R_suave.below(2)); if(miss) H->f_suave_fail++; // the accuracy asked for is not reached
  for(int c=0;c<ncomp;c++){ double s=0; for(i64 i=0;i<N;i++) s+=vals[i*ncomp+c]; integral[c]=s/N; error[c]=fabs(integral[c])*(miss?0.5:1e-7); prob[c]=miss?1.:0.; }
  // the state of an integration that has not converged is kept in the state file, and the next one carries on from it
  if(A.statefile&&*A.statefile&&active){
    std::vector<double> old(ncomp); FILE*sf=sim_fopen(A.statefile,"r"); if(sf){ if(fread(old.data(),sizeof(double),ncomp,sf)==(size_t)ncomp) for(int c=0;c<ncomp;c++) integral[c]=0.5*(integral[c]+old[c]); sim_fclose(sf); }
    if(miss||(A.flags&16)){ sf=sim_fopen(A.statefile,"w"); if(sf){ sim_fwrite(integral,sizeof(double),ncomp,sf); sim_fclose(sf); } } else if(sf) sim_remove(A.statefile);
  }
  suave_failed=abandoned?-99:miss?1+(int)R_suave.below(C.suave_fail==1?1:100000):0;
  arena_free(x,K_SIM,-3); arena_free(ff,K_SIM,-3); arena_free(nd,K_SIM,-3); arena_free(nc,K_SIM,-3); arena_free(nv,K_SIM,-3); arena_free(co,K_SIM,-3);
  return (int)N;
}
API void sim_Suave(int ndim,int ncomp,integrand_t f,void*ud,int nvec,double er1,double ea,int fl,int seed,int mn,int mx,int p1,int p2,double p3,const char*sf,void*sp,int*nreg,int*neval,int*fail,double*in,double*er,double*pr){ *neval=integrate(IArgs{er1,ea,fl,seed,mn,mx,p1,p2,p3,sf,sp},ndim,ncomp,f,ud,nvec,in,er,pr); *nreg=1; *fail=suave_failed; }
API void sim_Vegas(int ndim,int ncomp,integrand_t f,void*ud,int nvec,double er1,double ea,int fl,int seed,int mn,int mx,int p1,int p2,int p3,int p4,const char*sf,void*sp,int*neval,int*fail,double*in,double*er,double*pr){ *neval=integrate(IArgs{er1,ea,fl,seed,mn,mx,p1,p2,p3+1e3*p4,sf,sp},ndim,ncomp,f,ud,nvec,in,er,pr); *fail=suave_failed; }
API void sim_Cuhre(int ndim,int ncomp,integrand_t f,void*ud,int nvec,double er1,double ea,int fl,int mn,int mx,int p1,const char*sf,void*sp,int*nreg,int*neval,int*fail,double*in,double*er,double*pr){ *neval=integrate(IArgs{er1,ea,fl,0,mn,mx,p1,0,0.,sf,sp},ndim,ncomp,f,ud,nvec,in,er,pr); *nreg=1; *fail=suave_failed; }
API void sim_cubawait_v(void*sp){ if(sp) *(void**)sp=0; spinning.clear(); }

// ------------------------------------------------------------------ control interface (engine)
static void on_signal(int s,siginfo_t*si,void*){
  if(H){ H->signo=s; H->pc=team&&cur?cur->last_pc:seq.last_pc; H->spare[0]=(i64)(uptr)si->si_addr; H->spare[1]=team&&cur?cur->id:-1; H->status=3; H->steps=step; H->op=cur_op; }
  _exit(103);
}
static int phdr_cb(struct dl_phdr_info*i,size_t,void*arg){
  const char*want=(const char*)arg; if(!i->dlpi_name||!strstr(i->dlpi_name,want)) return 0;
  lib_lo=~0ull; lib_hi=0; uptr rlo=0,rhi=0; dat_lo=dat_hi=0;
  for(int k=0;k<i->dlpi_phnum;k++){ const ElfW(Phdr)&p=i->dlpi_phdr[k]; uptr a=i->dlpi_addr+p.p_vaddr;
    if(p.p_type==PT_LOAD){ lib_lo=std::min<uptr>(lib_lo,a&~4095ull); lib_hi=std::max(lib_hi,a+p.p_memsz); if(p.p_flags&PF_W){ dat_lo=a; dat_hi=a+p.p_memsz; } }
    if(p.p_type==PT_GNU_RELRO){ rlo=a; rhi=a+p.p_memsz; }
    if(p.p_type==PT_TLS){ tls_init=a; tls_filesz=p.p_filesz; tls_memsz=p.p_memsz; tls_align=p.p_align; } }
  if(rhi>dat_lo&&rlo<=dat_lo) dat_lo=(rhi+4095)&~4095ull; if(dat_lo>dat_hi) dat_lo=dat_hi;
  return 1;
}
static void find_main_stack(){
  FILE*f=fopen("/proc/self/maps","r"); char l[512]; uptr here=(uptr)__builtin_frame_address(0);
  while(f&&fgets(l,sizeof l,f)){ uptr a,b; if(sscanf(l,"%lx-%lx",&a,&b)==2&&here>=a&&here<b){ main_stack_hi=b; main_stack_lo=b-((uptr)8<<20); } } if(f) fclose(f);
}
static void mapfix(uptr a,size_t n,int prot=PROT_READ|PROT_WRITE){ a&=~4095ull; n=(n+8191)&~4095ull; void*m=mmap((void*)a,n,prot,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(m==MAP_FAILED&&errno!=EEXIST){ fprintf(stderr,"simcore: cannot map %lx: %s\n",a,strerror(errno)); _exit(99); } }
static void mapnr(uptr a,size_t n){ a&=~4095ull; for(uptr p=a;p<a+n+4096;p+=4096) { void*m=mmap((void*)p,4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); (void)m; } }
// once per zygote, before forking: fixed address ranges (arena, stacks, per-thread blocks, shadows)
API int sim_prepare(const char*libname){
  if(!dl_iterate_phdr(phdr_cb,(void*)libname)) return -1;
  find_main_stack();
  mapfix(ARENA,ARENA_SIZE); mapfix(STKBASE,STKSZ*NSTK); mapfix(TLSBASE,TLSSLOT*NTLS);
  for(int i=0;i<NSTK;i++) mprotect((void*)(STKBASE+STKSZ*i),4096,PROT_NONE);
  shadow=(u8*)mmap(nullptr,ARENA_SIZE/8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  add_zone(ARENA,ARENA+ARENA_SIZE); add_zone(TLSBASE,TLSBASE+TLSSLOT*NTLS); add_zone(dat_lo,dat_hi); add_zone(main_stack_lo,main_stack_hi); add_zone(STKBASE,STKBASE+STKSZ*NSTK);
  bool kas=false; if(pend_globals) for(auto&g:*pend_globals) if(g.beg>=lib_lo&&g.beg<lib_hi) kas=true;
  if(kas){
    mapnr((lib_lo>>3)+KOFF,(lib_hi-lib_lo)/8); mapnr((main_stack_lo>>3)+KOFF,(main_stack_hi-main_stack_lo)/8); mapfix((STKBASE>>3)+KOFF,STKSZ*NSTK/8);
    for(auto&g:*pend_globals) if(g.beg>=lib_lo&&g.beg<lib_hi){ u8*s=(u8*)((g.beg>>3)+KOFF); memset(s,0,g.size>>3); size_t k=g.size>>3; if(g.size&7) s[k++]=g.size&7; for(;k<g.size_rz>>3;k++) s[k]=0xf9; }
    kasan_on=(u8*)1;
  }
  brk_=ARENA+4096;
  return 0;
}
API size_t sim_sizes(int i){ return i==0?sizeof(Config):i==1?sizeof(Shared):i==2?offsetof(Shared,vio):i==3?offsetof(Shared,out):i==4?offsetof(Shared,err):i==5?offsetof(Shared,trace):i==6?offsetof(Shared,fs):i==7?offsetof(Shared,cov):i==8?sizeof(FsFile):i==9?tls_memsz:i==10?dat_hi-dat_lo:i==11?lib_hi-lib_lo:(size_t)TRACECAP; }
static char alt[65536] __attribute__((aligned(64)));
// once per run, in the forked child
API void sim_begin(const Config*c,Shared*h,const u64*sched,i64 nsched){
  C=*c; H=h; if(C.budget<=0) C.budget=(i64)1<<60;
  R_sched.seed(C.seed,1); R_junk.seed(C.seed,2); R_clock.seed(C.seed,3); R_suave.seed(C.seed,4); R_pool.seed(C.seed,5);
  replay_list.assign(sched,sched+nsched); replay_pos=0; if(C.strategy==ST_REPLAY){}
  if(C.sp1<1) C.sp1=1; if(C.sp2<1) C.sp2=1; if(C.nprocs<1) C.nprocs=4;
  cookie_io_functions_t o={nullptr,w_out,nullptr,nullptr},e={nullptr,w_err,nullptr,nullptr};
  sim_stdout=fopencookie(nullptr,"w",o); setvbuf(sim_stdout,nullptr,C.line_buffered==1?_IOLBF:C.line_buffered==2?_IONBF:_IOFBF,4096); sim_stderr=fopencookie(nullptr,"w",e); setvbuf(sim_stderr,nullptr,_IONBF,0);
  stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_signal; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT}) sigaction(s,&sa,nullptr);
  seq.last_pc=-1; region_stamp=1; active=true; call_start=0; plan_switch();
}
API void sim_op(i64 op){ cur_op=op; call_start=step; ev(0x0b,op); plan_switch(); }
API void sim_op_end(){ if(active){ flush_all(); u64 d=step-call_start; if((i64)d>H->maxop_steps) H->maxop_steps=d; H->steps=step; ev(0x0e,step); for(int k=1;k<=2;k++) for(Hdr*h=live_head[k].next;h;h=h->next) check_rz(h,"end of call"); } }
API i64 sim_steps(){ return (i64)step; }
API void sim_caller(int i){ caller=i&7; }
API i64 sim_live(int kind,int bytes){ return bytes?(i64)bytes_live[kind]:(i64)n_live[kind]; }
API i64 sim_locks_held(){ i64 n=0; for(auto&l:locks) if(l.second.depth) n++; return n; }
// checksums of all live array blocks; report those changed since the last call
static u64 sum(Hdr*h){ u64 v=h->size; u64*p=(u64*)((u8*)h+sizeof(Hdr)+RZ); size_t n=h->size/8; for(size_t i=0;i<n;i++) v=(v^p[i])*0x9e3779b97f4a7c15ull+(v>>29); return v|1; }
API void sim_snapshot(){ for(Hdr*h=live_head[K_NP].next;h;h=h->next) h->sum=sum(h); }
API i64 sim_changed(u64*out,i64 max){ i64 n=0; for(Hdr*h=live_head[K_NP].next;h;h=h->next) if(h->sum&&h->sum!=sum(h)){ if(n<max) out[n]=(u64)((u8*)h+sizeof(Hdr)+RZ); n++; } return n; }
API i64 sim_leaks(i64*out,i64 max){ i64 n=0; for(Hdr*h=live_head[K_C].next;h;h=h->next){ if(n<max){ out[2*n]=h->pc_alloc; out[2*n+1]=h->size; } n++; } return n; }
API void sim_end(){ if(H){ flush_all(); H->steps=step; H->sim_ns=(i64)step*1000; H->status=1; } }
API void sim_note(const char*kind,const char*txt){ violation(kind,"%s",txt); }
