/*
 * OpenMP on simulated threads.  Compiled target code calls the GOMP_* and
 * omp_* entry points below; a team is a set of fibers of which exactly one
 * runs, and every switch between them is decided by the seeded scheduler (or
 * by a recorded schedule).  The target is also compiled with
 * -fsanitize=thread, whose __tsan_* callbacks are defined here: every memory
 * access of the target is a tick and a possible switch point.
 */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <link.h>

#define MAXT 64
#define FSTK (1u << 20)

typedef struct { void *sp; int state; int depthBarrier; } Fiber;      /* state: 0 free, 1 ready, 2 at barrier, 3 waiting lock, 4 done */
enum { F_FREE , F_READY , F_BARRIER , F_LOCK , F_DONE };

static Fiber fib[MAXT];
static uint8_t *fstk[MAXT];
static void *mainSp;
static int teamSize = 1, cur = 0, inPar = 0, epoch = 0;
static void (*teamFn)( void * ); static void *teamData;
static uint64_t accs = 0;                 /* accesses inside parallel regions: schedule time */
static uint64_t rng, nextPre = UINT64_MAX;
static int replayPos = 0;
static int reqThreads = 0, atBarrier = 0, singleGen[MAXT], singleNext = 0;
static int prio[MAXT]; static uint64_t changeAt[16]; static int nChange;

/* shadow: who touched this word last in this region */
typedef struct { uint64_t key; uint32_t ep; uint8_t tid, wr; uint16_t hot; } Shadow;
#define SHN (1u << 18)
static Shadow *shadow;

__attribute__((naked,noinline)) static void fswitch( void **save , void *to )
{
  __asm__ volatile(
    "pushq %rbp\n\tpushq %rbx\n\tpushq %r12\n\tpushq %r13\n\tpushq %r14\n\tpushq %r15\n\t"
    "movq %rsp, (%rdi)\n\tmovq %rsi, %rsp\n\t"
    "popq %r15\n\tpopq %r14\n\tpopq %r13\n\tpopq %r12\n\tpopq %rbx\n\tpopq %rbp\n\tret\n\t" );
}

/* Thread-local variables of the target: fibers share one OS thread, so the
 * program's TLS block is exchanged at every switch.  Fiber 0 is the master. */
static uint8_t *tlsLive, *tlsCopy[MAXT]; static const uint8_t *tlsImage; static size_t tlsSize, tlsFile; static int tlsOf = 0;

static int tls_find( struct dl_phdr_info *i , size_t sz , void *d )
{
  (void) sz; (void) d;
  for( int k = 0 ; k < i->dlpi_phnum ; k++ )
    if( i->dlpi_phdr[k].p_type == PT_TLS )
    {
      tlsLive = i->dlpi_tls_data; tlsSize = i->dlpi_phdr[k].p_memsz; tlsFile = i->dlpi_phdr[k].p_filesz;
      tlsImage = (const uint8_t *)( i->dlpi_addr + i->dlpi_phdr[k].p_vaddr );
    }
  return 1;                                /* the program itself comes first; libraries keep theirs */
}

static void tls_to( int t )
{
  if( !tlsSize || t == tlsOf ) return;
  if( !tlsCopy[tlsOf] ) tlsCopy[tlsOf] = mmap( NULL , tlsSize , PROT_READ | PROT_WRITE , MAP_PRIVATE | MAP_ANONYMOUS , -1 , 0 );
  memcpy( tlsCopy[tlsOf] , tlsLive , tlsSize );
  if( !tlsCopy[t] )
  {
    tlsCopy[t] = mmap( NULL , tlsSize , PROT_READ | PROT_WRITE , MAP_PRIVATE | MAP_ANONYMOUS , -1 , 0 );
    memcpy( tlsCopy[t] , tlsImage , tlsFile );
  }
  memcpy( tlsLive , tlsCopy[t] , tlsSize );
  tlsOf = t;
}

static void switch_to( int t )
{
  int f = cur; cur = t;
  tls_to( t );
  if( f != t ) { S->proc[me].switches++; fswitch( &fib[f].sp , fib[t].sp ); }
}

static void record( int t )
{
  sim_mix( accs * 64 + t );
  if( S->nsw < MAXSW ) { S->sw[S->nsw].at = accs; S->sw[S->nsw].from = cur; S->sw[S->nsw].to = t; S->nsw++; } else S->trunc = 1;
}

static void plan_next( void )
{
  uint64_t iv = S->schedInterval ? S->schedInterval : 1;
  nextPre = accs + 1 + rng_next( &rng ) % ( 2 * iv );
}

static int ready_other( void )
{
  int c[MAXT], n = 0;
  for( int i = 0 ; i < teamSize ; i++ ) if( i != cur && fib[i].state == F_READY ) c[n++] = i;
  if( !n ) return -1;
  return c[ rng_next( &rng ) % n ];
}

static int best_prio( void )
{
  int b = -1;
  for( int i = 0 ; i < teamSize ; i++ ) if( fib[i].state == F_READY && ( b < 0 || prio[i] > prio[b] ) ) b = i;
  return b;
}

/* voluntary preemption of the running fiber at the current access */
static void preempt( void )
{
  if( S->replaySched )
  {
    while( replayPos < S->nswPlan && S->swPlan[replayPos].at < accs ) replayPos++;
    if( replayPos < S->nswPlan && S->swPlan[replayPos].at == accs )
    {
      int t = S->swPlan[replayPos++].to;
      if( t < teamSize && t != cur && fib[t].state == F_READY ) { record( t ); switch_to( t ); }
    }
    nextPre = replayPos < S->nswPlan ? S->swPlan[replayPos].at : UINT64_MAX;
    if( nextPre <= accs && nextPre != UINT64_MAX ) nextPre = accs + 1;
    return;
  }
  int t;
  if( S->schedMode == 2 ) { prio[cur] = -(int) ( accs & 0x3fffffff ); t = best_prio(); plan_next(); }
  else { plan_next(); t = ready_other(); }
  if( t >= 0 && t != cur ) { record( t ); switch_to( t ); }
}

/* the running fiber cannot go on: choose another, lowest first under replay */
static int choose_ready( void )
{
  if( S->schedMode == 2 && !S->replaySched ) return best_prio();
  int c[MAXT], n = 0;
  for( int i = 0 ; i < teamSize ; i++ ) if( fib[i].state == F_READY ) c[n++] = i;
  if( !n ) return -1;
  if( S->replaySched )
  {
    /* a forced switch is part of the schedule too */
    while( replayPos < S->nswPlan && S->swPlan[replayPos].at < accs ) replayPos++;
    if( replayPos < S->nswPlan && S->swPlan[replayPos].at == accs )
    {
      int t = S->swPlan[replayPos].to;
      if( t < teamSize && fib[t].state == F_READY ) { replayPos++; return t; }
    }
    return c[0];
  }
  return c[ rng_next( &rng ) % n ];
}

static void block_here( int st )
{
  fib[cur].state = st;
  accs++;
  int t = choose_ready();
  if( t < 0 )
  {
    if( st == F_DONE ) { int f = cur; cur = -1; tls_to( 0 ); fswitch( &fib[f].sp , mainSp ); abort(); }
    sim_finish( K_HUNG , 77 );            /* a deadlock of the team */
  }
  record( t ); switch_to( t );
}

static void fiber_main( void )
{
  teamFn( teamData );
  block_here( F_DONE );
  abort();
}

static int team_size( unsigned want )
{
  int n = want ? (int) want : reqThreads > 0 ? reqThreads : S->teamMax;
  if( n > MAXT ) n = MAXT;
  if( n < 1 ) n = 1;
  if( S->teamMode == 1 && !S->replaySched ) {}                       /* a run time may give fewer threads than asked for */
  if( S->teamMode == 1 ) { static uint64_t tr; static int init; if( !init ) { tr = S->seed * 13 + 7; init = 1; } if( n > 1 && rng_next( &tr ) % 3 == 0 ) n = 1 + rng_next( &tr ) % n; }
  return n;
}

void GOMP_parallel( void (*fn)( void * ) , void *data , unsigned n , unsigned flags )
{
  (void) flags;
  Proc *P = &S->proc[me];
  if( inPar ) { fn( data ); return; }
  int T = team_size( n );
  P->regions++;
  if( (uint64_t) T > P->maxteam ) P->maxteam = T;
  sim_mix( 0x4000 + T );
  if( !shadow ) shadow = mmap( NULL , SHN * sizeof( Shadow ) , PROT_READ | PROT_WRITE , MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE , -1 , 0 );
  epoch++; singleNext = 0; memset( singleGen , 0 , sizeof singleGen );
  teamFn = fn; teamData = data; teamSize = T; atBarrier = 0;
  static int seeded; if( !seeded ) { rng = S->seed * 0x9e3779b97f4a7c15ULL + 99; seeded = 1; if( !S->replaySched ) plan_next(); else nextPre = S->nswPlan ? S->swPlan[0].at : UINT64_MAX; }
  for( int i = 0 ; i < T ; i++ )
  {
    if( !fstk[i] ) fstk[i] = mmap( (void *)( 0x280000000000ULL + (uint64_t) i * FSTK * 2 ) , FSTK , PROT_READ | PROT_WRITE , MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE , -1 , 0 );
    uint64_t *sp = (uint64_t *)( fstk[i] + FSTK - 256 );
    *--sp = 0; *--sp = (uint64_t) fiber_main;       /* return address; stack misaligned by 8 as after a call */
    for( int k = 0 ; k < 6 ; k++ ) *--sp = 0;
    fib[i].sp = sp; fib[i].state = F_READY; prio[i] = (int)( rng_next( &rng ) & 0xffff ) + 1;
  }
  if( !tlsLive ) dl_iterate_phdr( tls_find , NULL );
  inPar = 1;
  accs++;
  int f = choose_ready();
  cur = f; record( f );
  tls_to( f );
  fswitch( &mainSp , fib[f].sp );
  inPar = 0; teamSize = 1; cur = 0;
}

void GOMP_barrier( void )
{
  if( !inPar ) return;
  atBarrier++;
  int live = 0;
  for( int i = 0 ; i < teamSize ; i++ ) if( fib[i].state != F_DONE ) live++;
  if( atBarrier == live )
  {
    atBarrier = 0;
    epoch++;
    for( int i = 0 ; i < teamSize ; i++ ) if( fib[i].state == F_BARRIER ) fib[i].state = F_READY;
    nextPre = S->replaySched ? nextPre : accs;       /* who leaves first is open */
    return;
  }
  block_here( F_BARRIER );
}

/* ---- work sharing */
static struct { int active; long no; long next, end, incr, chunk, ord; int kind; } W[256];   /* by loop number in the region, modulo */
static long wIdx[MAXT], wCur[MAXT];        /* loop number of a thread; where the chunk it is in starts */
static int wIn[MAXT], wHas[MAXT];

static void ws_reset_if_new( void ) { static uint64_t reg; if( reg != S->proc[me].regions ) { reg = S->proc[me].regions; memset( W , 0 , sizeof W ); memset( wIdx , 0 , sizeof wIdx ); memset( wIn , 0 , sizeof wIn ); memset( wHas , 0 , sizeof wHas ); } }

static void wait_for( long *what , long value )
{
  while( *what != value ) { fib[cur].state = F_READY; accs++; int t = ready_other(); if( t < 0 ) sim_finish( K_HUNG , 78 ); record( t ); switch_to( t ); }
}

#define KIND_ORDERED 4
static void chunk_done( void )              /* the iterations of an ordered loop end in their order */
{
  int k = wIdx[cur] % 256;
  if( wHas[cur] && ( W[k].kind & KIND_ORDERED ) ) { wait_for( &W[k].ord , wCur[cur] ); W[k].ord += W[k].incr; }
  wHas[cur] = 0;
}

static bool loop_next( long *is , long *ie )
{
  int k = wIdx[cur] % 256;
  chunk_done();
  if( W[k].incr > 0 ? W[k].next >= W[k].end : W[k].next <= W[k].end ) return false;
  long left = ( W[k].end - W[k].next ) / W[k].incr;
  if( left < 1 ) left = 1;
  long c = W[k].chunk > 0 ? W[k].chunk : 1;
  if( W[k].kind == 2 ) { long g = left / ( 2 * teamSize ); if( g > c ) c = g; }
  if( W[k].kind & KIND_ORDERED ) c = 1;
  long lo = W[k].next, hi = lo + c * W[k].incr;
  if( W[k].incr > 0 ? hi > W[k].end : hi < W[k].end ) hi = W[k].end;
  W[k].next = hi; *is = lo; *ie = hi;
  wCur[cur] = lo; wHas[cur] = 1;
  return true;
}

static void loop_enter( long a , long b , long inc , long chunk , int kind )
{
  ws_reset_if_new();
  if( wIn[cur] ) wIdx[cur]++;
  wIn[cur] = 1; wHas[cur] = 0;
  int k = wIdx[cur] % 256;
  if( !W[k].active || W[k].no != wIdx[cur] ) { W[k].active = 1; W[k].no = wIdx[cur]; W[k].next = W[k].ord = a; W[k].end = b; W[k].incr = inc ? inc : 1; W[k].chunk = chunk; W[k].kind = kind; }
}
static bool loop_start( long a , long b , long inc , long chunk , int kind , long *is , long *ie ) { loop_enter( a , b , inc , chunk , kind ); return loop_next( is , ie ); }
static void loop_end( void ) { chunk_done(); wIn[cur] = 0; wIdx[cur]++; }

#define LOOPK( nm , kind ) \
  bool GOMP_loop_##nm##_start( long a , long b , long i , long c , long *s , long *e ) { return loop_start( a , b , i , c , kind , s , e ); } \
  bool GOMP_loop_##nm##_next( long *s , long *e ) { return loop_next( s , e ); } \
  void GOMP_parallel_loop_##nm( void (*fn)( void * ) , void *d , unsigned n , long a , long b , long i , long c , unsigned fl ) ;
LOOPK( ordered_static , 1 | KIND_ORDERED ) LOOPK( ordered_dynamic , 1 | KIND_ORDERED ) LOOPK( ordered_guided , 1 | KIND_ORDERED )
LOOPK( static , 1 ) LOOPK( dynamic , 1 ) LOOPK( guided , 2 ) LOOPK( nonmonotonic_dynamic , 1 ) LOOPK( nonmonotonic_guided , 2 )
static long plA, plB, plI, plC; static int plK, plOn;
static void (*plFn)( void * );
static void pl_thunk( void *d ) { loop_enter( plA , plB , plI , plC , plK ); plFn( d ); }
static void par_loop( void (*fn)( void * ) , void *d , unsigned n , long a , long b , long i , long c , int k ) { plA = a; plB = b; plI = i; plC = c; plK = k; plFn = fn; plOn = 1; GOMP_parallel( pl_thunk , d , n , 0 ); }
#define PLOOP( nm , k ) void GOMP_parallel_loop_##nm( void (*fn)( void * ) , void *d , unsigned n , long a , long b , long i , long c , unsigned fl ) { (void) fl; par_loop( fn , d , n , a , b , i , c , k ); }
PLOOP( static , 1 ) PLOOP( dynamic , 1 ) PLOOP( guided , 2 ) PLOOP( nonmonotonic_dynamic , 1 ) PLOOP( nonmonotonic_guided , 2 )
bool GOMP_loop_runtime_start( long a , long b , long i , long *s , long *e ) { return loop_start( a , b , i , 1 , 1 , s , e ); }
bool GOMP_loop_runtime_next( long *s , long *e ) { return loop_next( s , e ); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start( long a , long b , long i , long *s , long *e ) { return loop_start( a , b , i , 1 , 1 , s , e ); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next( long *s , long *e ) { return loop_next( s , e ); }
void GOMP_parallel_loop_runtime( void (*fn)( void * ) , void *d , unsigned n , long a , long b , long i , unsigned fl ) { (void) fl; par_loop( fn , d , n , a , b , i , 1 , 1 ); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime( void (*fn)( void * ) , void *d , unsigned n , long a , long b , long i , unsigned fl ) { (void) fl; par_loop( fn , d , n , a , b , i , 1 , 1 ); }
bool GOMP_loop_ordered_runtime_start( long a , long b , long i , long *s , long *e ) { return loop_start( a , b , i , 1 , 1 | KIND_ORDERED , s , e ); }
bool GOMP_loop_ordered_runtime_next( long *s , long *e ) { return loop_next( s , e ); }
void GOMP_loop_end( void ) { loop_end(); GOMP_barrier(); }
void GOMP_loop_end_nowait( void ) { loop_end(); }
typedef unsigned long long ull;
#define LOOPU( nm , kind ) \
  bool GOMP_loop_ull_##nm##_start( bool up , ull a , ull b , ull i , ull c , ull *s , ull *e ) { (void) up; return loop_start( a , b , i , c , kind , (long *) s , (long *) e ); } \
  bool GOMP_loop_ull_##nm##_next( ull *s , ull *e ) { return loop_next( (long *) s , (long *) e ); }
LOOPU( static , 1 ) LOOPU( dynamic , 1 ) LOOPU( guided , 2 ) LOOPU( nonmonotonic_dynamic , 1 ) LOOPU( nonmonotonic_guided , 2 )
LOOPU( ordered_static , 1 | KIND_ORDERED ) LOOPU( ordered_dynamic , 1 | KIND_ORDERED ) LOOPU( ordered_guided , 1 | KIND_ORDERED )
#define LOOPUR( nm , kind ) \
  bool GOMP_loop_ull_##nm##_start( bool up , ull a , ull b , ull i , ull *s , ull *e ) { (void) up; return loop_start( a , b , i , 1 , kind , (long *) s , (long *) e ); } \
  bool GOMP_loop_ull_##nm##_next( ull *s , ull *e ) { return loop_next( (long *) s , (long *) e ); }
LOOPUR( runtime , 1 ) LOOPUR( maybe_nonmonotonic_runtime , 1 ) LOOPUR( nonmonotonic_runtime , 1 ) LOOPUR( ordered_runtime , 1 | KIND_ORDERED )
bool GOMP_loop_nonmonotonic_runtime_start( long a , long b , long i , long *s , long *e ) { return loop_start( a , b , i , 1 , 1 , s , e ); }
bool GOMP_loop_nonmonotonic_runtime_next( long *s , long *e ) { return loop_next( s , e ); }
void GOMP_parallel_loop_nonmonotonic_runtime( void (*fn)( void * ) , void *d , unsigned n , long a , long b , long i , unsigned fl ) { (void) fl; par_loop( fn , d , n , a , b , i , 1 , 1 ); }

unsigned GOMP_sections_start( unsigned n ) { long s, e; return loop_start( 1 , (long) n + 1 , 1 , 1 , 1 , &s , &e ) ? (unsigned) s : 0; }
unsigned GOMP_sections_next( void ) { long s, e; return loop_next( &s , &e ) ? (unsigned) s : 0; }
void GOMP_sections_end( void ) { loop_end(); GOMP_barrier(); }
void GOMP_sections_end_nowait( void ) { loop_end(); }
void GOMP_parallel_sections( void (*fn)( void * ) , void *d , unsigned n , unsigned cnt , unsigned fl ) { (void) fl; par_loop( fn , d , n , 1 , (long) cnt + 1 , 1 , 1 , 1 ); }

bool GOMP_single_start( void ) { if( !inPar ) return true; int g = singleGen[cur]++; if( g == singleNext ) { singleNext++; return true; } return false; }

static void *copyData;
void *GOMP_single_copy_start( void ) { if( GOMP_single_start() ) return NULL; GOMP_barrier(); void *d = copyData; return d; }
void GOMP_single_copy_end( void *d ) { copyData = d; GOMP_barrier(); }

/* ---- locks */
static int critOwner = -1, critDepth, atomOwner = -1;
static void lock_acquire( int *own ) { while( *own >= 0 && *own != cur ) { fib[cur].state = F_READY; accs++; int t = ready_other(); if( t < 0 ) sim_finish( K_HUNG , 78 ); record( t ); switch_to( t ); } *own = cur; }
static void lock_release( int *own ) { *own = -1; }
void GOMP_critical_start( void ) { if( inPar ) lock_acquire( &critOwner ); }
void GOMP_critical_end( void ) { if( inPar ) lock_release( &critOwner ); (void) critDepth; }
void GOMP_critical_name_start( void **p ) { (void) p; GOMP_critical_start(); }
void GOMP_critical_name_end( void **p ) { (void) p; GOMP_critical_end(); }
void GOMP_atomic_start( void ) { if( inPar ) lock_acquire( &atomOwner ); }
void GOMP_atomic_end( void ) { if( inPar ) lock_release( &atomOwner ); }
void GOMP_ordered_start( void ) { int k = wIdx[cur] % 256; if( inPar && wHas[cur] && ( W[k].kind & KIND_ORDERED ) ) wait_for( &W[k].ord , wCur[cur] ); }
void GOMP_ordered_end( void ) {}
void GOMP_task( void (*fn)( void * ) , void *d , void (*cpy)( void * , void * ) , long sz , long al , bool iff , unsigned fl , void **dep , int pr , void *det )
{
  (void) iff; (void) fl; (void) dep; (void) pr; (void) det;
  if( cpy ) { char *b = malloc( sz + al ); char *p = (char *)( ( (uintptr_t) b + al - 1 ) & ~(uintptr_t)( al - 1 ) ); cpy( p , d ); fn( p ); free( b ); } else fn( d );
}
void GOMP_taskloop( void (*fn)( void * ) , void *d , void (*cpy)( void * , void * ) , long sz , long al , unsigned fl , unsigned long nt , int pr , long a , long b , long st )
{
  (void) fl; (void) nt; (void) pr; (void) st;           /* one task with all iterations */
  if( a == b ) return;
  char *m = malloc( sz + al ); char *p = (char *)( ( (uintptr_t) m + al - 1 ) & ~(uintptr_t)( al - 1 ) );
  if( cpy ) cpy( p , d ); else memcpy( p , d , sz );
  ((long *) p)[0] = a; ((long *) p)[1] = b;
  fn( p ); free( m );
}
void GOMP_taskwait( void ) {}
void GOMP_taskyield( void ) {}
void GOMP_taskgroup_start( void ) {}
void GOMP_taskgroup_end( void ) {}

int omp_get_num_threads( void ) { return inPar ? teamSize : 1; }
int omp_get_thread_num( void ) { return inPar ? cur : 0; }
int omp_get_max_threads( void ) { return reqThreads > 0 ? reqThreads : S->teamMax; }
int omp_get_num_procs( void ) { return S->teamMax; }
int omp_in_parallel( void ) { return inPar; }
int omp_get_level( void ) { return inPar; }
int omp_get_thread_limit( void ) { return MAXT; }
void omp_set_num_threads( int n ) { reqThreads = n; }
void omp_set_dynamic( int d ) { (void) d; }
int omp_get_dynamic( void ) { return 0; }
void omp_set_nested( int d ) { (void) d; }
void omp_set_schedule( int k , int c ) { (void) k; (void) c; }
typedef struct { int own; } olock;
void omp_init_lock( olock *l ) { l->own = -1; }
int omp_test_lock( olock *l ) { if( l->own >= 0 ) return 0; l->own = cur; return 1; }
typedef struct { int own, depth; } onest;
void omp_init_nest_lock( onest *l ) { l->own = -1; l->depth = 0; }
void omp_destroy_nest_lock( onest *l ) { (void) l; }
void omp_set_nest_lock( onest *l ) { if( inPar ) lock_acquire( &l->own ); l->depth++; }
void omp_unset_nest_lock( onest *l ) { if( --l->depth <= 0 ) l->own = -1; }
int omp_test_nest_lock( onest *l ) { if( l->own >= 0 && l->own != cur ) return 0; l->own = cur; return ++l->depth; }
int omp_get_active_level( void ) { return inPar ? 1 : 0; }
int omp_get_ancestor_thread_num( int l ) { return l <= 0 ? 0 : l == 1 && inPar ? cur : -1; }
int omp_get_team_size( int l ) { return l <= 0 ? 1 : l == 1 && inPar ? teamSize : -1; }
int omp_get_cancellation( void ) { return 0; }
int omp_get_max_active_levels( void ) { return 1; }
void omp_set_max_active_levels( int n ) { (void) n; }
int omp_get_nested( void ) { return 0; }
int omp_get_num_places( void ) { return 0; }
int omp_get_place_num( void ) { return -1; }
int omp_get_proc_bind( void ) { return 0; }
int omp_get_num_teams( void ) { return 1; }
int omp_get_team_num( void ) { return 0; }
int omp_in_final( void ) { return 0; }
double omp_get_wtick( void ) { return 1e-9; }
void omp_get_schedule( int *k , int *c ) { *k = 1; *c = 0; }
void omp_destroy_lock( olock *l ) { (void) l; }
void omp_set_lock( olock *l ) { if( inPar ) lock_acquire( &l->own ); }
void omp_unset_lock( olock *l ) { l->own = -1; }

/* ---------------------------------------------------------------- memory accesses */

static inline __attribute__((always_inline)) void acc( uintptr_t a , int size , int wr )
{
  if( !sim_running ) return;
  if( --sim_ctr < 0 ) { sim_ctr = 0; sim_tick_slow(); sim_ctr--; }
  if( !inPar ) return;
  accs++;
  if( teamSize > 1 )
  {
    int hit = 0;
    for( uintptr_t k = a >> 2 ; k <= ( a + size - 1 ) >> 2 ; k++ )
    {
      Shadow *s = &shadow[( k * 0x9e3779b97f4a7c15ULL ) >> 46];
      if( s->key == k && s->ep == (uint32_t) epoch )
      {
        if( s->tid != cur && ( wr || s->wr ) ) { hit = 1; if( s->hot < 60000 ) s->hot++; }
        else if( s->hot ) hit |= 2;
        if( wr || s->tid != cur ) { s->wr = wr | ( s->wr && s->tid == cur ); s->tid = cur; }
      }
      else { if( s->key != k ) s->hot = 0; else if( s->hot ) hit |= 2; s->key = k; s->ep = epoch; s->tid = cur; s->wr = wr; }
    }
    if( hit & 1 ) S->proc[me].conflicts++;
    if( hit && !S->replaySched && S->hotProb && (int)( rng_next( &rng ) % 100 ) < S->hotProb ) { int t = ready_other(); if( t >= 0 ) { record( t ); switch_to( t ); return; } }
  }
  if( accs >= nextPre ) preempt();
}

void __tsan_init( void ) {}
void __tsan_func_entry( void *p ) { (void) p; }
void __tsan_func_exit( void ) {}
#define RW( n ) \
  void __tsan_read##n( void *p ) { acc( (uintptr_t) p , n , 0 ); } \
  void __tsan_write##n( void *p ) { acc( (uintptr_t) p , n , 1 ); } \
  void __tsan_unaligned_read##n( void *p ) { acc( (uintptr_t) p , n , 0 ); } \
  void __tsan_unaligned_write##n( void *p ) { acc( (uintptr_t) p , n , 1 ); } \
  void __tsan_volatile_read##n( void *p ) { acc( (uintptr_t) p , n , 0 ); } \
  void __tsan_volatile_write##n( void *p ) { acc( (uintptr_t) p , n , 1 ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_read_range( void *p , long n ) { acc( (uintptr_t) p , n > 64 ? 64 : n < 1 ? 1 : (int) n , 0 ); }
void __tsan_write_range( void *p , long n ) { acc( (uintptr_t) p , n > 64 ? 64 : n < 1 ? 1 : (int) n , 1 ); }
#define ATOM( b , T ) \
  T __tsan_atomic##b##_load( const volatile T *p , int o ) { (void) o; acc( (uintptr_t) p , sizeof( T ) , 0 ); return *p; } \
  void __tsan_atomic##b##_store( volatile T *p , T v , int o ) { (void) o; acc( (uintptr_t) p , sizeof( T ) , 1 ); *p = v; } \
  T __tsan_atomic##b##_exchange( volatile T *p , T v , int o ) { (void) o; acc( (uintptr_t) p , sizeof( T ) , 1 ); T r = *p; *p = v; return r; } \
  T __tsan_atomic##b##_fetch_add( volatile T *p , T v , int o ) { (void) o; acc( (uintptr_t) p , sizeof( T ) , 1 ); T r = *p; *p = r + v; return r; } \
  T __tsan_atomic##b##_fetch_sub( volatile T *p , T v , int o ) { (void) o; acc( (uintptr_t) p , sizeof( T ) , 1 ); T r = *p; *p = r - v; return r; } \
  T __tsan_atomic##b##_fetch_or( volatile T *p , T v , int o ) { (void) o; acc( (uintptr_t) p , sizeof( T ) , 1 ); T r = *p; *p = r | v; return r; } \
  T __tsan_atomic##b##_fetch_and( volatile T *p , T v , int o ) { (void) o; acc( (uintptr_t) p , sizeof( T ) , 1 ); T r = *p; *p = r & v; return r; } \
  int __tsan_atomic##b##_compare_exchange_strong( volatile T *p , T *e , T v , int o , int o2 ) { (void) o; (void) o2; acc( (uintptr_t) p , sizeof( T ) , 1 ); if( *p == *e ) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak( volatile T *p , T *e , T v , int o , int o2 ) { return __tsan_atomic##b##_compare_exchange_strong( p , e , v , o , o2 ); } \
  T __tsan_atomic##b##_compare_exchange_val( volatile T *p , T e , T v , int o , int o2 ) { __tsan_atomic##b##_compare_exchange_strong( p , &e , v , o , o2 ); return e; }
ATOM( 8 , uint8_t ) ATOM( 16 , uint16_t ) ATOM( 32 , uint32_t ) ATOM( 64 , uint64_t )
void __tsan_atomic_thread_fence( int o ) { (void) o; }
void *__tsan_memcpy( void *d , const void *s , size_t n ) { return memcpy( d , s , n ); }
void *__tsan_memset( void *d , int c , size_t n ) { return memset( d , c , n ); }
void *__tsan_memmove( void *d , const void *s , size_t n ) { return memmove( d , s , n ); }
