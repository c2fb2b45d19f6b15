/*
 * Deterministic simulator host.
 *
 * The program under test (all object files of one executable, with main()
 * renamed to target_main and its libc seams renamed to sim_*) is linked into
 * this process.  One request on stdin describes one simulated world: initial
 * disk, one to four processes, an explicit fault list, a clock, an allocator
 * personality and a schedule.  The world is run in forked children against the
 * simulated disk in shared memory, and the complete outcome is written back.
 * Nothing the target can observe comes from outside the request.
 */
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/statvfs.h>
#include <dirent.h>
#include <fnmatch.h>
#include <glob.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>
#include <math.h>

Shm *S;
uint8_t *disk;
int me = 0;
int64_t sim_ctr = INT64_MAX;
int sim_running = 0;
static uint64_t stop_at = 0;
static uint64_t next_yield = UINT64_MAX;

FILE *sim_stdout, *sim_stderr, *sim_stdin;

/* ---------------------------------------------------------------- PRNG, hash */

uint64_t rng_next( uint64_t *s )
{
  uint64_t z = ( *s += 0x9e3779b97f4a7c15ULL );
  z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ULL;
  z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebULL;
  return z ^ ( z >> 31 );
}

void sim_mix( uint64_t v )
{
  S->hash = ( S->hash ^ v ) * 0x100000001b3ULL;
  S->hash ^= S->hash >> 29;
}

static uint64_t hash_bytes( const void *p , size_t n )
{
  const uint8_t *b = p; uint64_t h = 0xcbf29ce484222325ULL;
  for( size_t i = 0 ; i < n ; i++ ) h = ( h ^ b[i] ) * 0x100000001b3ULL;
  return h;
}

/* ---------------------------------------------------------------- ticks */

uint64_t sim_edges( void ) { return stop_at - (uint64_t) sim_ctr; }

void sim_event( int type , int ino , int res , int64_t a )
{
  sim_mix( ( (uint64_t) type << 56 ) ^ ( (uint64_t)(uint16_t) ino << 40 ) ^ ( (uint64_t)(uint32_t) res << 8 ) ^ (uint64_t) me );
  sim_mix( (uint64_t) a );
  sim_mix( sim_edges() );
  S->evTotal++;
  if( S->nev < MAXEV )
  {
    Event *e = &S->ev[S->nev++];
    e->type = type; e->proc = me; e->ino = ino; e->res = res; e->a = a; e->edge = sim_edges();
  }
}

void sim_ctr_resync( void )
{
  uint64_t now = sim_edges(), stop = S->fuel;
  for( int i = 0 ; i < S->nfault ; i++ )
  {
    Fault *f = &S->fault[i];
    if( f->op == OP_EDGE && f->proc == me && !f->fired && (uint64_t) f->nth < stop ) stop = f->nth;
  }
  if( next_yield < stop ) stop = next_yield;
  if( stop < now ) stop = now;
  stop_at = stop; sim_ctr = (int64_t)( stop - now );
}

static void yield_point( void );

void sim_tick_slow( void )
{
  if( !sim_running ) { sim_ctr = INT64_MAX; return; }
  uint64_t now = sim_edges();
  for( int i = 0 ; i < S->nfault ; i++ )
  {
    Fault *f = &S->fault[i];
    if( f->op == OP_EDGE && f->proc == me && !f->fired && (uint64_t) f->nth <= now )
    {
      f->fired++; f->seen++;
      sim_event( OP_FAULT , 0 , i , 0 );
      sim_finish( K_CRASHED , 137 );
    }
  }
  if( now >= S->fuel ) sim_finish( K_FUEL , 0 );
  if( now >= next_yield ) { next_yield = now + 1 + rng_next( &S->yieldRng ) % ( 2 * S->yieldEdges ); yield_point(); }
  sim_ctr_resync();
  if( sim_ctr <= 0 ) { stop_at++; sim_ctr++; }
}

__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc( void )
{
  uintptr_t pc = (uintptr_t) __builtin_return_address( 0 );
  if( !sim_running ) return;
  if( --sim_ctr < 0 ) { sim_ctr = 0; sim_tick_slow(); sim_ctr--; }
  S->cov[ ( pc ^ ( pc >> 16 ) ) & ( COVSZ - 1 )] = 1;
}

/* ---------------------------------------------------------------- processes taking turns */

static void futex_wait( volatile int *p , int v ) { syscall( SYS_futex , p , FUTEX_WAIT , v , NULL , NULL , 0 ); }
static void futex_wake( volatile int *p ) { syscall( SYS_futex , p , FUTEX_WAKE , 100 , NULL , NULL , 0 ); }

static int pick_next( void )
{
  int cand[MAXPROC], n = 0;
  for( int i = 0 ; i < S->nproc ; i++ ) if( S->alive[i] ) cand[n++] = i;
  if( n == 0 ) return -1;
  if( n == 1 ) return cand[0];
  return cand[ rng_next( &S->yieldRng ) % n ];
}

static void wait_turn( void )
{
  int t, e = errno;
  while( ( t = __atomic_load_n( &S->turn , __ATOMIC_SEQ_CST ) ) != me ) futex_wait( &S->turn , t );
  errno = e;                                     /* a wait must not show in the program's errno */
}
static void give_turn( int n ) { int e = errno; __atomic_store_n( &S->turn , n , __ATOMIC_SEQ_CST ); futex_wake( &S->turn ); errno = e; }

static void yield_point( void )
{
  if( S->nproc < 2 || !sim_running ) return;
  int n = pick_next();
  sim_mix( 0x7157 + n );
  if( n == me || n < 0 ) return;
  S->nyield++;
  give_turn( n );
  wait_turn();
}

/* ---------------------------------------------------------------- faults */

static Fault *match_fault( int op , const char *path )
{
  Fault *hit = NULL;
  for( int i = 0 ; i < S->nfault ; i++ )
  {
    Fault *f = &S->fault[i];
    if( f->op != op || f->proc != me ) continue;
    if( path )
    {
      char c0 = f->path[0];
      if( c0 == 0 || c0 == '*' || c0 == '!' )     /* a pattern: any file of the disk (but the one named after '!') */
      {
        if( path[0] == '<' ) continue;
        if( c0 == '!' && strcmp( f->path + 1 , path ) == 0 ) continue;
      }
      else if( strcmp( f->path , path ) != 0 ) continue;
    }
    int64_t k = f->seen++;
    if( !hit && ( k == f->nth || ( f->sticky && k > f->nth ) ) ) hit = f;
  }
  if( hit )
  {
    hit->fired++;
    sim_event( OP_FAULT , 0 , (int)( hit - S->fault ) , 0 );
  }
  return hit;
}

/* ---------------------------------------------------------------- simulated disk */

typedef struct { int used, ino, append, canRead, canWrite; int64_t pos; char path[MAXPATHLEN]; FILE *fp; char *buf; } Handle;
static Handle H[MAXHANDLE];

static void simerr( const char *why ) { (void) why; sim_finish( K_SIMERR , 99 ); }

static void norm_path( const char *in , char *out )
{
  char tmp[2*MAXPATHLEN+2];
  if( in[0] == '<' ) { snprintf( out , MAXPATHLEN , "%s" , in ); return; }
  if( in[0] == '/' ) snprintf( tmp , sizeof tmp , "%s" , in );
  else snprintf( tmp , sizeof tmp , "%s/%s" , S->proc[me].cwd , in );
  char *seg[64]; int n = 0; char *save = NULL;
  for( char *t = strtok_r( tmp , "/" , &save ) ; t ; t = strtok_r( NULL , "/" , &save ) )
  {
    if( strcmp( t , "." ) == 0 ) continue;
    if( strcmp( t , ".." ) == 0 ) { if( n ) n--; continue; }
    if( n < 64 ) seg[n++] = t;
  }
  size_t o = 0; out[0] = 0;
  for( int i = 0 ; i < n ; i++ ) o += snprintf( out + o , o < MAXPATHLEN ? MAXPATHLEN - o : 0 , "/%s" , seg[i] );
  if( o == 0 ) strcpy( out , "/" );
}

static double clk_peek( void );
static void drop_locks( int ino , int h );

static int find_name( const char *p )
{
  for( int i = 0 ; i < S->nname ; i++ ) if( S->name[i].ino >= 0 && strcmp( S->name[i].path , p ) == 0 ) return i;
  return -1;
}

static int new_inode( void )
{
  if( S->nino >= MAXINODE ) { if( sim_running ) simerr( "inodes" ); return -1; }
  int i = S->nino++;
  Inode *n = &S->ino[i];
  n->size = 0; n->used = 1; n->nlink = 1; n->written = 0; n->readonly_ = 0; n->created = 0; n->isdir = 0;
  n->mtime = sim_running ? clk_peek() : S->clockBase - 100000 + (double)( ( S->seed * 7919u + (uint64_t) i * 104729u ) % 99000 );
  return i;
}

static int add_name( const char *p , int ino )
{
  int k = -1;
  for( int i = 0 ; i < S->nname ; i++ ) if( S->name[i].ino < 0 ) { k = i; break; }
  if( k < 0 ) { if( S->nname >= MAXNAME ) { if( sim_running ) simerr( "names" ); return -1; } k = S->nname++; }
  snprintf( S->name[k].path , MAXPATHLEN , "%s" , p );
  S->name[k].ino = ino;
  return k;
}

static int dir_exists( const char *p )   /* parent directory of p */
{
  char d[MAXPATHLEN]; snprintf( d , sizeof d , "%s" , p );
  char *s = strrchr( d , '/' );
  if( !s || s == d ) return 1;
  *s = 0;
  if( strcmp( d , "/tmp" ) == 0 || strcmp( d , "/var/tmp" ) == 0 ) return 1;
  for( int i = 0 ; i < S->nproc ; i++ )
  {
    size_t l = strlen( d );
    if( strncmp( S->proc[i].cwd , d , l ) == 0 && ( S->proc[i].cwd[l] == 0 || S->proc[i].cwd[l] == '/' ) ) return 1;
  }
  int n = find_name( d );
  if( n >= 0 ) return S->ino[S->name[n].ino].isdir;
  size_t l = strlen( d );
  for( int i = 0 ; i < S->nname ; i++ )
    if( S->name[i].ino >= 0 && strncmp( S->name[i].path , d , l ) == 0 && S->name[i].path[l] == '/' ) return 1;
  return 0;
}

static uint8_t *ino_byte( Inode *n , int64_t pos )   /* chunk holding pos, must exist */
{
  return disk + (size_t) n->chunk[pos / CHUNK] * CHUNK + pos % CHUNK;
}

static void ino_grow( Inode *n , int64_t size )
{
  int64_t have = ( n->size + CHUNK - 1 ) / CHUNK, want = ( size + CHUNK - 1 ) / CHUNK;
  if( want > INOCHUNK || S->nextChunk + ( want > have ? want - have : 0 ) > NCHUNK ) simerr( "disk pool" );
  while( have < want ) { n->chunk[have] = S->nextChunk++; memset( disk + (size_t) n->chunk[have] * CHUNK , 0 , CHUNK ); have++; }
  if( size > n->size ) n->size = size;
}

static void ino_write( Inode *n , int64_t pos , const uint8_t *b , int64_t len )
{
  if( len <= 0 ) return;
  if( pos + len > n->size ) ino_grow( n , pos + len );
  while( len > 0 )
  {
    int64_t k = CHUNK - pos % CHUNK; if( k > len ) k = len;
    memcpy( ino_byte( n , pos ) , b , k ); pos += k; b += k; len -= k;
  }
}

static void ino_read( Inode *n , int64_t pos , uint8_t *b , int64_t len )
{
  while( len > 0 )
  {
    int64_t k = CHUNK - pos % CHUNK; if( k > len ) k = len;
    memcpy( b , ino_byte( n , pos ) , k ); pos += k; b += k; len -= k;
  }
}

static int sys_open( const char *path , int flags )
{
  char p[MAXPATHLEN]; norm_path( path , p );
  yield_point();
  S->proc[me].nio++;
  int wr = ( flags & O_ACCMODE ) != O_RDONLY;
  Fault *f = match_fault( OP_OPEN , p );
  if( f )
  {
    if( f->action == A_CRASH ) sim_finish( K_CRASHED , 137 );
    if( f->action == A_ERR ) { sim_event( OP_OPEN , 0 , -f->err , wr ); errno = f->err; return -1; }
  }
  int n = find_name( p ), ino;
  if( n < 0 )
  {
    if( !( flags & O_CREAT ) ) { sim_event( OP_OPEN , 0 , -ENOENT , wr ); errno = ENOENT; return -1; }
    if( !dir_exists( p ) ) { sim_event( OP_OPEN , 0 , -ENOENT , wr ); errno = ENOENT; return -1; }
    if( S->diskCap == 0 && p[0] != '<' ) { sim_event( OP_OPEN , 0 , -ENOSPC , wr ); errno = ENOSPC; return -1; }
    ino = new_inode(); add_name( p , ino ); S->ino[ino].created = 1;
  }
  else
  {
    ino = S->name[n].ino;
    if( ( flags & O_CREAT ) && ( flags & O_EXCL ) ) { errno = EEXIST; return -1; }
    if( S->ino[ino].isdir && wr ) { sim_event( OP_OPEN , ino , -EISDIR , wr ); errno = EISDIR; return -1; }
    if( S->ino[ino].readonly_ && wr ) { sim_event( OP_OPEN , ino , -EACCES , wr ); errno = EACCES; return -1; }
  }
  if( wr ) S->ino[ino].written = 1;
  if( wr && ( flags & O_TRUNC ) )
  {
    if( p[0] != '<' ) S->diskUsed -= S->ino[ino].size;
    S->ino[ino].size = 0; S->ino[ino].mtime = clk_peek();
  }
  int h = 0; while( h < MAXHANDLE && H[h].used ) h++;
  if( h == MAXHANDLE ) { errno = EMFILE; return -1; }
  memset( &H[h] , 0 , sizeof H[h] );
  H[h].used = 1; H[h].ino = ino; H[h].append = !!( flags & O_APPEND );
  H[h].canRead = ( flags & O_ACCMODE ) != O_WRONLY; H[h].canWrite = wr;
  snprintf( H[h].path , MAXPATHLEN , "%s" , p );
  sim_event( OP_OPEN , ino , 0 , wr | ( ( flags & O_TRUNC ) ? 2 : 0 ) | ( ( flags & O_APPEND ) ? 4 : 0 ) );
  if( f && f->action == A_CRASHAFTER ) sim_finish( K_CRASHED , 137 );
  return h;
}

static int64_t sys_write( int h , const void *b , int64_t len )
{
  Handle *hd = &H[h]; Inode *n = &S->ino[hd->ino];
  if( !hd->canWrite ) { errno = EBADF; return -1; }
  yield_point();
  S->proc[me].nio++;
  int64_t k = len; int crash = 0;
  Fault *f = match_fault( OP_WRITE , hd->path );
  if( f )
  {
    switch( f->action )
    {
      case A_CRASH: sim_finish( K_CRASHED , 137 );
      case A_ERR: sim_event( OP_WRITE , hd->ino , -f->err , len ); errno = f->err; return -1;
      case A_SHORT: if( f->arg < k && f->arg > 0 ) k = f->arg; break;
      case A_TORNCRASH: if( f->arg < k ) k = f->arg; crash = 1; break;
      case A_CRASHAFTER: crash = 1; break;
    }
  }
  else if( S->writeChunk > 0 && k > S->writeChunk && hd->path[0] != '<' ) k = S->writeChunk;
  if( hd->append ) hd->pos = n->size;
  if( hd->path[0] != '<' && S->diskCap >= 0 )
  {
    int64_t grow = hd->pos + k - n->size; if( grow < 0 ) grow = 0;
    int64_t room = S->diskCap - S->diskUsed; if( room < 0 ) room = 0;
    if( grow > room )
    {
      k -= grow - room;
      if( k <= 0 ) { sim_event( OP_WRITE , hd->ino , -ENOSPC , len ); errno = ENOSPC; return -1; }
    }
  }
  int64_t old = n->size;
  if( hd->path[0] != '<' ) n->mtime = clk_peek();
  S->proc[me].work += (uint64_t) k;
  ino_write( n , hd->pos , b , k );
  if( hd->path[0] != '<' ) S->diskUsed += n->size - old;
  sim_event( OP_WRITE , hd->ino , (int) k , hd->pos );
  sim_mix( hash_bytes( b , k ) );
  hd->pos += k;
  if( crash ) sim_finish( K_CRASHED , 137 );
  return k;
}

static int64_t sys_read( int h , void *b , int64_t len )
{
  Handle *hd = &H[h]; Inode *n = &S->ino[hd->ino];
  if( !hd->canRead ) { errno = EBADF; return -1; }
  yield_point();
  S->proc[me].nio++;
  if( n->isdir ) { errno = EISDIR; return -1; }
  int64_t k = len;
  if( S->readChunk > 0 && k > S->readChunk ) k = S->readChunk;
  Fault *f = match_fault( OP_READ , hd->path );
  if( f )
  {
    if( f->action == A_CRASH ) sim_finish( K_CRASHED , 137 );
    if( f->action == A_ERR ) { sim_event( OP_READ , hd->ino , -f->err , len ); errno = f->err; return -1; }
    if( f->action == A_SHORT && f->arg > 0 && f->arg < k ) k = f->arg;
  }
  if( hd->pos + k > n->size ) k = n->size - hd->pos;
  if( k < 0 ) k = 0;
  S->proc[me].work += (uint64_t) k;
  ino_read( n , hd->pos , b , k );
  sim_event( OP_READ , hd->ino , (int) k , hd->pos );
  hd->pos += k;
  return k;
}

static int sys_close( int h )
{
  Handle *hd = &H[h];
  yield_point();
  S->proc[me].nio++;
  Fault *f = match_fault( OP_CLOSE , hd->path );
  hd->used = 0;
  drop_locks( hd->ino , h );
  if( f )
  {
    if( f->action == A_CRASH ) sim_finish( K_CRASHED , 137 );
    if( f->action == A_DROPERR || f->action == A_ERR )
    {
      Inode *n = &S->ino[hd->ino];
      if( f->action == A_DROPERR && hd->canWrite )   /* deferred write error: the tail never reached the server */
      {
        int64_t cut = f->arg < n->size ? f->arg : n->size;
        n->size -= cut; S->diskUsed -= cut;
      }
      sim_event( OP_CLOSE , hd->ino , -f->err , 0 );
      errno = f->err; return -1;
    }
  }
  sim_event( OP_CLOSE , hd->ino , 0 , 0 );
  return 0;
}

/* ---------------------------------------------------------------- streams on the simulated disk */

static ssize_t ck_read( void *c , char *b , size_t n ) { return sys_read( (int)(intptr_t) c , b , n ); }

static ssize_t ck_write( void *c , const char *b , size_t n )
{
  size_t done = 0;                       /* as libc: repeat after a short write, give up on an error */
  while( done < n )
  {
    int64_t r = sys_write( (int)(intptr_t) c , b + done , n - done );
    if( r < 0 ) break;
    done += r;
  }
  return done;
}

static int ck_seek( void *c , off64_t *off , int wh )
{
  Handle *hd = &H[(int)(intptr_t) c];
  int64_t p = wh == SEEK_SET ? *off : wh == SEEK_CUR ? hd->pos + *off : S->ino[hd->ino].size + *off;
  if( hd->path[0] == '<' ) { errno = ESPIPE; return -1; }
  Fault *f = match_fault( OP_SEEK , hd->path );
  if( f && f->action == A_ERR ) { errno = f->err; return -1; }
  if( p < 0 ) { errno = EINVAL; return -1; }
  hd->pos = p; *off = p;
  return 0;
}

static int ck_close( void *c ) { return sys_close( (int)(intptr_t) c ); }

static FILE *stream_on( int h , const char *mode , int bufmode , size_t bufsz )
{
  cookie_io_functions_t io = { ck_read , ck_write , ck_seek , ck_close };
  FILE *fp = fopencookie( (void *)(intptr_t) h , mode , io );
  if( !fp ) simerr( "fopencookie" );
  H[h].fp = fp;
  H[h].buf = bufsz ? malloc( bufsz ) : NULL;
  setvbuf( fp , H[h].buf , bufmode , bufsz );
  return fp;
}

static int mode_flags( const char *m )
{
  int f;
  int plus = strchr( m , '+' ) != NULL;
  switch( m[0] )
  {
    case 'r': f = plus ? O_RDWR : O_RDONLY; break;
    case 'w': f = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_TRUNC; break;
    case 'a': f = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return -1;
  }
  if( strchr( m , 'x' ) ) f |= O_EXCL;
  return f;
}

FILE *sim_fopen( const char *path , const char *mode )
{
  int fl = mode_flags( mode );
  if( fl < 0 || !path ) { errno = EINVAL; return NULL; }
  int h = sys_open( path , fl );
  if( h < 0 ) return NULL;
  char m2[8]; int k = 0;
  for( const char *c = mode ; *c && k < 6 ; c++ ) if( strchr( "rwa+b" , *c ) ) m2[k++] = *c;
  m2[k] = 0;
  return stream_on( h , m2 , _IOFBF , S->bufSize > 0 ? S->bufSize : 4096 );
}

static Handle *handle_of( FILE *fp ) { for( int i = 0 ; i < MAXHANDLE ; i++ ) if( H[i].used && H[i].fp == fp ) return &H[i]; return NULL; }

static int ms_fclose( FILE * , int * );
int sim_fclose( FILE *fp )
{
  int r;
  if( ms_fclose( fp , &r ) ) return r;
  Handle *hd = handle_of( fp );
  if( !hd ) { abort(); }              /* fclose of a stream that is not open */
  char *buf = hd->buf;
  r = fclose( fp ); int e = errno;
  free( buf );
  hd->fp = NULL; hd->used = 0;
  errno = e;
  return r;
}

FILE *sim_freopen( const char *path , const char *mode , FILE *fp )
{
  FILE *was = fp;
  if( fp ) sim_fclose( fp );
  FILE *now = path ? sim_fopen( path , mode ) : NULL;
  if( was == sim_stdout ) sim_stdout = now;
  if( was == sim_stderr ) sim_stderr = now;
  if( was == sim_stdin ) sim_stdin = now;
  return now;
}
FILE *sim_tmpfile( void ) { char n[64]; static int k; snprintf( n , sizeof n , "/tmp/simtmp%d.%d" , me , k++ ); FILE *f = sim_fopen( n , "w+" ); int i = find_name( n ); if( i >= 0 ) S->name[i].ino = -1; return f; }
FILE *sim_fdopen( int fd , const char *mode ) { int h = fd - 1000; if( h < 0 || h >= MAXHANDLE || !H[h].used ) { errno = EBADF; return NULL; } return stream_on( h , mode , _IOFBF , S->bufSize > 0 ? S->bufSize : 4096 ); }
int sim_fileno( FILE *fp ) { Handle *hd = handle_of( fp ); if( !hd ) { errno = EBADF; return -1; } return 1000 + (int)( hd - H ); }

static void flush_all( void ) { for( int i = 0 ; i < MAXHANDLE ; i++ ) if( H[i].used && H[i].fp && H[i].canWrite ) fflush( H[i].fp ); }
int sim_fflush( FILE *fp ) { if( !fp ) { flush_all(); return 0; } return fflush( fp ); }

int sim_open( const char *path , int flags , ... ) { int h = sys_open( path , flags ); return h < 0 ? -1 : 1000 + h; }
int sim_creat( const char *path , mode_t m ) { (void) m; return sim_open( path , O_CREAT | O_WRONLY | O_TRUNC ); }
#define FDH( fd ) int h = ( fd ) - 1000; if( h < 0 || h >= MAXHANDLE || !H[h].used ) { errno = EBADF; return -1; }
int sim_close( int fd ) { FDH( fd ) return sys_close( h ); }
ssize_t sim_read( int fd , void *b , size_t n ) { FDH( fd ) return sys_read( h , b , n ); }
ssize_t sim_write( int fd , const void *b , size_t n )
{
  if( fd == 1 ) return fwrite( b , 1 , n , sim_stdout );
  if( fd == 2 ) return fwrite( b , 1 , n , sim_stderr );
  FDH( fd ) return sys_write( h , b , n );
}
off_t sim_lseek( int fd , off_t o , int wh ) { FDH( fd ) off64_t x = o; return ck_seek( (void *)(intptr_t) h , &x , wh ) ? -1 : x; }
int sim_fsync( int fd ) { FDH( fd ) sim_event( OP_MISC , H[h].ino , 1 , 0 ); return 0; }
int sim_ftruncate( int fd , off_t n ) { FDH( fd ) Inode *i = &S->ino[H[h].ino]; if( n < i->size ) { S->diskUsed -= i->size - n; i->size = n; } else ino_grow( i , n ); return 0; }

static int dir_full( const char *p )
{
  size_t n = strlen( p );
  for( int i = 0 ; i < S->nname ; i++ ) if( S->name[i].ino >= 0 && !strncmp( S->name[i].path , p , n ) && S->name[i].path[n] == '/' ) return 1;
  return 0;
}
static int drop_name( const char *path , int rm )
{
  char p[MAXPATHLEN]; norm_path( path , p ); yield_point();
  Fault *f = match_fault( OP_UNLINK , p );
  if( f && f->action == A_CRASH ) sim_finish( K_CRASHED , 137 );
  int n = find_name( p ), e = 0;
  if( f && f->action == A_ERR ) e = f->err;
  else if( n < 0 ) e = ENOENT;
  else if( S->ino[S->name[n].ino].isdir ) e = !rm ? EISDIR : dir_full( p ) ? ENOTEMPTY : 0;
  sim_event( OP_UNLINK , n < 0 ? 0 : S->name[n].ino , -e , 0 );
  if( e ) { errno = e; return -1; }
  S->diskUsed -= S->ino[S->name[n].ino].size;
  S->name[n].ino = -1;
  return 0;
}
int sim_unlink( const char *p ) { return drop_name( p , 0 ); }
int sim_remove( const char *p ) { return drop_name( p , 1 ); }
int sim_rename( const char *a , const char *b )
{
  char pa[MAXPATHLEN], pb[MAXPATHLEN]; norm_path( a , pa ); norm_path( b , pb ); yield_point();
  Fault *f = match_fault( OP_RENAME , pb );
  if( f && f->action == A_CRASH ) sim_finish( K_CRASHED , 137 );
  int n = find_name( pa ), m = find_name( pb ), e = 0;
  if( f && f->action == A_ERR ) e = f->err;
  else if( n < 0 ) e = ENOENT;
  else if( m >= 0 && S->ino[S->name[m].ino].isdir && !S->ino[S->name[n].ino].isdir ) e = EISDIR;
  sim_event( OP_RENAME , n < 0 ? 0 : S->name[n].ino , -e , 0 );
  if( e ) { errno = e; return -1; }
  if( n == m ) return 0;
  int ino = S->name[n].ino;
  if( m >= 0 ) { S->diskUsed -= S->ino[S->name[m].ino].size; S->name[m].ino = -1; }
  S->name[n].ino = -1; add_name( pb , ino );
  return 0;
}
int sim_mkdir( const char *path , mode_t m )
{
  (void) m; char p[MAXPATHLEN]; norm_path( path , p );
  if( find_name( p ) >= 0 ) { errno = EEXIST; return -1; }
  int i = new_inode(); S->ino[i].isdir = 1; S->ino[i].created = 1; add_name( p , i ); return 0;
}
int sim_access( const char *path , int m ) { char p[MAXPATHLEN]; norm_path( path , p ); int n = find_name( p ); if( n < 0 ) { errno = ENOENT; return -1; } if( ( m & W_OK ) && S->ino[S->name[n].ino].readonly_ ) { errno = EACCES; return -1; } return 0; }
static void fill_stat( int ino , struct stat *st )
{
  Inode *n = &S->ino[ino]; memset( st , 0 , sizeof *st );
  st->st_size = n->size; st->st_blksize = 4096; st->st_blocks = ( n->size + 511 ) / 512; st->st_ino = ino; st->st_dev = 7; st->st_nlink = 1; st->st_uid = st->st_gid = 1000;
  st->st_mode = n->isdir ? S_IFDIR | 0755 : S_IFREG | ( n->readonly_ ? 0444 : 0644 );
  st->st_mtim.tv_sec = (time_t) floor( n->mtime ); st->st_mtim.tv_nsec = (long)( ( n->mtime - floor( n->mtime ) ) * 1e9 );
  st->st_ctim = st->st_atim = st->st_mtim;
}
int sim_stat( const char *path , struct stat *st )
{
  char p[MAXPATHLEN]; norm_path( path , p ); int n = find_name( p );
  if( n >= 0 ) { fill_stat( S->name[n].ino , st ); return 0; }
  char q[MAXPATHLEN+4]; snprintf( q , sizeof q , "%s/x" , p );
  if( dir_exists( q ) ) { memset( st , 0 , sizeof *st ); st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; st->st_dev = 7; return 0; }
  memset( st , 0 , sizeof *st ); errno = ENOENT; return -1;
}
int sim_fstat( int fd , struct stat *st ) { FDH( fd ) fill_stat( H[h].ino , st ); return 0; }

/* locks: flock belongs to the handle, fcntl to the process and the file */
static void drop_locks( int ino , int h )
{
  for( int i = 0 ; i < MAXLOCK ; i++ )
    if( S->lock[i].used && S->lock[i].proc == me && S->lock[i].ino == ino && ( S->lock[i].h == h || S->lock[i].h < 0 ) ) S->lock[i].used = 0;
}
static int lock_clash( int ino , int hk , int excl )
{
  for( int i = 0 ; i < MAXLOCK ; i++ )
    if( S->lock[i].used && S->lock[i].ino == ino && ( excl || S->lock[i].excl ) && ( S->lock[i].h < 0 ) == ( hk < 0 ) && ( S->lock[i].proc != me || ( hk >= 0 && S->lock[i].h != hk ) ) )
      return i + 1;
  return 0;
}
static int do_lock( int h , int hk , int excl , int wait )     /* hk: the handle for flock, -1 for fcntl; excl < 0: unlock */
{
  int ino = H[h].ino;
  yield_point();
  sim_event( OP_MISC , ino , 30 , excl );
  for( long k = 0 ; excl >= 0 && lock_clash( ino , hk , excl ) ; k++ )
  {
    if( !wait ) { errno = EAGAIN; return -1; }
    if( k > 200000 || S->nproc < 2 ) sim_finish( K_HUNG , 0 );
    yield_point();
  }
  for( int i = 0 ; i < MAXLOCK ; i++ ) if( S->lock[i].used && S->lock[i].proc == me && S->lock[i].ino == ino && S->lock[i].h == hk ) S->lock[i].used = 0;
  for( int i = 0 ; excl >= 0 && i < MAXLOCK ; i++ )
    if( !S->lock[i].used ) { S->lock[i].used = 1; S->lock[i].ino = ino; S->lock[i].proc = me; S->lock[i].h = hk; S->lock[i].excl = excl; break; }
  return 0;
}
int sim_flock( int fd , int op ) { FDH( fd ) return do_lock( h , h , ( op & 8 ) ? -1 : ( op & 2 ) ? 1 : 0 , !( op & 4 ) ); }
int sim_lockf( int fd , int op , off_t n )
{
  (void) n; FDH( fd )
  if( op == F_TEST ) { if( lock_clash( H[h].ino , -1 , 1 ) ) { errno = EAGAIN; return -1; } return 0; }
  return do_lock( h , -1 , op == F_ULOCK ? -1 : 1 , op == F_LOCK );
}
int sim_fcntl( int fd , int cmd , ... )
{
  FDH( fd )
  va_list a; va_start( a , cmd ); struct flock *l = va_arg( a , struct flock * ); va_end( a );
  switch( cmd )
  {
    case F_SETLK: case F_SETLKW: return do_lock( h , -1 , l->l_type == F_UNLCK ? -1 : l->l_type == F_WRLCK , cmd == F_SETLKW );
    case F_GETLK: { int c = lock_clash( H[h].ino , -1 , l->l_type == F_WRLCK ); if( !c ) l->l_type = F_UNLCK; else { l->l_type = S->lock[c-1].excl ? F_WRLCK : F_RDLCK; l->l_pid = 1000 + S->lock[c-1].proc * 7; } return 0; }
    case F_GETFL: return ( H[h].canWrite ? H[h].canRead ? O_RDWR : O_WRONLY : O_RDONLY ) | ( H[h].append ? O_APPEND : 0 );
    default: return 0;
  }
}
int sim_posix_fallocate( int fd , off_t o , off_t n )
{
  int h = fd - 1000; if( h < 0 || h >= MAXHANDLE || !H[h].used ) return EBADF;
  Inode *i = &S->ino[H[h].ino];
  if( o + n <= i->size ) return 0;
  if( S->diskCap >= 0 && S->diskUsed + ( o + n - i->size ) > S->diskCap ) return ENOSPC;
  S->diskUsed += o + n - i->size; ino_grow( i , o + n ); sim_event( OP_MISC , H[h].ino , 31 , o + n ); return 0;
}
int sim_posix_fadvise( int fd , off_t o , off_t n , int a ) { (void) fd; (void) o; (void) n; (void) a; return 0; }

/* directories */
typedef struct { char path[MAXPATHLEN]; int at; struct dirent e; char seen[64][64]; int nseen; } SimDir;
void *sim_malloc( size_t ); void sim_free( void * );
void *sim_opendir( const char *path )
{
  char q[MAXPATHLEN+4]; SimDir *d;
  char p[MAXPATHLEN]; norm_path( path , p ); snprintf( q , sizeof q , "%s/x" , p );
  yield_point(); sim_event( OP_MISC , 0 , 203 , 0 );
  if( !dir_exists( q ) ) { errno = ENOENT; return NULL; }
  if( !( d = sim_malloc( sizeof *d ) ) ) { errno = ENOMEM; return NULL; }
  memset( d , 0 , sizeof *d ); memcpy( d->path , p , sizeof p ); return d;
}
struct dirent *sim_readdir( void *v )
{
  SimDir *d = v; size_t l = strlen( d->path ); if( l == 1 ) l = 0;
  int want = d->at++;
  if( want < 2 ) { strcpy( d->e.d_name , want ? ".." : "." ); d->e.d_type = DT_DIR; d->e.d_ino = 1 + want; return &d->e; }
  int k = 2;                                     /* in an order of the seed's choice: from the front or from the back */
  for( int j = 0 ; j < S->nname ; j++ )
  {
    int i = S->seed & 1 ? S->nname - 1 - j : j;
    const char *n = S->name[i].path;
    if( S->name[i].ino < 0 || strncmp( n , d->path , l ) || n[l] != '/' || strchr( n + l + 1 , '/' ) ) continue;
    if( k++ < want ) continue;
    snprintf( d->e.d_name , sizeof d->e.d_name , "%s" , n + l + 1 );
    d->e.d_ino = S->name[i].ino; d->e.d_type = S->ino[S->name[i].ino].isdir ? DT_DIR : DT_REG;
    return &d->e;
  }
  return NULL;
}
int sim_closedir( void *d ) { sim_free( d ); return 0; }
void sim_rewinddir( void *d ) { ( (SimDir *) d )->at = 0; }
int sim_glob( const char *pat , int fl , int (*er)( const char * , int ) , glob_t *g )
{
  (void) fl; (void) er; char p[MAXPATHLEN]; norm_path( pat , p );
  memset( g , 0 , sizeof *g ); sim_event( OP_MISC , 0 , 32 , 0 );
  g->gl_pathv = sim_malloc( sizeof( char * ) * ( S->nname + 1 ) );
  if( !g->gl_pathv ) return GLOB_NOSPACE;
  int cut = pat[0] == '/' ? 0 : (int) strlen( S->proc[me].cwd ) + 1;
  for( int i = 0 ; i < S->nname ; i++ )
    if( S->name[i].ino >= 0 && fnmatch( p , S->name[i].path , FNM_PATHNAME | FNM_PERIOD ) == 0 )
    {
      char *c = sim_malloc( strlen( S->name[i].path ) + 1 ); if( !c ) return GLOB_NOSPACE;
      strcpy( c , S->name[i].path + cut ); g->gl_pathv[g->gl_pathc++] = c;
    }
  g->gl_pathv[g->gl_pathc] = NULL;
  return g->gl_pathc ? 0 : GLOB_NOMATCH;
}
void sim_globfree( glob_t *g ) { for( size_t i = 0 ; i < g->gl_pathc ; i++ ) sim_free( g->gl_pathv[i] ); sim_free( g->gl_pathv ); memset( g , 0 , sizeof *g ); }

/* mapped files: private views only */
static uint8_t *mapTop = (uint8_t *) 0x130000000000ULL;
void *sim_mmap( void *at , size_t n , int prot , int fl , int fd , off_t off )
{
  (void) at; sim_event( OP_MISC , 0 , 33 , (int64_t) n );
  Inode *ino = NULL;
  if( !( fl & MAP_ANONYMOUS ) )
  {
    int h = fd - 1000; if( h < 0 || h >= MAXHANDLE || !H[h].used ) { errno = EBADF; return MAP_FAILED; }
    if( ( fl & MAP_SHARED ) && ( prot & PROT_WRITE ) ) { errno = ENODEV; return MAP_FAILED; }
    ino = &S->ino[H[h].ino];
  }
  if( !n ) { errno = EINVAL; return MAP_FAILED; }
  void *t = sim_malloc( 1 ); if( !t ) { errno = ENOMEM; return MAP_FAILED; } sim_free( t );
  size_t m = ( n + 4095 ) & ~(size_t) 4095;
  uint8_t *p = mmap( mapTop , m , PROT_READ | PROT_WRITE , MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED , -1 , 0 );
  if( p == MAP_FAILED ) { errno = ENOMEM; return p; }
  mapTop += m + 4096;
  if( ino && off < ino->size ) { int64_t k = ino->size - off; ino_read( ino , off , p , k < (int64_t) n ? k : (int64_t) n ); }
  return p;
}
int sim_munmap( void *p , size_t n ) { return munmap( p , n ); }
int sim_msync( void *p , size_t n , int f ) { (void) p; (void) n; (void) f; return 0; }

/* what the machine is */
long sim_sysconf( int k )
{
  switch( k )
  {
    case _SC_NPROCESSORS_ONLN: case _SC_NPROCESSORS_CONF: return 1 + (long)( S->seed % 9 );
    case _SC_PAGESIZE: return 4096;
    case _SC_PHYS_PAGES: case _SC_AVPHYS_PAGES: return S->memCap > 0 ? 1 + S->memCap / 4096 : 1 << ( 12 + S->seed % 9 );
    case _SC_OPEN_MAX: return MAXHANDLE;
    case _SC_CLK_TCK: return 100;
    default: return -1;
  }
}
int sim_get_nprocs( void ) { return (int) sim_sysconf( _SC_NPROCESSORS_ONLN ); }
int sim_get_nprocs_conf( void ) { return (int) sim_sysconf( _SC_NPROCESSORS_CONF ); }
static int fill_vfs( void *v )
{
  struct statvfs *b = v; memset( b , 0 , sizeof *b ); b->f_bsize = b->f_frsize = 1;
  int64_t room = S->diskCap < 0 ? 1 << 30 : S->diskCap > S->diskUsed ? S->diskCap - S->diskUsed : 0;
  b->f_bfree = b->f_bavail = room; b->f_blocks = room + S->diskUsed; b->f_namemax = 255; return 0;
}
int sim_statvfs( const char *p , void *b ) { (void) p; return fill_vfs( b ); }
int sim_fstatvfs( int fd , void *b ) { (void) fd; return fill_vfs( b ); }
int sim_getrlimit( int r , void *v ) { struct rlimit *l = v; l->rlim_cur = l->rlim_max = r == RLIMIT_NOFILE ? MAXHANDLE : RLIM_INFINITY; return 0; }
unsigned sim_getuid( void ) { return 1000; }
char *sim_getlogin( void ) { return NULL; }

/* positioned and gathered transfers, formatted output to descriptors */
ssize_t sim_pread( int fd , void *b , size_t n , off_t o ) { FDH( fd ) int64_t p = H[h].pos; H[h].pos = o; ssize_t r = sys_read( h , b , n ); H[h].pos = p; return r; }
ssize_t sim_pwrite( int fd , const void *b , size_t n , off_t o ) { FDH( fd ) int64_t p = H[h].pos; H[h].pos = o; ssize_t r = sys_write( h , b , n ); H[h].pos = p; return r; }
ssize_t sim_readv( int fd , const struct iovec *v , int k )
{
  ssize_t s = 0;
  for( int i = 0 ; i < k ; i++ ) { ssize_t r = sim_read( fd , v[i].iov_base , v[i].iov_len ); if( r < 0 ) return s ? s : r; s += r; if( (size_t) r < v[i].iov_len ) break; }
  return s;
}
ssize_t sim_writev( int fd , const struct iovec *v , int k )
{
  size_t n = 0; for( int i = 0 ; i < k ; i++ ) n += v[i].iov_len;
  char *b = malloc( n + 1 ); size_t at = 0;
  for( int i = 0 ; i < k ; i++ ) { memcpy( b + at , v[i].iov_base , v[i].iov_len ); at += v[i].iov_len; }
  ssize_t r = sim_write( fd , b , n ); int e = errno; free( b ); errno = e; return r;
}
int sim_vdprintf( int fd , const char *f , va_list a )
{
  va_list b; va_copy( b , a ); int n = vsnprintf( NULL , 0 , f , b ); va_end( b ); if( n < 0 ) return n;
  char *s = malloc( (size_t) n + 1 ); vsnprintf( s , (size_t) n + 1 , f , a );
  ssize_t r = 0; for( int at = 0 ; at < n ; at += r ) if( ( r = sim_write( fd , s + at , n - at ) ) <= 0 ) { n = -1; break; }
  int e = errno; free( s ); errno = e; return n;
}
int sim_dprintf( int fd , const char *f , ... ) { va_list a; va_start( a , f ); int r = sim_vdprintf( fd , f , a ); va_end( a ); return r; }

/* a stream into memory of the program */
typedef struct { char **p; size_t *n; char *b; size_t at, len, cap; } MemStream;
void *sim_realloc( void * , size_t );
static ssize_t ms_write( void *c , const char *b , size_t n )
{
  MemStream *m = c;
  if( m->at + n + 1 > m->cap )
  {
    size_t k = m->cap * 2 > m->at + n + 1 ? m->cap * 2 : m->at + n + 1;
    char *q = sim_realloc( m->b , k ); if( !q ) { errno = ENOMEM; return 0; }
    m->b = q; memset( q + m->cap , 0 , k - m->cap ); m->cap = k;
  }
  memcpy( m->b + m->at , b , n ); m->at += n; if( m->at > m->len ) m->len = m->at; m->b[m->len] = 0;
  *m->p = m->b; *m->n = m->at; S->proc[me].work += n;
  return n;
}
static int ms_seek( void *c , off64_t *o , int wh )
{
  MemStream *m = c; int64_t x = *o + ( wh == SEEK_CUR ? (int64_t) m->at : wh == SEEK_END ? (int64_t) m->len : 0 );
  if( x < 0 ) { errno = EINVAL; return -1; }
  m->at = x; *m->n = m->at < m->len ? m->at : m->len; *o = x; return 0;
}
static int ms_close( void *c ) { MemStream *m = c; *m->p = m->b; *m->n = m->at; free( m ); return 0; }
static struct { FILE *fp; char *buf; } MS[32];
FILE *sim_open_memstream( char **p , size_t *n )
{
  int k = 0; while( k < 32 && MS[k].fp ) k++;
  if( k == 32 ) { errno = EMFILE; return NULL; }
  char *b = sim_malloc( 64 ); if( !b ) { errno = ENOMEM; return NULL; }
  memset( b , 0 , 64 );
  MemStream *m = calloc( 1 , sizeof *m ); m->p = p; m->n = n; m->b = b; m->cap = 64; *p = b; *n = 0;
  MS[k].fp = fopencookie( m , "w" , (cookie_io_functions_t) { NULL , ms_write , ms_seek , ms_close } );
  setvbuf( MS[k].fp , MS[k].buf = malloc( 4096 ) , _IOFBF , 4096 );
  return MS[k].fp;
}
FILE *sim_fmemopen( void *b , size_t n , const char *mode )
{
  int k = 0; while( k < 32 && MS[k].fp ) k++;
  if( k == 32 ) { errno = EMFILE; return NULL; }
  MS[k].buf = NULL;
  return MS[k].fp = fmemopen( b , n , mode );
}
static int ms_fclose( FILE *fp , int *r )
{
  for( int k = 0 ; fp && k < 32 ; k++ ) if( MS[k].fp == fp ) { *r = fclose( fp ); int e = errno; free( MS[k].buf ); MS[k].fp = NULL; errno = e; return 1; }
  return 0;
}

int sim_alphasort( const struct dirent **a , const struct dirent **b ) { return strcmp( (*a)->d_name , (*b)->d_name ); }
int sim_scandir( const char *p , struct dirent ***out , int (*sel)( const struct dirent * ) , int (*cmp)( const struct dirent ** , const struct dirent ** ) )
{
  void *d = sim_opendir( p ); if( !d ) return -1;
  struct dirent *e, **l = sim_malloc( sizeof *l * ( S->nname + 3 ) ); int n = 0;
  while( l && ( e = sim_readdir( d ) ) )
    if( !sel || sel( e ) )
    {
      if( !( l[n] = sim_malloc( sizeof *e ) ) ) { while( n ) sim_free( l[--n] ); sim_free( l ); l = NULL; break; }
      *l[n++] = *e;
    }
  sim_closedir( d );
  if( !l ) { errno = ENOMEM; return -1; }
  if( cmp ) for( int i = 1 ; i < n ; i++ ) for( int j = i ; j > 0 && cmp( (const struct dirent **) &l[j-1] , (const struct dirent **) &l[j] ) > 0 ; j-- ) { e = l[j]; l[j] = l[j-1]; l[j-1] = e; }
  *out = l; return n;
}
void *sim_memalign( size_t a , size_t n ) { (void) a; return sim_malloc( n ); }
void *sim_valloc( size_t n ) { return sim_malloc( n ); }
__typeof__( sim_alphasort ) sim_alphasort64 __attribute__(( alias( "sim_alphasort" ) ));
__typeof__( sim_pread ) sim_pread64 __attribute__(( alias( "sim_pread" ) ));
__typeof__( sim_pwrite ) sim_pwrite64 __attribute__(( alias( "sim_pwrite" ) ));
__typeof__( sim_scandir ) sim_scandir64 __attribute__(( alias( "sim_scandir" ) ));

/* other names of the same */
__typeof__( sim_lockf ) sim_lockf64 __attribute__(( alias( "sim_lockf" ) ));
__typeof__( sim_fcntl ) sim_fcntl64 __attribute__(( alias( "sim_fcntl" ) ));
__typeof__( sim_posix_fallocate ) sim_posix_fallocate64 __attribute__(( alias( "sim_posix_fallocate" ) ));
__typeof__( sim_posix_fadvise ) sim_posix_fadvise64 __attribute__(( alias( "sim_posix_fadvise" ) ));
__typeof__( sim_readdir ) sim_readdir64 __attribute__(( alias( "sim_readdir" ) ));
__typeof__( sim_glob ) sim_glob64 __attribute__(( alias( "sim_glob" ) ));
__typeof__( sim_globfree ) sim_globfree64 __attribute__(( alias( "sim_globfree" ) ));
__typeof__( sim_mmap ) sim_mmap64 __attribute__(( alias( "sim_mmap" ) ));
__typeof__( sim_statvfs ) sim_statvfs64 __attribute__(( alias( "sim_statvfs" ) ));
__typeof__( sim_fstatvfs ) sim_fstatvfs64 __attribute__(( alias( "sim_fstatvfs" ) ));
__typeof__( sim_getrlimit ) sim_getrlimit64 __attribute__(( alias( "sim_getrlimit" ) ));
__typeof__( sim_getuid ) sim_geteuid __attribute__(( alias( "sim_getuid" ) ));
__typeof__( sim_getuid ) sim_getgid __attribute__(( alias( "sim_getuid" ) ));
__typeof__( sim_getuid ) sim_getegid __attribute__(( alias( "sim_getuid" ) ));
__typeof__( sim_getuid ) sim_getppid __attribute__(( alias( "sim_getuid" ) ));
__typeof__( sim_stat ) sim_lstat64 __attribute__(( alias( "sim_stat" ) ));
int sim_system( const char *c ) { (void) c; sim_event( OP_MISC , 0 , 2 , 0 ); return c ? -1 : 0; }
FILE *sim_popen( const char *c , const char *m ) { (void) c; (void) m; sim_event( OP_MISC , 0 , 3 , 0 ); errno = ENOMEM; return NULL; }
char *sim_getcwd( char *b , size_t n ) { if( !b ) return NULL; snprintf( b , n , "%s" , S->proc[me].cwd ); return b; }
int sim_chdir( const char *p ) { char q[MAXPATHLEN]; norm_path( p , q ); snprintf( S->proc[me].cwd , MAXPATHLEN , "%s" , q ); return 0; }
int sim_getpid( void ) { return 1000 + me * 7 + (int)( S->seed % 9000 ); }
char *sim_getenv( const char *n ) { (void) n; sim_event( OP_MISC , 0 , 4 , 0 ); static char *v[] = { NULL , "7" , "" , "/w" }; return v[S->envMode & 3]; }
/* a language that the environment chooses: one that writes numbers with a comma */
#include <locale.h>
static const char *chosen_locale( const char *l ) { if( l && !*l ) { sim_event( OP_MISC , 0 , 4 , 0 ); return S->envMode ? "de_DE.UTF-8" : "C"; } return l; }
char *sim_setlocale( int c , const char *l ) { return setlocale( c , chosen_locale( l ) ); }
locale_t sim_newlocale( int m , const char *l , locale_t b ) { return newlocale( m , chosen_locale( l ) , b ); }
char *sim_secure_getenv( const char *n ) { return sim_getenv( n ); }
static uint64_t randState = 1;
void sim_srand( unsigned s ) { randState = s; }
int sim_rand( void ) { return (int)( rng_next( &randState ) & 0x7fffffff ); }
long sim_random( void ) { return (long)( rng_next( &randState ) & 0x7fffffff ); }

int sim_vprintf( const char *f , va_list a ) { return vfprintf( sim_stdout , f , a ); }
int sim_printf( const char *f , ... ) { va_list a; va_start( a , f ); int r = vfprintf( sim_stdout , f , a ); va_end( a ); return r; }
int sim_puts( const char *s ) { int r = fputs( s , sim_stdout ); if( r >= 0 ) r = fputc( '\n' , sim_stdout ); return r; }
int sim_putchar( int c ) { return fputc( c , sim_stdout ); }
void sim_perror( const char *s ) { fprintf( sim_stderr , "%s: %s\n" , s , strerror( errno ) ); }


/* calls with effects outside the simulated world: recorded and refused */
#define DENY( nm , k ) long sim_##nm( void ) { sim_event( OP_MISC , 0 , k , 0 ); errno = ENOSYS; return -1; }
DENY( rmdir , 100 ) DENY( truncate , 101 ) DENY( link , 102 ) DENY( symlink , 103 ) DENY( chmod , 104 ) DENY( fchmod , 105 ) DENY( chown , 106 ) DENY( fork , 107 ) DENY( vfork , 108 ) DENY( execv , 109 ) DENY( execve , 110 ) DENY( execvp , 111 ) DENY( execl , 112 ) DENY( execlp , 113 ) DENY( kill , 114 ) DENY( dup , 115 ) DENY( dup2 , 116 ) DENY( pipe , 117 ) DENY( socket , 118 ) DENY( mkfifo , 119 ) DENY( mknod , 120 ) DENY( renameat , 121 ) DENY( unlinkat , 122 ) DENY( openat , 123 ) DENY( linkat , 124 ) DENY( posix_spawn , 125 ) DENY( posix_spawnp , 126 ) DENY( setrlimit , 127 ) DENY( mount , 128 ) DENY( umount , 129 ) DENY( chroot , 130 ) DENY( nice , 131 ) DENY( shm_open , 132 ) DENY( shm_unlink , 133 ) DENY( setpriority , 134 ) DENY( sethostname , 135 ) DENY( utime , 136 ) DENY( utimes , 137 ) DENY( putenv , 138 ) DENY( setenv , 139 ) DENY( unsetenv , 140 ) DENY( clearenv , 141 ) DENY( settimeofday , 142 ) DENY( stime , 143 ) DENY( pthread_create , 144 ) DENY( clone , 145 ) DENY( syscall , 146 ) DENY( signal , 147 ) DENY( sigaction , 148 ) DENY( alarm , 149 ) DENY( setitimer , 150 )
#define DENYP( nm , k ) void *sim_##nm( void ) { sim_event( OP_MISC , 0 , k , 0 ); errno = ENOSYS; return NULL; }
DENYP( tmpnam , 200 ) DENYP( tempnam , 201 ) DENYP( mkdtemp , 202 ) DENYP( fdopendir , 204 ) DENYP( dlopen , 205 )
int sim_mkstemp( char *t ) { size_t n = strlen( t ); static int k; if( n < 6 ) { errno = EINVAL; return -1; } snprintf( t + n - 6 , 7 , "%06d" , ( k++ + (int)( S->seed % 1000 ) ) % 1000000 ); return sim_open( t , O_RDWR | O_CREAT | O_EXCL ); }
int sim_mkstemp64( char *t ) { return sim_mkstemp( t ); }
int sim_getchar( void ) { return fgetc( sim_stdin ); }

/* calls of libc that allocate for the caller, or read something of the machine */
void *sim_malloc( size_t ); void *sim_realloc( void * , size_t ); void sim_free( void * );
int sim_vasprintf( char **o , const char *f , va_list a )
{
  va_list b; va_copy( b , a ); int n = vsnprintf( NULL , 0 , f , b ); va_end( b );
  *o = n < 0 ? NULL : sim_malloc( (size_t) n + 1 );
  return *o ? vsnprintf( *o , (size_t) n + 1 , f , a ) : -1;
}
int sim_asprintf( char **o , const char *f , ... ) { va_list a; va_start( a , f ); int r = sim_vasprintf( o , f , a ); va_end( a ); return r; }
ssize_t sim_getdelim( char **l , size_t *n , int d , FILE *fp )
{
  size_t k = 0; int c;
  if( !*l ) *n = 0;
  for( ;; )
  {
    if( k + 2 > *n ) { size_t m = *n ? 2 * *n : 120; char *q = sim_realloc( *l , m ); if( !q ) return -1; *l = q; *n = m; }
    if( ( c = fgetc( fp ) ) == EOF ) break;
    (*l)[k++] = (char) c;
    if( c == d ) break;
  }
  (*l)[k] = 0;
  return k ? (ssize_t) k : -1;
}
ssize_t sim_getdelim_( char **l , size_t *n , int d , FILE *fp ) { return sim_getdelim( l , n , d , fp ); }
ssize_t sim_getline( char **l , size_t *n , FILE *fp ) { return sim_getdelim( l , n , '\n' , fp ); }
void *sim_reallocarray( void *p , size_t a , size_t b ) { size_t n; if( __builtin_mul_overflow( a , b , &n ) ) { errno = ENOMEM; return NULL; } return sim_realloc( p , n ); }
char *sim_realpath( const char *p , char *o ) { char q[MAXPATHLEN]; norm_path( p , q ); if( find_name( q ) < 0 ) { errno = ENOENT; return NULL; } if( !o && !( o = sim_malloc( strlen( q ) + 1 ) ) ) return NULL; return strcpy( o , q ); }
int sim_isatty( int fd ) { (void) fd; errno = ENOTTY; return 0; }
long sim_getrandom( void *b , size_t n , unsigned f ) { (void) f; for( size_t i = 0 ; i < n ; i++ ) ((uint8_t *) b)[i] = (uint8_t) sim_rand(); return (long) n; }
int sim_getentropy( void *b , size_t n ) { sim_getrandom( b , n , 0 ); return 0; }
unsigned sim_arc4random( void ) { return (unsigned) sim_rand() * 2u + (unsigned) ( sim_rand() & 1 ); }
int sim_gethostname( char *b , size_t n ) { if( n ) { snprintf( b , n , "host%d" , (int)( S->seed % 97 ) ); } return 0; }

/* ---------------------------------------------------------------- clock */

static double clkNow, clkRate; static uint64_t clkEdge; static int clkStep;

static void clk_start( void ) { clkNow = S->clockBase; clkRate = S->clockRate; clkEdge = 0; clkStep = 0; }

static double clk_read( void )
{
  uint64_t e = sim_edges();
  while( clkStep < S->nclock && S->clock[clkStep].edge <= e )
  {
    ClockStep *c = &S->clock[clkStep++];
    if( c->edge > clkEdge ) { clkNow += (double)( c->edge - clkEdge ) * clkRate * 1e-6; clkEdge = c->edge; }
    if( c->kind == 1 ) clkNow += c->value; else clkRate = c->value;
    c->done = 1;
  }
  if( e > clkEdge ) { clkNow += (double)( e - clkEdge ) * clkRate * 1e-6; clkEdge = e; }
  S->proc[me].simtime = clkNow - S->clockBase;
  return clkNow;
}

static double clk_peek( void )           /* the same, without moving it */
{
  double now = clkNow, rate = clkRate; uint64_t at = clkEdge, e = sim_edges();
  for( int i = clkStep ; i < S->nclock && S->clock[i].edge <= e ; i++ )
  {
    if( S->clock[i].edge > at ) { now += (double)( S->clock[i].edge - at ) * rate * 1e-6; at = S->clock[i].edge; }
    if( S->clock[i].kind == 1 ) now += S->clock[i].value; else rate = S->clock[i].value;
  }
  return e > at ? now + (double)( e - at ) * rate * 1e-6 : now;
}

time_t sim_time( time_t *t )
{
  double v = floor( clk_read() );
  S->proc[me].ntime++;
  sim_event( OP_TIME , 0 , 0 , (int64_t) v );
  if( t ) *t = (time_t) v;
  return (time_t) v;
}
int sim_gettimeofday( struct timeval *tv , void *z ) { (void) z; double v = clk_read(); S->proc[me].ntime++; tv->tv_sec = (time_t) floor( v ); tv->tv_usec = (long)( ( v - floor( v ) ) * 1e6 ); sim_event( OP_TIME , 0 , 1 , (int64_t)( v * 1e6 ) ); return 0; }
int sim_clock_gettime( clockid_t c , struct timespec *ts ) { (void) c; double v = clk_read(); S->proc[me].ntime++; ts->tv_sec = (time_t) floor( v ); ts->tv_nsec = (long)( ( v - floor( v ) ) * 1e9 ); sim_event( OP_TIME , 0 , 2 , (int64_t)( v * 1e6 ) ); return 0; }
clock_t sim_clock( void ) { double v = clk_read() - S->clockBase; sim_event( OP_TIME , 0 , 3 , (int64_t)( v * 1e6 ) ); return (clock_t)( v * CLOCKS_PER_SEC ); }
double sim_omp_get_wtime( void ) { double v = clk_read(); sim_event( OP_TIME , 0 , 4 , (int64_t)( v * 1e6 ) ); return v; }
int sim_timespec_get( struct timespec *ts , int base ) { sim_clock_gettime( 0 , ts ); return base; }
long sim_times( void *b ) { double v = clk_read() - S->clockBase; memset( b , 0 , 4 * sizeof(long) ); *(long *) b = (long)( v * 100 ); return (long)( v * 100 ); }
int sim_getrusage( int who , void *u ) { (void) who; double v = clk_read() - S->clockBase; memset( u , 0 , 144 ); ((long *) u)[0] = (long) v; ((long *) u)[1] = (long)( ( v - floor( v ) ) * 1e6 ); return 0; }
unsigned sim_sleep( unsigned s ) { clk_read(); clkNow += s; return 0; }
int sim_usleep( unsigned s ) { clk_read(); clkNow += s * 1e-6; return 0; }
int sim_nanosleep( const struct timespec *a , struct timespec *b ) { (void) b; clk_read(); clkNow += a->tv_sec + a->tv_nsec * 1e-9; return 0; }

/* ---------------------------------------------------------------- allocator */

/* Builds with -fsanitize=address: the sanitizer watches every access of the target; blocks are fenced by poisoning. */
extern void __asan_poison_memory_region( const volatile void * , size_t ) __attribute__(( weak ));
extern void __asan_unpoison_memory_region( const volatile void * , size_t ) __attribute__(( weak ));
extern void __asan_set_error_report_callback( void (*)( const char * ) ) __attribute__(( weak ));
const char *__asan_default_options( void );
const char *__asan_default_options( void )
{
  return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_stack_use_after_return=0:"
         "symbolize=0:fast_unwind_on_fatal=1:detect_odr_violation=0:malloc_context_size=0:allocator_may_return_null=1:quarantine_size_mb=1:strict_string_checks=0:"
         "check_printf=1:replace_str=1:intercept_tls_get_addr=0:max_uar_stack_size_log=16:print_legend=0:exitcode=99";
}
#define POISON( p , n ) do { if( __asan_poison_memory_region ) __asan_poison_memory_region( p , n ); } while( 0 )
#define UNPOISON( p , n ) do { if( __asan_unpoison_memory_region ) __asan_unpoison_memory_region( p , n ); } while( 0 )
static void on_report( const char *text )
{
  /* "...ERROR: AddressSanitizer: KIND on address ..." and "READ|WRITE of size N"; addresses are left out */
  char kind[64] = "", acc[64] = ""; long size = 0;
  const char *q = strstr( text , "AddressSanitizer: " );
  if( q ) sscanf( q + 18 , "%63s" , kind );
  const char *r = strstr( text , "READ of size" ), *w = strstr( text , "WRITE of size" );
  if( w && ( !r || w < r ) ) { strcpy( acc , "write" ); size = atol( w + 13 ); } else if( r ) { strcpy( acc , "read" ); size = atol( r + 12 ); }
  snprintf( S->report , sizeof S->report , "%s%s%s (%ld bytes)" , kind , acc[0] ? ", " : "" , acc , size );
  sim_running = 0;
  S->proc[me].edges = sim_edges();
  signal( SIGABRT , SIG_DFL ); raise( SIGABRT ); _exit( 98 );
}

#define ARENA_BASE ((uint8_t *) 0x110000000000ULL)
#define ARENA_SIZE ((size_t) 1 << 32)
#define RZ 64
#define MAGIC 0x5afe5afe0badf00dULL
typedef struct Blk { uint64_t magic; uint64_t size; uint64_t span; uint32_t seq, live; struct Blk *prev, *next; struct Blk *fnext; uint64_t pad; } Blk;
static uint8_t *brkp, *brkTop; static Blk liveHead; static Blk *freeList[64]; static uint64_t fillRng, jitRng;

static void arena_init( void )
{
  brkp = ARENA_BASE; brkTop = ARENA_BASE + ARENA_SIZE; liveHead.next = liveHead.prev = &liveHead;
  fillRng = S->seed * 77777 + 3 + me; jitRng = S->seed * 31337 + 11 + me;
  memset( freeList , 0 , sizeof freeList );
}

static void fill_words( uint8_t *p , size_t n , int mode )
{
  switch( mode )
  {
    case 0: memset( p , 0 , n ); break;
    case 1: memset( p , 0xAA , n ); break;
    case 2: memset( p , 0xFF , n ); break;
    case 3:  /* plausible small floating-point numbers */
      { float v; uint64_t r; size_t i; for( i = 0 ; i + 4 <= n ; i += 4 ) { r = rng_next( &fillRng ); v = (float)( (double)( r % 2000001 ) / 1e6 - 1.0 ); memcpy( p + i , &v , 4 ); } for( ; i < n ; i++ ) p[i] = 0x3f; }
      break;
    case 5: memset( p , ' ' , n ); break;
    case 6:  /* small counts */
      { int32_t v = 1; size_t i; for( i = 0 ; i + 4 <= n ; i += 4 ) memcpy( p + i , &v , 4 ); for( ; i < n ; i++ ) p[i] = 0; }
      break;
    case 7:  /* text */
      { static const char t[] = "EX 0 1 0 1 0 1 wf1 1.5 -2\n"; for( size_t i = 0 ; i < n ; i++ ) p[i] = t[ i % ( sizeof( t ) - 1 ) ]; }
      break;
    default:
      { uint64_t r; size_t i; for( i = 0 ; i + 8 <= n ; i += 8 ) { r = rng_next( &fillRng ); memcpy( p + i , &r , 8 ); } r = rng_next( &fillRng ); for( ; i < n ; i++ ) { p[i] = (uint8_t) r; r >>= 8; } }
  }
}

static int cls( size_t n ) { int c = 0; while( ( (size_t) 16 << c ) < n ) c++; return c; }

#define RED ( (uint8_t)( 0xC5 ^ ( S->seed * 29 ) ) )
static int canary_ok( Blk *b )
{
  uint8_t *u = (uint8_t *)( b + 1 ) + RZ;
  uint8_t *q = u - RZ; for( int i = 0 ; i < RZ ; i++ ) if( q[i] != RED ) return 0;
  q = u + b->size; uint8_t *e = (uint8_t *) b + b->span; if( e > q + RZ ) e = q + RZ;
  for( ; q < e ; q++ ) if( *q != RED ) return 0;
  return 1;
}

static int wantGroups;
static const void *allocCaller;                  /* set by the calls that end in sim_malloc */

static void note_group( const void *caller , size_t n , uint32_t nth )
{
  uint64_t key = ( (uint64_t)(uintptr_t) caller << 24 ) ^ ( n * 0x9e3779b97f4a7c15ULL >> 20 );
  for( int i = 0 ; i < S->ngroup ; i++ )
    if( S->group[i].key == key )
    {
      if( S->group[i].count++ == 1 ) S->group[i].second = nth;
      S->group[i].last = nth;
      return;
    }
  if( S->ngroup == MAXGROUP ) return;
  int i = S->ngroup++;
  S->group[i].key = key; S->group[i].first = S->group[i].second = S->group[i].last = nth; S->group[i].count = 1;
}

void *sim_malloc( size_t n )
{
  Proc *P = &S->proc[me];
  if( wantGroups && n ) note_group( allocCaller ? allocCaller : __builtin_return_address( 0 ) , n , (uint32_t) P->nalloc );
  allocCaller = NULL;
  if( n ) P->nalloc++;                     /* a request for nothing is never refused */
  Fault *f = sim_running && n ? match_fault( OP_ALLOC , NULL ) : NULL;
  if( ( f && f->action == A_ERR ) || n > ( (size_t) 1 << 31 ) || ( S->memCap >= 0 && (int64_t)( P->liveBytes + n ) > S->memCap ) )
  {
    sim_event( OP_ALLOC , 0 , -1 , (int64_t) n );
    errno = ENOMEM; return NULL;
  }
  size_t need = sizeof( Blk ) + RZ + ( ( n + 15 ) & ~(size_t) 15 ) + RZ;
  Blk *b = NULL; int recycled = 0;
  int c = cls( need );
  if( S->recycle && freeList[c] ) { b = freeList[c]; freeList[c] = b->fnext; recycled = 1; }
  else
  {
    size_t span = S->recycle ? (size_t) 16 << c : need;
    if( S->addrJitter ) brkp += 16 * ( rng_next( &jitRng ) % (unsigned) S->addrJitter );
    span = ( span + 15 ) & ~(size_t) 15;
    if( brkp + span + 4096 > brkTop ) { errno = ENOMEM; return NULL; }
    if( S->addrOrder && ( S->addrOrder == 1 || ( rng_next( &jitRng ) & 1 ) ) ) { brkTop -= span; b = (Blk *) brkTop; }
    else { b = (Blk *) brkp; brkp += span; }
    b->span = span;
  }
  b->magic = MAGIC; b->size = n; b->seq = (uint32_t) P->nalloc; b->live = 1;
  b->next = &liveHead; b->prev = liveHead.prev; b->prev->next = b; liveHead.prev = b;
  uint8_t *u = (uint8_t *)( b + 1 ) + RZ;
  UNPOISON( u - RZ , b->span - sizeof( Blk ) );
  memset( u - RZ , RED , RZ );
  if( !( recycled && S->recycle == 2 ) ) fill_words( u , n , S->fillMode );
  uint8_t *q = u + n , *e = (uint8_t *) b + b->span; if( e > q + RZ ) e = q + RZ;
  memset( q , RED , e - q );
  POISON( u - RZ , RZ ); POISON( u + n , (uint8_t *) b + b->span - ( u + n ) );
  P->bytesAlloc += n; P->liveBytes += n; if( P->liveBytes > P->peakBytes ) P->peakBytes = P->liveBytes;
  sim_mix( n );
  return u;
}

void sim_free( void *p )
{
  if( !p ) return;
  uint8_t *u = p;
  if( u < ARENA_BASE || u >= ARENA_BASE + ARENA_SIZE ) { free( p ); return; }
  Blk *b = (Blk *)( u - RZ ) - 1;
  if( b->magic != MAGIC || !b->live ) { S->proc[me].badfree++; abort(); }
  if( !canary_ok( b ) ) S->proc[me].canary++;
  b->live = 0; b->prev->next = b->next; b->next->prev = b->prev;
  S->proc[me].liveBytes -= b->size; S->proc[me].nfree++;
  if( S->recycle != 2 ) fill_words( u , b->size , 4 );
  POISON( u , b->size );
  if( S->recycle ) { int c = cls( b->span ); b->fnext = freeList[c]; freeList[c] = b; }
}

void *sim_calloc( size_t a , size_t b )
{
  if( b && a > SIZE_MAX / b ) { errno = ENOMEM; return NULL; }
  allocCaller = __builtin_return_address( 0 );
  void *p = sim_malloc( a * b ); if( p ) { memset( p , 0 , a * b ); S->proc[me].work += a * b; } return p;
}
void *sim_realloc( void *p , size_t n )
{
  allocCaller = __builtin_return_address( 0 );
  if( !p ) return sim_malloc( n );
  void *q = sim_malloc( n ); if( !q ) return NULL;
  Blk *b = (Blk *)( (uint8_t *) p - RZ ) - 1;
  memcpy( q , p , b->size < n ? b->size : n ); S->proc[me].work += b->size < n ? b->size : n; sim_free( p ); return q;
}
char *sim_strdup( const char *s ) { allocCaller = __builtin_return_address( 0 ); size_t n = strlen( s ) + 1; char *p = sim_malloc( n ); if( p ) memcpy( p , s , n ); return p; }
char *sim_strndup( const char *s , size_t m ) { allocCaller = __builtin_return_address( 0 ); size_t n = strnlen( s , m ); char *p = sim_malloc( n + 1 ); if( p ) { memcpy( p , s , n ); p[n] = 0; } return p; }
void *sim_aligned_alloc( size_t a , size_t n ) { (void) a; return sim_malloc( n ); }
int sim_posix_memalign( void **p , size_t a , size_t n ) { (void) a; *p = sim_malloc( n ); return *p ? 0 : ENOMEM; }

/* ---------------------------------------------------------------- work done inside libc */

#define WORK( n ) ( S->proc[me].work += (uint64_t)( n ) )
size_t sim_strlen( const char *s ) { size_t n = strlen( s ); WORK( n ); return n; }
size_t sim_strnlen( const char *s , size_t m ) { size_t n = strnlen( s , m ); WORK( n ); return n; }
char *sim_strcpy( char *d , const char *s ) { WORK( strlen( s ) ); return strcpy( d , s ); }
char *sim_strncpy( char *d , const char *s , size_t n ) { WORK( n ); return strncpy( d , s , n ); }
char *sim_strcat( char *d , const char *s ) { WORK( strlen( d ) + strlen( s ) ); return strcat( d , s ); }
char *sim_strncat( char *d , const char *s , size_t n ) { WORK( strlen( d ) + strnlen( s , n ) ); return strncat( d , s , n ); }
static size_t common( const char *a , const char *b , size_t m ) { size_t n = 0; while( n < m && a[n] && a[n] == b[n] ) n++; return n; }
int sim_strcmp( const char *a , const char *b ) { WORK( common( a , b , SIZE_MAX ) ); return strcmp( a , b ); }
int sim_strncmp( const char *a , const char *b , size_t n ) { WORK( common( a , b , n ) ); return strncmp( a , b , n ); }
int sim_strcasecmp( const char *a , const char *b ) { WORK( common( a , b , SIZE_MAX ) ); return strcasecmp( a , b ); }
int sim_strncasecmp( const char *a , const char *b , size_t n ) { WORK( common( a , b , n ) ); return strncasecmp( a , b , n ); }
char *sim_strchr( const char *s , int c ) { char *p = strchr( s , c ); WORK( p ? (size_t)( p - s ) : strlen( s ) ); return p; }
char *sim_strrchr( const char *s , int c ) { WORK( strlen( s ) ); return strrchr( s , c ); }
char *sim_strstr( const char *s , const char *t ) { char *p = strstr( s , t ); WORK( p ? (size_t)( p - s ) : strlen( s ) ); return p; }
size_t sim_strspn( const char *s , const char *t ) { size_t n = strspn( s , t ); WORK( n ); return n; }
size_t sim_strcspn( const char *s , const char *t ) { size_t n = strcspn( s , t ); WORK( n ); return n; }
char *sim_strpbrk( const char *s , const char *t ) { char *p = strpbrk( s , t ); WORK( p ? (size_t)( p - s ) : strlen( s ) ); return p; }
char *sim_strtok( char *s , const char *t ) { char *p = strtok( s , t ); WORK( p ? strlen( p ) : 0 ); return p; }
void *sim_memcpy( void *d , const void *s , size_t n ) { WORK( n ); return memcpy( d , s , n ); }
void *sim_memmove( void *d , const void *s , size_t n ) { WORK( n ); return memmove( d , s , n ); }
void *sim_memset( void *d , int c , size_t n ) { WORK( n ); return memset( d , c , n ); }
int sim_memcmp( const void *a , const void *b , size_t n ) { WORK( n ); return memcmp( a , b , n ); }
void *sim_memchr( const void *s , int c , size_t n ) { char *p = memchr( s , c , n ); WORK( p ? (size_t)( p - (char *) s ) : n ); return p; }
/* reading from a string looks for its end first */
int sim_sscanf( const char *s , const char *f , ... ) { va_list a; int r; WORK( strlen( s ) ); va_start( a , f ); r = vsscanf( s , f , a ); va_end( a ); return r; }
int sim_c99_sscanf( const char *s , const char *f , ... ) { va_list a; int r; WORK( strlen( s ) ); va_start( a , f ); r = vsscanf( s , f , a ); va_end( a ); return r; }

/* ---------------------------------------------------------------- end of a process */

static void (*atexitFn[32])( void ); static int nAtexit;
int sim_atexit( void (*f)( void ) ) { if( nAtexit < 32 ) atexitFn[nAtexit++] = f; return 0; }

void sim_finish( int kind , int code )
{
  Proc *P = &S->proc[me];
  sim_running = 0;
  P->edges = sim_edges();
  for( Blk *b = liveHead.next ; b && b != &liveHead ; b = b->next ) { if( b->magic != MAGIC ) { P->canary++; break; } if( !canary_ok( b ) ) P->canary++; }
  int left = 0; for( int i = 0 ; i < MAXHANDLE ; i++ ) if( H[i].used && H[i].path[0] != '<' ) left++;
  P->openLeft = left;
  sim_mix( (uint64_t) kind * 1000 + code );
  P->code = code; P->kind = kind;
  for( int i = 0 ; i < MAXLOCK ; i++ ) if( S->lock[i].proc == me ) S->lock[i].used = 0;
  if( S->nproc > 1 ) { S->alive[me] = 0; int n = pick_next(); if( n >= 0 ) { give_turn( n ); } }
  _exit( 0 );
}

void sim_exit( int code )
{
  while( nAtexit > 0 ) atexitFn[--nAtexit]();
  sim_event( OP_EXIT , 0 , code , 0 );
  flush_all();
  sim_finish( K_EXIT , code & 0xff );
}
void sim__exit( int code ) { sim_event( OP_EXIT , 0 , code , 0 ); sim_finish( K_EXIT , code & 0xff ); }
void sim_abort( void ) { S->proc[me].edges = sim_edges(); signal( SIGABRT , SIG_DFL ); raise( SIGABRT ); _exit( 98 ); }

/* other names of the same calls */
__typeof__( sim_fopen ) sim_fopen64 __attribute__(( alias( "sim_fopen" ) ));
__typeof__( sim_freopen ) sim_freopen64 __attribute__(( alias( "sim_freopen" ) ));
__typeof__( sim_tmpfile ) sim_tmpfile64 __attribute__(( alias( "sim_tmpfile" ) ));
__typeof__( sim_open ) sim_open64 __attribute__(( alias( "sim_open" ) ));
__typeof__( sim_creat ) sim_creat64 __attribute__(( alias( "sim_creat" ) ));
__typeof__( sim_lseek ) sim_lseek64 __attribute__(( alias( "sim_lseek" ) ));
__typeof__( sim_fsync ) sim_fdatasync __attribute__(( alias( "sim_fsync" ) ));
__typeof__( sim_ftruncate ) sim_ftruncate64 __attribute__(( alias( "sim_ftruncate" ) ));
__typeof__( sim_srand ) sim_srandom __attribute__(( alias( "sim_srand" ) ));
__typeof__( sim_strdup ) sim___strdup __attribute__(( alias( "sim_strdup" ) ));
__typeof__( sim__exit ) sim__Exit __attribute__(( alias( "sim__exit" ) ));
__typeof__( sim_stat ) sim_stat64 __attribute__(( alias( "sim_stat" ) ));
__typeof__( sim_fstat ) sim_fstat64 __attribute__(( alias( "sim_fstat" ) ));
__typeof__( sim_stat ) sim_lstat __attribute__(( alias( "sim_stat" ) ));
__typeof__( sim_fflush ) sim_fflush_unlocked __attribute__(( alias( "sim_fflush" ) ));

/* ---------------------------------------------------------------- target stack */

#define STK (8u << 20)
static uint8_t *tstack;

__attribute__((naked,noinline)) static void run_on_stack( void *sp , void (*fn)( void ) )
{
  __asm__ volatile(
    "pushq %rbp\n\tpushq %rbx\n\tpushq %r12\n\tpushq %r13\n\tpushq %r14\n\tpushq %r15\n\t"
    "movq %rsp, %rbx\n\tmovq %rdi, %rsp\n\tcall *%rsi\n\tmovq %rbx, %rsp\n\t"
    "popq %r15\n\tpopq %r14\n\tpopq %r13\n\tpopq %r12\n\tpopq %rbx\n\tpopq %rbp\n\tret\n\t" );
}

static int gArgc; static char **gArgv;
extern int target_main( int argc , char **argv ) __attribute__((weak));     /* a host of one program */
extern int vulture_main( int argc , char **argv ) __attribute__((weak));    /* a host of both */
extern int gvulture_main( int argc , char **argv ) __attribute__((weak));
static void call_target( void )
{
  int (*fn)( int , char ** ) = target_main ? target_main : strcmp( gArgv[0] , "gvulture" ) == 0 ? gvulture_main : vulture_main;
  sim_exit( fn( gArgc , gArgv ) );
}

static void child( int p )
{
  me = p;
  Proc *P = &S->proc[p];
  int nul = open( "/dev/null" , O_RDWR );
  dup2( nul , 0 ); dup2( nul , 1 ); dup2( nul , 2 );
  struct rlimit rl = { 0 , 0 }; setrlimit( RLIMIT_CORE , &rl );
  static const char *zone[] = { "UTC0" , "NZST-12" , "EST5EDT,M3.2.0,M11.1.0" , "LHST-10:30LHDT-11,M10.1.0,M4.1.0" };
  setenv( "TZ" , zone[S->tzMode & 3] , 1 ); tzset();
  memset( H , 0 , sizeof H );
  arena_init(); clk_start();
  if( __asan_set_error_report_callback ) __asan_set_error_report_callback( on_report );
  char nm[32];
  const char *std[3] = { "stdin" , "stdout" , "stderr" };
  FILE **fp[3] = { &sim_stdin , &sim_stdout , &sim_stderr };
  if( S->nproc > 1 ) wait_turn();
  for( int i = 0 ; i < 3 ; i++ )
  {
    snprintf( nm , sizeof nm , "<%d:%s>" , p , std[i] );
    int h = sys_open( nm , i == 0 ? O_RDWR | O_CREAT : O_WRONLY | O_CREAT | O_TRUNC );
    *fp[i] = stream_on( h , i == 0 ? "r" : "w" , i == 2 ? _IONBF : S->stdoutMode == 1 ? _IOLBF : _IOFBF , i == 2 ? 0 : 1024 );
  }
  stop_at = 0; sim_ctr = 0;
  next_yield = S->nproc > 1 && S->yieldEdges > 0 ? 1 + rng_next( &S->yieldRng ) % ( 2 * S->yieldEdges ) : UINT64_MAX;
  P->nio = 0;
  sim_running = 1;
  sim_ctr_resync();
  tstack = mmap( (void *) 0x200000000000ULL , STK , PROT_READ | PROT_WRITE , MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE , -1 , 0 );
  if( tstack == MAP_FAILED ) simerr( "stack" );
  uint64_t save = fillRng; fillRng = S->seed * 991 + 5;
  if( S->stackFill >= 0 ) fill_words( tstack + STK - ( 160 << 10 ) , 160 << 10 , S->stackFill );
  fillRng = save;
  gArgc = P->argc; gArgv = P->argv;
  uint8_t *top = tstack + STK - 4096 - 16 * ( S->addrJitter ? S->seed % 64 : 0 );
  run_on_stack( top , call_target );
  _exit( 97 );
}

/* ---------------------------------------------------------------- requests */

static char *rdline( void )
{
  static char *l; static size_t cap;
  ssize_t n = getline( &l , &cap , stdin );
  if( n <= 0 ) exit( 0 );
  if( l[n-1] == '\n' ) l[n-1] = 0;
  return l;
}

static char *rdblob( size_t n )
{
  char *b = malloc( n + 1 );
  if( fread( b , 1 , n , stdin ) != n ) exit( 3 );
  b[n] = 0; fgetc( stdin );
  return b;
}

static void reset_world( void )
{
  uint64_t keepSw = offsetof( Shm , proc );
  for( int p = 0 ; p < MAXPROC ; p++ ) for( int i = 0 ; i < S->proc[p].argc ; i++ ) free( S->proc[p].argv[i] );
  memset( S , 0 , keepSw );
  memset( S->proc , 0 , sizeof S->proc );
  memset( S->lock , 0 , sizeof S->lock );
  memset( S->cov , 0 , COVSZ );
  S->ngroup = 0;
  S->fuel = 200000000ULL; S->diskCap = -1; S->memCap = -1; S->bufSize = 4096; S->stackFill = 0; S->nproc = 0;
  S->clockBase = 1700000000.0; S->clockRate = 1.0; S->teamMax = 1;
  new_inode();                                   /* inode 0: unused */
}

static void set_key( const char *k , const char *v )
{
  long long n = atoll( v ); double d = atof( v );
#define KI( name ) if( strcmp( k , #name ) == 0 ) { S->name = n; return; }
#define KD( name ) if( strcmp( k , #name ) == 0 ) { S->name = d; return; }
  KI( fuel ) KI( seed ) KI( fillMode ) KI( stackFill ) KI( addrJitter ) KI( addrOrder ) KI( bufSize ) KI( readChunk ) KI( writeChunk )
  KI( stdoutMode ) KI( recycle ) KI( diskCap ) KI( memCap ) KI( tzMode ) KI( teamMax ) KI( teamMode ) KI( schedMode )
  KI( schedInterval ) KI( replaySched ) KI( hotProb ) KI( envMode ) KI( yieldEdges ) KD( clockBase ) KD( clockRate )
  fprintf( stderr , "host: unknown key %s\n" , k ); exit( 3 );
}

static int wantCov, wantSw, wantEv, maxFile;

static void run_world( void )
{
  pid_t pid[MAXPROC];
  S->yieldRng = S->seed * 7919 + 17;
  S->hash = 0xcbf29ce484222325ULL;
  int n = S->nproc;
  for( int i = 0 ; i < n ; i++ ) S->alive[i] = 1;
  S->turn = n > 1 ? pick_next() : 0;
  fflush( stdout );
  for( int i = 0 ; i < n ; i++ )
  {
    pid[i] = fork();
    if( pid[i] == 0 ) { child( i ); _exit( 96 ); }
    if( pid[i] < 0 ) { perror( "fork" ); exit( 3 ); }
  }
  int left = n;
  double waited = 0;
  while( left > 0 )
  {
    int st; pid_t r;
    if( n == 1 )
    {
      alarm( 240 );
      r = waitpid( pid[0] , &st , 0 );
      alarm( 0 );
      if( r < 0 && errno == EINTR ) { kill( pid[0] , SIGKILL ); waitpid( pid[0] , &st , 0 ); S->proc[0].kind = K_HUNG; break; }
    }
    else
    {
      alarm( 240 );
      r = waitpid( -1 , &st , 0 );
      alarm( 0 );
      if( r < 0 && errno == EINTR ) { for( int i = 0 ; i < n ; i++ ) if( S->alive[i] ) { kill( pid[i] , SIGKILL ); S->proc[i].kind = K_HUNG; } while( waitpid( -1 , &st , 0 ) > 0 ) ; break; }
    }
    (void) waited;
    for( int i = 0 ; i < n ; i++ ) if( pid[i] == r )
    {
      left--;
      if( WIFSIGNALED( st ) )
      {
        S->proc[i].kind = K_SIGNAL; S->proc[i].code = WTERMSIG( st );
        S->alive[i] = 0; sim_mix( 0xdead + WTERMSIG( st ) );
        if( n > 1 && S->turn == i ) { int k = pick_next(); if( k >= 0 ) { give_turn( k ); } }
      }
      else if( S->proc[i].kind == K_NONE ) { S->proc[i].kind = K_SIMERR; S->proc[i].code = WEXITSTATUS( st ); S->alive[i] = 0; if( n > 1 && S->turn == i ) { int k = pick_next(); if( k >= 0 ) { give_turn( k ); } } }
    }
  }
}

static void put( const void *p , size_t n ) { if( n ) fwrite( p , 1 , n , stdout ); }
static void putu( uint64_t v ) { put( &v , 8 ); }

static void respond( void )
{
  putu( 0x314d4953ULL );
  putu( S->hash ); putu( S->nproc ); putu( S->evTotal ); putu( S->nyield ); putu( S->trunc ); putu( S->diskUsed );
  for( int i = 0 ; i < S->nproc ; i++ )
  {
    Proc *P = &S->proc[i];
    putu( P->kind ); putu( P->code ); putu( P->edges ); putu( P->nalloc ); putu( P->nfree ); putu( P->nio ); putu( P->bytesAlloc );
    putu( P->liveBytes ); putu( P->peakBytes ); putu( P->badfree ); putu( P->openLeft ); putu( P->canary ); putu( P->ntime );
    putu( P->regions ); putu( P->switches ); putu( P->conflicts ); putu( P->maxteam ); putu( P->work ); put( &P->simtime , 8 );
  }
  putu( S->nfault );
  for( int i = 0 ; i < S->nfault ; i++ ) { putu( S->fault[i].seen ); putu( S->fault[i].fired ); }
  putu( S->nclock );
  for( int i = 0 ; i < S->nclock ; i++ ) putu( S->clock[i].done );
  putu( S->nino );
  for( int i = 0 ; i < S->nino ; i++ )
  {
    Inode *n = &S->ino[i];
    putu( n->size ); putu( n->written ); putu( n->created ); putu( n->isdir );
    int send = ( n->written || n->created ) && n->size <= maxFile;
    uint64_t h = 0xcbf29ce484222325ULL;
    if( n->written || n->created )
      for( int64_t o = 0 ; o < n->size ; o += CHUNK )
      { int64_t k = n->size - o < CHUNK ? n->size - o : CHUNK; uint8_t *b = ino_byte( n , o ); for( int64_t j = 0 ; j < k ; j++ ) h = ( h ^ b[j] ) * 0x100000001b3ULL; }
    putu( h ); putu( send );
    if( send ) for( int64_t o = 0 ; o < n->size ; o += CHUNK ) put( ino_byte( n , o ) , n->size - o < CHUNK ? n->size - o : CHUNK );
  }
  int nn = 0; for( int i = 0 ; i < S->nname ; i++ ) if( S->name[i].ino >= 0 ) nn++;
  putu( nn );
  for( int i = 0 ; i < S->nname ; i++ ) if( S->name[i].ino >= 0 ) { putu( S->name[i].ino ); putu( strlen( S->name[i].path ) ); put( S->name[i].path , strlen( S->name[i].path ) ); }
  int ne = wantEv ? S->nev : 0;
  putu( ne ); put( S->ev , sizeof( Event ) * ne );
  putu( wantGroups ? S->ngroup : 0 ); if( wantGroups ) put( S->group , sizeof S->group[0] * S->ngroup );
  putu( wantCov ? COVSZ : 0 ); if( wantCov ) put( S->cov , COVSZ );
  int ns = wantSw ? S->nsw : 0;
  putu( strlen( S->report ) ); put( S->report , strlen( S->report ) );
  putu( S->nsw ); putu( ns ); put( S->sw , sizeof( S->sw[0] ) * ns );
  fflush( stdout );
}

static void on_alarm( int s ) { (void) s; }

int main( int argc , char **argv )
{
  (void) argc;
  int pers = personality( 0xffffffff );
  if( pers != -1 && !( pers & ADDR_NO_RANDOMIZE ) && !getenv( "SIM_REEXEC" ) )
  {
    setenv( "SIM_REEXEC" , "1" , 1 );
    if( personality( pers | ADDR_NO_RANDOMIZE ) != -1 ) execv( "/proc/self/exe" , argv );
  }
  S = mmap( (void *) 0x300000000000ULL , sizeof( Shm ) , PROT_READ | PROT_WRITE , MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE , -1 , 0 );
  disk = mmap( (void *) 0x310000000000ULL , (size_t) NCHUNK * CHUNK , PROT_READ | PROT_WRITE , MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE , -1 , 0 );
  void *ar = mmap( ARENA_BASE , ARENA_SIZE , PROT_READ | PROT_WRITE , MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE , -1 , 0 );
  if( S == MAP_FAILED || disk == MAP_FAILED || ar != ARENA_BASE ) { perror( "mmap" ); return 3; }
  struct sigaction sa; memset( &sa , 0 , sizeof sa ); sa.sa_handler = on_alarm; sigaction( SIGALRM , &sa , NULL );
  signal( SIGPIPE , SIG_DFL );
  for( ;; )
  {
    reset_world(); wantGroups = wantCov = wantSw = 0; wantEv = 1; maxFile = 8 << 20;
    int cur = -1;
    for( ;; )
    {
      char *l = rdline();
      char cmd[32] = ""; int off = 0;
      sscanf( l , "%31s %n" , cmd , &off );
      char *rest = l + off;
      if( strcmp( cmd , "quit" ) == 0 ) return 0;
      else if( strcmp( cmd , "proc" ) == 0 ) { cur = S->nproc++; snprintf( S->proc[cur].cwd , MAXPATHLEN , "%s" , rest ); }
      else if( strcmp( cmd , "arg" ) == 0 ) { Proc *P = &S->proc[cur]; P->argv[P->argc++] = rdblob( atol( rest ) ); P->argv[P->argc] = NULL; }
      else if( strcmp( cmd , "file" ) == 0 )
      {
        long nl, dl; int fl; sscanf( rest , "%ld %ld %d" , &nl , &dl , &fl );
        char *nm = rdblob( nl ); char *d = rdblob( dl );
        int i = new_inode(); add_name( nm , i ); S->ino[i].readonly_ = fl & 1; S->ino[i].isdir = ( fl >> 1 ) & 1;
        ino_write( &S->ino[i] , 0 , (uint8_t *) d , dl ); S->diskUsed += dl;
        free( nm ); free( d );
      }
      else if( strcmp( cmd , "set" ) == 0 ) { char k[64], v[64]; sscanf( rest , "%63s %63s" , k , v ); set_key( k , v ); }
      else if( strcmp( cmd , "want" ) == 0 ) sscanf( rest , "%d %d %d %d %d" , &wantCov , &wantSw , &wantEv , &maxFile , &wantGroups );
      else if( strcmp( cmd , "fault" ) == 0 )
      {
        Fault *f = &S->fault[S->nfault]; memset( f , 0 , sizeof *f );
        long long nth, arg; int pl;
        sscanf( rest , "%d %d %lld %d %d %lld %d %d" , &f->proc , &f->op , &nth , &f->action , &f->err , &arg , &f->sticky , &pl );
        f->nth = nth; f->arg = arg;
        char *p = rdblob( pl ); snprintf( f->path , MAXPATHLEN , "%s" , p ); free( p );
        if( S->nfault < MAXFAULT - 1 ) S->nfault++;
      }
      else if( strcmp( cmd , "clock" ) == 0 )
      {
        ClockStep *c = &S->clock[S->nclock]; unsigned long long e;
        sscanf( rest , "%llu %d %lf" , &e , &c->kind , &c->value ); c->edge = e; c->done = 0;
        if( S->nclock < MAXCLOCK - 1 ) S->nclock++;
      }
      else if( strcmp( cmd , "sched" ) == 0 )
      {
        long n = atol( rest ); char *b = rdblob( n * 16 );
        S->nswPlan = n; memcpy( S->swPlan , b , n * 16 ); free( b );
      }
      else if( strcmp( cmd , "go" ) == 0 ) break;
      else { fprintf( stderr , "host: bad command %s\n" , cmd ); return 3; }
    }
    if( S->nproc == 0 ) return 3;
    run_world();
    respond();
  }
}
