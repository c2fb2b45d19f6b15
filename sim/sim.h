/* Deterministic simulator for the vulture programs: shared definitions. */
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>

#define MAXINODE   512
#define MAXNAME    1024
#define MAXPATHLEN 240
#define MAXPROC    4
#define MAXFAULT   64
#define MAXLOCK    256
#define MAXCLOCK   64
#define MAXEV      60000
#define MAXGROUP   2048
#define MAXHANDLE  256
#define CHUNK      4096
#define NCHUNK     (96*1024)        /* 384 MB of simulated disk, touched on demand */
#define INOCHUNK   16384            /* 64 MB largest simulated file */
#define COVSZ      65536
#define MAXSW      (1<<20)

/* How a simulated process ended. */
enum { K_NONE = 0, K_EXIT, K_SIGNAL, K_CRASHED, K_FUEL, K_HUNG, K_SIMERR };

/* Kinds of operation a fault can be attached to. */
enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_ALLOC, OP_SEEK, OP_EDGE, OP_UNLINK, OP_RENAME,
       OP_TIME, OP_EXIT, OP_FAULT, OP_MSG, OP_FREE, OP_MISC };

/* What a fault does. */
enum { A_ERR = 1, A_SHORT, A_SHORTERR, A_CRASH, A_CRASHAFTER, A_TORNCRASH, A_DROPERR };

typedef struct { uint8_t type, proc; uint16_t ino; int32_t res; int64_t a; uint64_t edge; } Event;

typedef struct {
  int op, action, err, proc; int64_t arg; int64_t nth; int sticky; char path[MAXPATHLEN];
  int64_t seen; int64_t fired;
} Fault;

typedef struct { uint64_t edge; int kind; double value; int done; } ClockStep;

typedef struct {
  int64_t size; int used; int nlink; int written; int readonly_; int created; int isdir;
  double mtime;
  uint32_t chunk[INOCHUNK];
} Inode;

typedef struct { char path[MAXPATHLEN]; int ino; } Name;

typedef struct {
  int kind, code; uint64_t edges, nalloc, nio, bytesAlloc, nfree, peakBytes, liveBytes, badfree, openLeft; double simtime;
  uint64_t ntime, regions, switches, conflicts, maxteam; int canary;
  int argc; char *argv[64]; char cwd[MAXPATHLEN];
  uint64_t startDelay;
  uint64_t work;                         /* bytes moved or searched inside calls of libc and of the file system */
} Proc;

typedef struct {
  /* plan */
  uint64_t fuel; uint64_t seed; int nproc; int nfault; Fault fault[MAXFAULT];
  int nclock; ClockStep clock[MAXCLOCK]; double clockBase, clockRate;
  int fillMode; int stackFill; int addrJitter; int addrOrder; int bufSize; int readChunk; int writeChunk; int stdoutMode; int recycle;
  int64_t diskCap; int64_t memCap; int tzMode;
  int teamMax, teamMode, schedMode; uint64_t schedInterval; int replaySched; uint64_t switchSeedMix;
  int hotProb; int envMode;
  int64_t yieldEdges;
  /* results */
  char report[160];
  uint64_t hash; int64_t diskUsed; uint32_t nextChunk; int nino; int nname; int nev; uint64_t evTotal;
  int nsw; int nswPlan; int trunc;
  volatile int turn; volatile int alive[MAXPROC]; uint64_t yieldRng; uint64_t nyield;
  Proc proc[MAXPROC];
  Name name[MAXNAME];
  struct { int used, ino, proc, h, excl; } lock[MAXLOCK];
  /* requests for memory by place in the program and size */
  int ngroup; struct { uint64_t key; uint32_t first, second, last, count; } group[MAXGROUP];
  Event ev[MAXEV];
  uint8_t cov[COVSZ];
  struct { uint64_t at; uint32_t from, to; } sw[MAXSW], swPlan[MAXSW];
  Inode ino[MAXINODE];
} Shm;

extern Shm *S;
extern uint8_t *disk;
extern int me;
extern int64_t sim_ctr;            /* ticks until the next slow-path event */
extern int sim_running;

void sim_tick_slow( void );
void sim_ctr_resync( void );
uint64_t sim_edges( void );
void sim_mix( uint64_t v );
void sim_event( int type , int ino , int res , int64_t a );
void sim_finish( int kind , int code ) __attribute__((noreturn));
uint64_t rng_next( uint64_t *s );
int target_main( int argc , char **argv );
void sim_enter_target( int argc , char **argv );
#endif
