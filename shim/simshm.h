/* Layout of the memory shared between the simulator (sim/src/shm.rs) and the
 * simulated libc (shim.c).  Keep the two in step. */
#ifndef SIMSHM_H
#define SIMSHM_H
#include <stdint.h>

#define SIM_MAGIC 0x53494d35u
#define MAXINO 64
#define MAXDENT 96
#define PATHCAP 160
#define FILECAP (512 * 1024)
#define OUTCAP (256 * 1024)
#define NSLOT 3
#define MAXFD 32
#define MAXFAULT 16
#define TRACECAP 4096
#define ARGCAP 4096

enum { K_FREE = 0, K_FILE = 1, K_DIR = 2, K_LINK = 3 };

struct inode {
  uint32_t kind, mode, size, nlink;
  int32_t lock_slot; /* slot holding the exclusive flock, or -1 */
  int32_t lock_fd;   /* and through which descriptor */
  uint32_t shared[NSLOT]; /* descriptors of each slot holding a shared flock */
  uint8_t data[FILECAP];
};
struct dent {
  uint32_t used, ino;
  char path[PATHCAP];
};
struct fault {
  uint32_t kind;   /* OP_* of the call it hits */
  int32_t ino;     /* inode of that call, or -1 */
  uint32_t nth;    /* which of these calls, from 0 */
  uint32_t seen;   /* how many there have been */
  uint32_t action; /* F_* */
  int32_t arg;
  uint32_t fired;
};
enum { F_ERR = 1, F_SHORT = 2, F_KILL_BEFORE = 3, F_KILL_AFTER = 4 };

struct trace {
  uint16_t kind;
  int16_t ino;
  int32_t arg;
  int32_t res;
  uint32_t fault;
};
enum {
  OP_OPEN_R = 1, OP_OPEN_W, OP_READ, OP_WRITE, OP_OUT, OP_ERRW, OP_STAT, OP_CHDIR,
  OP_CLOSE, OP_CLOCK, OP_RAND, OP_TRUNC, OP_SYNC, OP_RENAME, OP_UNLINK, OP_LOCK,
  OP_IOCTL, OP_SEEK, OP_GETCWD, OP_MKDIR, OP_OTHER
};

struct vfd {
  uint32_t used, ino, flags, pos;
};
enum { ST_IDLE = 0, ST_RUNNING = 1, ST_PARKED = 2, ST_ENDED = 3 };

struct slot {
  uint32_t argc, envc;
  char args[ARGCAP];
  char envs[ARGCAP];
  char cwd[PATHCAP];
  int64_t clock_base_ns, clock_tick_ns, jump_ns;
  uint32_t jump_at, nclock;
  uint64_t entropy, nrand;
  uint32_t tty_cols, nfault;
  struct fault faults[MAXFAULT];
  uint32_t nops, ntrace;
  struct trace tr[TRACECAP];
  struct vfd fds[MAXFD];
  uint32_t outlen[2];
  uint8_t out[2][OUTCAP];
  uint32_t killed;
  int32_t status;
  uint32_t park;
  uint32_t state;    /* futex word */
  uint32_t go;       /* futex word */
  uint32_t want_ino; /* 1 + inode whose lock this process waits for */
  uint32_t want_ex;  /* it wants the lock for itself */
  uint32_t want_bit; /* its descriptor, as in shared */
  uint32_t unsupported;
  char unsupported_name[32];
};

struct shm {
  uint32_t magic, shm_size;
  int64_t disk_free; /* bytes left on the simulated disk, -1 = unlimited */
  struct dent dents[MAXDENT];
  struct slot slots[NSLOT];
  struct inode inodes[MAXINO];
};
#endif
