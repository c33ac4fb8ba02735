//! Mirror of shim/simshm.h.
#![allow(dead_code)]

pub const SIM_MAGIC: u32 = 0x5349_4d35;
pub const MAXINO: usize = 64;
pub const MAXDENT: usize = 96;
pub const PATHCAP: usize = 160;
pub const FILECAP: usize = 512 * 1024;
pub const OUTCAP: usize = 256 * 1024;
pub const NSLOT: usize = 3;
pub const MAXFD: usize = 32;
pub const MAXFAULT: usize = 16;
pub const TRACECAP: usize = 4096;
pub const ARGCAP: usize = 4096;

pub const K_FREE: u32 = 0;
pub const K_FILE: u32 = 1;
pub const K_DIR: u32 = 2;
pub const K_LINK: u32 = 3;

pub const F_ERR: u32 = 1;
pub const F_SHORT: u32 = 2;
pub const F_KILL_BEFORE: u32 = 3;
pub const F_KILL_AFTER: u32 = 4;

pub const OP_OPEN_R: u16 = 1;
pub const OP_OPEN_W: u16 = 2;
pub const OP_READ: u16 = 3;
pub const OP_WRITE: u16 = 4;
pub const OP_OUT: u16 = 5;
pub const OP_ERRW: u16 = 6;
pub const OP_STAT: u16 = 7;
pub const OP_CHDIR: u16 = 8;
pub const OP_CLOSE: u16 = 9;
pub const OP_CLOCK: u16 = 10;
pub const OP_RAND: u16 = 11;
pub const OP_TRUNC: u16 = 12;
pub const OP_SYNC: u16 = 13;
pub const OP_RENAME: u16 = 14;
pub const OP_UNLINK: u16 = 15;
pub const OP_LOCK: u16 = 16;
pub const OP_IOCTL: u16 = 17;
pub const OP_SEEK: u16 = 18;
pub const OP_GETCWD: u16 = 19;
pub const OP_MKDIR: u16 = 20;
pub const OP_OTHER: u16 = 21;

pub fn op_name(k: u16) -> &'static str {
    match k {
        OP_OPEN_R => "open-read",
        OP_OPEN_W => "open-write",
        OP_READ => "read",
        OP_WRITE => "write",
        OP_OUT => "stdout",
        OP_ERRW => "stderr",
        OP_STAT => "stat",
        OP_CHDIR => "chdir",
        OP_CLOSE => "close",
        OP_CLOCK => "clock",
        OP_RAND => "entropy",
        OP_TRUNC => "truncate",
        OP_SYNC => "sync",
        OP_RENAME => "rename",
        OP_UNLINK => "unlink",
        OP_LOCK => "lock",
        OP_IOCTL => "ioctl",
        OP_SEEK => "seek",
        OP_GETCWD => "getcwd",
        OP_MKDIR => "mkdir",
        _ => "other",
    }
}

pub const ST_IDLE: u32 = 0;
pub const ST_RUNNING: u32 = 1;
pub const ST_PARKED: u32 = 2;
pub const ST_ENDED: u32 = 3;

#[repr(C)]
pub struct Inode {
    pub kind: u32,
    pub mode: u32,
    pub size: u32,
    pub nlink: u32,
    pub lock_slot: i32,
    pub lock_fd: i32,
    pub shared: [u32; NSLOT],
    pub data: [u8; FILECAP],
}
#[repr(C)]
pub struct Dent {
    pub used: u32,
    pub ino: u32,
    pub path: [u8; PATHCAP],
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct FaultRec {
    pub kind: u32,
    pub ino: i32,
    pub nth: u32,
    pub seen: u32,
    pub action: u32,
    pub arg: i32,
    pub fired: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TraceRec {
    pub kind: u16,
    pub ino: i16,
    pub arg: i32,
    pub res: i32,
    pub fault: u32,
}
#[repr(C)]
pub struct Vfd {
    pub used: u32,
    pub ino: u32,
    pub flags: u32,
    pub pos: u32,
}
#[repr(C)]
pub struct Slot {
    pub argc: u32,
    pub envc: u32,
    pub args: [u8; ARGCAP],
    pub envs: [u8; ARGCAP],
    pub cwd: [u8; PATHCAP],
    pub clock_base_ns: i64,
    pub clock_tick_ns: i64,
    pub jump_ns: i64,
    pub jump_at: u32,
    pub nclock: u32,
    pub entropy: u64,
    pub nrand: u64,
    pub tty_cols: u32,
    pub nfault: u32,
    pub faults: [FaultRec; MAXFAULT],
    pub nops: u32,
    pub ntrace: u32,
    pub tr: [TraceRec; TRACECAP],
    pub fds: [Vfd; MAXFD],
    pub outlen: [u32; 2],
    pub out: [[u8; OUTCAP]; 2],
    pub killed: u32,
    pub status: i32,
    pub park: u32,
    pub state: u32,
    pub go: u32,
    pub want_ino: u32,
    pub want_ex: u32,
    pub want_bit: u32,
    pub unsupported: u32,
    pub unsupported_name: [u8; 32],
}
#[repr(C)]
pub struct Shm {
    pub magic: u32,
    pub shm_size: u32,
    pub disk_free: i64,
    pub dents: [Dent; MAXDENT],
    pub slots: [Slot; NSLOT],
    pub inodes: [Inode; MAXINO],
}
