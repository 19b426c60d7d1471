//! Interface to the simulator runtime (`csrc/simrt.c`).
use std::alloc::{GlobalAlloc, Layout};
use std::ffi::{c_char, c_int, c_void};

pub const NT: usize = 20;
pub const MAXTRACE: usize = 65536;
pub const OUTMAX: usize = 48 << 20;
pub const F_N: usize = 48;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Tr {
    pub step: u64,
    pub tid: u32,
    pub why: u32,
}

#[repr(C)]
pub struct Res {
    pub status: u32,
    pub ntrace: u32,
    pub steps: u64,
    pub hot: u64,
    pub switches: u64,
    pub preempts: u64,
    pub loghash: u64,
    pub schedhash: u64,
    pub simns: u64,
    pub allocs: u64,
    pub livebytes: u64,
    pub liveblocks: u64,
    pub races_checked: u64,
    pub nfutex: u64,
    pub natomic: u64,
    pub fault: [u64; F_N],
    pub curtid: u32,
    pub pad: u32,
    pub curop: [u32; NT],
    pub kind: [u8; 64],
    pub msg: [u8; 4000],
    pub err: [u8; 4000],
    pub errlen: u32,
    pub pad2: u32,
    pub cov: [u8; 8192],
    pub pcs: [u8; 8192],
    pub trace: [Tr; MAXTRACE],
    pub outlen: u64,
    pub out: [u8; OUTMAX],
}

#[repr(C)]
#[derive(Clone)]
pub struct Cfg {
    pub seed_sched: u64,
    pub seed_hash: u64,
    pub seed_fault: u64,
    pub mode: u32,
    pub p_hot: u32,
    pub plain_gap: u32,
    pub pct_d: u32,
    pub pct_len: u32,
    pub hash_mode: u32,
    pub alloc_policy: u32,
    pub poison: u32,
    pub fail_at: u64,
    pub spurious: u32,
    pub clockjump: u32,
    pub wake_mode: u32,
    pub stall_tid: u32,
    pub step_cap: u64,
    pub fair_cap: u32,
    pub race: u32,
    pub memcheck: u32,
    pub realloc_move: u32,
    pub nio: u32,
    pub io: [u32; 64],
    pub nreplay: u32,
    pub replay: [Tr; MAXTRACE],
}

extern "C" {
    pub fn rt_alloc(size: u64, align: u64, zero: c_int) -> *mut c_void;
    pub fn rt_free(p: *mut c_void, size: u64, align: u64);
    pub fn rt_realloc(p: *mut c_void, osize: u64, align: u64, nsize: u64) -> *mut c_void;
    pub fn rt_live_bytes() -> u64;
    pub fn rt_heap_used() -> u64;
    pub fn rt_heap_size() -> u64;
    pub fn rt_live_blocks() -> u64;
    pub fn rt_alloc_seq() -> u64;
    pub fn rt_live_dump(after: u64, buf: *mut c_char, n: u64) -> u64;
    pub fn rt_oom_hook();
    pub fn rt_result() -> *mut Res;
    pub fn rt_result_size() -> u64;
    pub fn rt_cfg_size() -> u64;
    pub fn rt_reset_result();
    pub fn rt_begin(c: *const Cfg);
    pub fn rt_go();
    pub fn rt_enter(op: u32);
    pub fn rt_leave();
    pub fn rt_progress();
    pub fn rt_pause() -> c_int;
    pub fn rt_resume(a: c_int);
    pub fn rt_tid() -> u32;
    pub fn rt_fault(i: u32);
    pub fn rt_release(k: u64);
    pub fn rt_acquire(k: u64);
    pub fn rt_violation_s(kind: *const c_char, msg: *const c_char, n: u64) -> !;
    pub fn rt_end() -> !;
    pub fn rt_exit(c: c_int) -> !;
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size() as u64, l.align() as u64, 0) as *mut u8
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size() as u64, l.align() as u64, 1) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rt_free(p as *mut c_void, l.size() as u64, l.align() as u64)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        rt_realloc(p as *mut c_void, l.size() as u64, l.align() as u64, n as u64) as *mut u8
    }
}

pub fn res() -> &'static mut Res {
    unsafe { &mut *rt_result() }
}
/// Run harness code in the middle of a simulated call (sink, reader or hasher
/// supplied by the caller): no scheduling points, harness heap.
pub fn paused<T>(f: impl FnOnce() -> T) -> T {
    struct G(c_int);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { rt_resume(self.0) }
        }
    }
    let _g = G(unsafe { rt_pause() });
    f()
}
pub fn violation(kind: &str, msg: &str) -> ! {
    unsafe {
        rt_pause();
        let k = format!("{kind}\0");
        rt_violation_s(k.as_ptr() as *const c_char, msg.as_ptr() as *const c_char, msg.len() as u64)
    }
}
pub fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&x| x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

/// SplitMix64: the only source of randomness in the harness.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fork(&mut self, tag: u64) -> Rng {
        let n = self.next();
        Rng::new(n, tag)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 32)
}
