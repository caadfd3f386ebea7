//! Operating-system entropy seam: the process's `getrandom` is ours, so hash seeds and thread RNG
//! seeds are decided by the simulator.
use crate::rng::mix;
use std::sync::atomic::{AtomicU64, Ordering};

static STATE: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

pub fn set_os_entropy(seed: u64) {
    STATE.store(mix(seed), Ordering::SeqCst);
}
pub fn os_entropy_calls() -> u64 {
    CALLS.load(Ordering::SeqCst)
}

/// # Safety
/// `buf` must be valid for `len` bytes, as for the libc function this replaces.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    CALLS.fetch_add(1, Ordering::SeqCst);
    let mut i = 0;
    while i < len {
        let x = STATE.fetch_add(0x9E3779B97F4A7C15, Ordering::SeqCst);
        let bytes = mix(x).to_le_bytes();
        for b in bytes {
            if i < len {
                unsafe { *buf.add(i) = b };
                i += 1;
            }
        }
    }
    len as isize
}

/// Runs `f` as a fresh simulated process image: a new OS thread (joined at once, so never
/// concurrent) whose hash seeds and thread RNG come from `seed`.
pub fn in_process<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    set_os_entropy(seed);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, f)
            .expect("spawn")
            .join()
    })
}
