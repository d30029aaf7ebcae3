//! Hash map orders come from the simulator: the operating system's randomness, which seeds the
//! standard library's hash maps once per thread, is answered from the seed of the run.

use std::cell::Cell;

thread_local! {
    static SEED: Cell<Option<u64>> = const { Cell::new(None) };
}

/// Called by the standard library.
///
/// # Safety
/// `buf` points to `len` writable bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = SEED.get().unwrap_or(0x5eed);
    let mut r = cvsim::rng::Rng::of(&[seed, 0x0065_6e74_726f_7079]);
    let out = std::slice::from_raw_parts_mut(buf, len);
    for b in out {
        *b = r.u64() as u8;
    }
    len as isize
}

/// Runs `f` as a process of its own would run: its hash maps are ordered by `seed`.
pub fn process<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> R {
    cvsim::runner::in_fresh_thread(move || {
        SEED.set(Some(seed));
        f()
    })
}
