//! Detection as a WebAssembly module: a machine of 32 bits (see `../wasm.mjs`).

#[path = "../src/pieces.rs"]
mod pieces;

const BYTES: u64 = 1 << 20;

/// Memory for a message of this length.
#[unsafe(no_mangle)]
pub extern "C" fn message(len: usize) -> *mut u8 {
    Box::leak(vec![0; len].into_boxed_slice()).as_mut_ptr()
}

/// The answer to the message, which is released, as is the previous answer.
///
/// # Safety
/// The memory must be what `message` gave for this length.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn answer(message: *mut u8, len: usize) -> *const u8 {
    static mut ANSWER: Vec<u8> = Vec::new();
    // SAFETY: as the caller promises; there are no threads.
    let message = unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(message, len)) };
    let a = pieces::content(&mut &message[..]).map_or(vec![0], |p| pieces::answer(&p, BYTES));
    // SAFETY: there are no threads.
    unsafe {
        ANSWER = a;
        (*&raw const ANSWER).as_ptr()
    }
}
