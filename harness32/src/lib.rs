//! `run` carries out a request lying in memory; the answer is at `result_ptr`, of `result_len` bytes.
//! After a trap, the message of the panic is found there.

#[path = "../../harness/src/exec32.rs"]
mod exec32;

static mut RESULT: Vec<u8> = Vec::new();

#[allow(static_mut_refs)]
fn set(v: Vec<u8>) {
    unsafe { RESULT = v }
}

#[no_mangle]
pub extern "C" fn request(len: usize) -> *mut u8 {
    set(Vec::new());
    Box::leak(vec![0u8; len].into_boxed_slice()).as_mut_ptr()
}

/// # Safety
/// `p` is what `request(len)` returned.
#[no_mangle]
pub unsafe extern "C" fn run(p: *mut u8, len: usize) {
    std::panic::set_hook(Box::new(|i| set(i.to_string().into_bytes())));
    let req = Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, len));
    set(exec32::exec(&req));
}

#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn result_ptr() -> *const u8 {
    unsafe { RESULT.as_ptr() }
}

#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn result_len() -> usize {
    unsafe { RESULT.len() }
}

#[no_mangle]
pub extern "C" fn pointer_bits() -> u32 {
    usize::BITS
}
