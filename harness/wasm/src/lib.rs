//! The hashing harness as a WebAssembly module: one command in, one event out.
static mut OUT: Vec<u8> = Vec::new();

#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    vnative::quiet_panics();
    let mut v = vec![0u8; n];
    let p = v.as_mut_ptr();
    std::mem::forget(v);
    p
}

/// Takes the memory `room` gave; the answer's address and length.
#[no_mangle]
pub unsafe extern "C" fn run(p: *mut u8, n: usize) -> u64 {
    let v = Vec::from_raw_parts(p, n, n);
    let line = String::from_utf8(v).unwrap();
    let w: Vec<&str> = line.split_ascii_whitespace().collect();
    let out = vnative::hashing::command(&w).into_bytes();
    let r = ((out.as_ptr() as usize as u64) << 32) | out.len() as u64;
    OUT = out;
    r
}
