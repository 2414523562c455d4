use poly2tri_rs::loader::*;

/// 1: loaded, 2: error
fn load(path: *const u8, len: usize) -> u32 {
    let path = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(path, len)) };
    match PlainFileLoader::default().load(path) {
        Ok(b) => {
            std::mem::forget(b);
            1
        }
        Err(e) => {
            std::mem::forget(e);
            2
        }
    }
}

/// the entry of the symbolic execution
#[no_mangle]
pub extern "C" fn loadsym_load(path: *const u8, len: usize) -> u32 {
    load(path, len)
}

/// the entry of replays: 0 is a panic
#[no_mangle]
pub extern "C" fn loadsym_run(path: *const u8, len: usize) -> u32 {
    std::panic::catch_unwind(|| load(path, len)).unwrap_or(0)
}
