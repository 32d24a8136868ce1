//! Shows that the library does without the standard library where its `std`
//! feature is off: there could not be two panic handlers.
#![no_std]

#[panic_handler]
fn handle(_: &core::panic::PanicInfo) -> ! { loop {} }

#[cfg(feature = "oa")]
mod heap {
    struct None;
    unsafe impl core::alloc::GlobalAlloc for None {
        unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 { core::ptr::null_mut() }
        unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
    }
    #[global_allocator]
    static HEAP: None = None;
}

#[no_mangle]
pub extern "C" fn probe(x: u32) -> u32 {
    use oct::decode::{Decode, Input};
    use oct::encode::{Encode, Output};
    let mut buf = [0u8; 16];
    let mut o = Output::new(&mut buf);
    x.encode(&mut o).unwrap();
    let n = o.position();
    u32::decode(&mut Input::new(&buf[..n])).unwrap()
}
