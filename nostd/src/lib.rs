//! Compiles only if nothing in the crate graph brings in the standard library: `std` defines the
//! panic handler, too, and a second one is a compile error.
#![no_std]
extern crate ntfs;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}
