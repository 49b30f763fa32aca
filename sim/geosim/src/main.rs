//! Deterministic simulation of geokit: see /verif/DESIGN.md.
mod bin;
mod case;
mod curve;
mod driver;
mod gen;
mod line;
mod mem;
mod pipe;
mod proc;
mod world;

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

fn main() {
    // no address randomisation: everything that could depend on an address repeats
    unsafe {
        const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        let cur = libc::personality(0xffffffff);
        if cur >= 0 && cur as libc::c_ulong & ADDR_NO_RANDOMIZE == 0 && libc::getenv(c"GEOSIM_REEXEC".as_ptr()).is_null() {
            libc::personality(cur as libc::c_ulong | ADDR_NO_RANDOMIZE);
            libc::setenv(c"GEOSIM_REEXEC".as_ptr(), c"1".as_ptr(), 1);
            let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let mut argv: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
            argv.push(std::ptr::null());
            libc::execv(c"/proc/self/exe".as_ptr(), argv.as_ptr());
        }
    }
    simrt::sched::init();
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(driver::main(&args));
}
