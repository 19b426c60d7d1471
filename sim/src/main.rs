#![feature(alloc_error_hook)]
mod cv;
mod exec;
mod gen;
mod judge;
mod nest;
mod ops;
mod rt;
mod run;
mod spec;
mod streams;
mod drive;

#[global_allocator]
static GLOBAL: rt::SimAlloc = rt::SimAlloc;

fn oom(_: std::alloc::Layout) {
    unsafe { rt::rt_oom_hook() }
}
fn main() {
    unsafe {
        // same addresses in every process
        let p = libc::personality(0xffffffff);
        if p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_NO_ASLR").is_none() {
            if libc::personality(p as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong) >= 0 {
                std::env::set_var("SIM_NO_ASLR", "1");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
                eprintln!("exec: {e}");
            }
        }
        assert_eq!(rt::rt_cfg_size() as usize, std::mem::size_of::<rt::Cfg>());
        assert_eq!(rt::rt_result_size() as usize, std::mem::size_of::<rt::Res>());
        rt::rt_result();
    }
    std::alloc::set_alloc_error_hook(oom);
    std::panic::set_hook(Box::new(|i| {
        if unsafe { rt::rt_tid() } == 999 {
            eprintln!("harness panic: {i}");
        }
        nest::hook();
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(drive::main(&args));
}
