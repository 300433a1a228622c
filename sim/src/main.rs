mod alloc;
mod case;
mod engine;
mod hostile;
mod mem;
mod ops;
mod pool;
mod props;
mod rng;
mod rt;
mod scn;
mod wire;

/// Runs this program again with a fixed address space layout: addresses are hashed by lock
/// tables, so they belong to what a seed decides.
fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_NO_ASLR").is_none() {
            libc::personality(p as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_NO_ASLR", "1").exec();
            eprintln!("cannot fix the address space layout: {e}");
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    no_aslr();
    rt::init_process();
    ops::install();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let all = props::all();
    let find = |id: &str| all.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => engine::check(find(&a[2]), &a[3], seed, &root),
        Some("selftest") => engine::selftest(find(&a[2]), seed, a[3].parse().unwrap()),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let o = engine::replay(find(v["property"].as_str().unwrap()), &v);
            println!("class {}", o.class());
            println!("digest {:016x}", o.digest);
            println!("{}", o.msg);
            o.bad() as i32
        }
        _ => {
            eprintln!("usage: sim check <property> quick|thorough | sim replay <file> | sim selftest <property> <runs>");
            2
        }
    };
    std::process::exit(code);
}
