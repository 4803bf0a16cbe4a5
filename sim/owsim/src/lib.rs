//! owsim: deterministic simulation of openworkers-runtime-v8.
pub mod driver;
#[macro_use]
pub mod h;

pub struct Scenario {
    pub name: &'static str,
    pub weight: u32,
    pub max_steps: u64,
    pub run: fn(),
}
pub struct Prop {
    pub id: &'static str,
    pub runs: u64,
    pub scenarios: Vec<Scenario>,
    pub must_reach: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

/// The program: `props` are the properties it can decide.
pub fn entry(props: Vec<Prop>, args: Vec<String>) -> i32 {
    // one arena: a forked run is short, and its pages have to be torn down again
    unsafe { libc::mallopt(libc::M_ARENA_MAX, 1) };
    v8trap::anchor();
    let _ = v8trap::HOOK.set(|n| simstd::sim::fail("harness-unstubbed-v8", n));
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("OWSIM_PANICS").is_some() {
            eprintln!("{i}");
        }
        let s = i.to_string();
        simstd::sim::log(|| format!("panic: {s}"));
    }));
    let verif = std::env::var("OWSIM_VERIF").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{} {:?}", p.id, p.scenarios.iter().map(|s| s.name).collect::<Vec<_>>());
            }
            0
        }
        Some("replay") => driver::replay_file(&args[2], &props),
        Some("trace") => {
            // owsim trace PROP SCENARIO SEED
            let p = props.iter().find(|p| p.id == args[2]).expect("property");
            let s = p.scenarios.iter().find(|s| s.name == args[3]).expect("scenario");
            h::set_prop(p.id);
            let r = driver::run_once(s, args[4].parse().unwrap(), None, true, false);
            for l in &r.log {
                println!("{l}");
            }
            println!("{:?} steps {} hash {:x} probes {:?}", r.violation, r.steps, r.hash, r.probes);
            0
        }
        Some("check") => {
            let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            if let Some(i) = args.iter().position(|a| a == "--tier") {
                tier = args[i + 1].clone();
            }
            let mut code = 0;
            let ids: Vec<&str> = if args[2] == "all" { props.iter().map(|p| p.id).collect() } else { vec![&args[2]] };
            for id in ids {
                let p = props.iter().find(|p| p.id == id).expect("unknown property");
                h::set_prop(p.id);
                code = code.max(driver::check(p, &tier, seed, &verif));
            }
            code
        }
        _ => {
            eprintln!("owsim check <PROP>|all [--tier quick|thorough] | replay <file> | trace <PROP> <SCENARIO> <SEED> | list");
            2
        }
    }
}

/// Freed memory is overwritten, so that use after free shows.
struct Poison;
unsafe impl std::alloc::GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe {
            if l.size() <= 1 << 16 {
                std::ptr::write_bytes(p, 0xDD, l.size());
            }
            std::alloc::System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static ALLOC: Poison = Poison;
