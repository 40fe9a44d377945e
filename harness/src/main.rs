mod fp;
mod gen;
mod rng;
mod sys;
mod toybus;
mod opt;
mod rc;
mod solverh;
mod adapter;
mod exec;
mod part;
mod pass;
mod index;
mod blocks;
mod build;
mod expr;
mod number;
mod vmbus;
mod ser;
mod elf;
mod profile;
mod lit;

/// The most recent panic: its location and message, and the call stack.
static LAST: std::sync::Mutex<Option<(String, std::backtrace::Backtrace)>> = std::sync::Mutex::new(None);

fn main() {
    if std::env::var("VERIF_SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|i| {
            if let Ok(mut l) = LAST.try_lock() {
                *l = Some((i.to_string(), std::backtrace::Backtrace::force_capture()));
            }
        }));
    }
    if std::panic::catch_unwind(run).is_err() {
        if let Some((what, stack)) = LAST.lock().unwrap().take() {
            eprintln!("FATAL PANIC {what}\n{stack}");
        }
        std::process::exit(101);
    }
}

fn run() {
    let args: Vec<String> = std::env::args().collect();
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    match args[1].as_str() {
        "optfuzz" => opt::fuzz(args[2].parse().unwrap(), args[3].parse().unwrap()),
        "rc" => rc::record(n(2), n(3) as usize, n(4) as usize, n(5), &args[6]),
        "rcctor" => rc::constructors(n(2), &args[3]),
        "solver" => solverh::cases(n(2), n(3), n(4) as usize, n(5) as usize, &args[6]),
        "evaluator" => exec::evaluator(n(2), n(3), &args[4]),
        "candidates" => exec::candidates(n(2), n(3), &args[4]),
        "basic" => blocks::basic(n(2), n(3), n(2) % 8, &args[4]),
        "superblocks" => blocks::superblocks(n(2), n(3), &args[4]),
        "pgo" => blocks::pgo(n(2), n(3), &args[4]),
        "windows" => blocks::windows(n(2), n(3), &args[4]),
        "partitions" => part::partitions(n(2), n(3), &args[4]),
        "empirical" => part::empirical(n(2), n(3), &args[4]),
        "index" => index::cases(n(2), n(3), &args[4]),
        "determ" => build::determ(n(2), n(3), &args[4], &args[5]),
        "showblock" => build::show_block(n(2), n(3), n(4)),
        "exprs" => expr::cases(n(2), n(3), &args[4]),
        "literals" => lit::cases(n(2), n(3), &args[4]),
        "profiles" => profile::cases(n(2), n(3), &args[4]),
        "elf" => elf::cases(n(2), n(3), &args[4], &args[5]),
        "saves" => ser::cases(n(2), n(3), &args[4]),
        "vmbus" => vmbus::cases(n(2), n(3), &args[4]),
        "numbers" => number::cases(n(2), n(3), &args[4]),
        "rows" => build::rows(n(2), n(3), &args[4]),
        "guards" => build::guards(n(2), n(3), n(4) as usize, n(5) as usize, &args[6]),
        "pass" => pass::cases(n(2), n(3), &args[4], n(5) as usize, n(6) as usize, &args[7]),
        "optfixed" => opt::fixed(&args[2]),
        "optcases" => opt::cases(n(2), n(3), &args[4], n(5) as usize, n(6) as usize, &args[7]),
        _ => panic!("unknown command"),
    }
}
