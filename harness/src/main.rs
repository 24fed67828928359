use ffcheck::{alloc::Counting, props, runner};

#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let prop = || props::find(arg(2)).unwrap_or_else(|| panic!("unknown property {}", arg(2)));
    let code = match arg(1) {
        "check" => runner::check(arg(2)),
        "worker" => runner::worker(prop()),
        "one" => runner::one(prop(), arg(3)),
        "trace" => runner::trace(prop(), arg(3).parse().expect("index"), arg(4)),
        // For a check: what an unprivileged user gets.
        "open" => {
            props::io::open_as_other(arg(2));
            0
        }
        // For a check: a process whose every trace is observed.
        "subject" => {
            props::effects::subject();
            0
        }
        "replay" => runner::replay(arg(2)),
        // Every saved case with its outcome.
        "regress" => {
            runner::quiet_panics();
            for p in props::PROPS {
                for (what, c) in ffcheck::regress::cases(p.id) {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(c));
                    println!("{} {what}: {}", p.id, match r { Ok(Ok(())) => "passes".into(), Ok(Err(m)) => m, Err(_) => "panic".into() });
                }
            }
            0
        }
        // The literals of the code under test, for literals.txt.
        "literals" => {
            print!("{}", ffcheck::dict::listing());
            0
        }
        // The configurations a check compares with, for the check script.
        "drivers" => {
            for d in prop().drivers {
                println!("{d}");
            }
            0
        }
        _ => {
            eprintln!("usage: ffcheck check|worker|one|trace|replay|drivers ...");
            2
        }
    };
    std::process::exit(code);
}
