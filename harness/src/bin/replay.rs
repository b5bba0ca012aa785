//! Native runs of the harnesses against the real crate.
//!
//! replay list
//! replay run HARNESS FILE         replay recorded choices (one line of bytes per choice)
//! replay search HARNESS SECS SEED OUT   look for choices that break an obligation
//! replay cases PROPERTY           run the concrete histories kept for a property
//! replay case NAME                run one of them
//!
//! Exit 0: held, 1: broken (message on stdout), 3: the choices are outside the harness' domain.
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};
use vh::nd::{self, Discard, Mode, Src, SRC};

static BEAT: AtomicU64 = AtomicU64::new(0);

enum Run {
    Held,
    Discarded,
    Broken(String),
}

fn once(f: fn(), mode: Mode) -> (Run, Mode, Vec<(char, u64)>) {
    SRC.with(|s| *s.borrow_mut() = Src { mode, at: 0, trace: vec![] });
    BEAT.fetch_add(1, SeqCst);
    let r = panic::catch_unwind(f);
    let src = SRC.with(|s| s.replace(Src { mode: Mode::Enum(vec![]), at: 0, trace: vec![] }));
    let run = match r {
        Ok(()) => Run::Held,
        Err(p) if p.is::<Discard>() => Run::Discarded,
        Err(p) => Run::Broken(
            p.downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into()),
        ),
    };
    (run, src.mode, src.trace)
}

fn dump(trace: &[(char, u64)]) -> String {
    let mut out = String::new();
    for (k, v) in trace {
        let n = match k {
            'w' => 4,
            'q' => 8,
            _ => 1,
        };
        let b: Vec<String> = v.to_le_bytes()[..n].iter().map(|b| b.to_string()).collect();
        out.push_str(&b.join(","));
        out.push('\n');
    }
    out
}

fn find(name: &str) -> fn() {
    vh::all()
        .into_iter()
        .find(|h| h.0.ends_with(name))
        .unwrap_or_else(|| panic!("no harness {}", name))
        .1
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "list" => {
            for h in vh::all() {
                println!("{}", h.0);
            }
        }
        "run" => {
            let vals = std::fs::read_to_string(&a[3]).unwrap();
            let vals = vals
                .lines()
                .map(|l| l.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
                .collect();
            std::thread::spawn(|| {
                std::thread::sleep(Duration::from_secs(20));
                println!("BROKEN the parse does not terminate");
                std::process::exit(1)
            });
            match once(find(&a[2]), Mode::Replay(vals)).0 {
                Run::Held => println!("HELD"),
                Run::Discarded => {
                    println!("DISCARDED");
                    std::process::exit(3)
                }
                Run::Broken(m) => {
                    println!("BROKEN {}", m);
                    std::process::exit(1)
                }
            }
        }
        "search" => {
            panic::set_hook(Box::new(|_| ()));
            let f = find(&a[2]);
            let secs: f64 = a[3].parse().unwrap();
            let mut seed: u64 = a[4].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1;
            let out = a[5].clone();
            let begin = Instant::now();
            let out2 = out.clone();
            std::thread::spawn(move || {
                let mut last = (0, Instant::now());
                loop {
                    std::thread::sleep(Duration::from_millis(200));
                    let b = BEAT.load(SeqCst);
                    if b != last.0 {
                        last = (b, Instant::now());
                    } else if last.1.elapsed() > Duration::from_secs(10) {
                        std::fs::write(&out2, dump(&nd::shared_trace())).unwrap();
                        println!("BROKEN the parse does not terminate");
                        std::process::exit(1)
                    }
                }
            });
            let (mut runs, mut held) = (0u64, 0u64);
            let mut choices = Some(vec![]);
            loop {
                let t = begin.elapsed().as_secs_f64();
                if t > secs {
                    break;
                }
                // Exhaustive enumeration for the first half of the time, then random choices
                let mode = if choices.is_some() && t < secs / 2.0 {
                    Mode::Enum(choices.take().unwrap())
                } else {
                    choices = None;
                    seed ^= seed << 13;
                    seed ^= seed >> 7;
                    seed ^= seed << 17;
                    Mode::Rand(seed)
                };
                let (run, mode, trace) = once(f, mode);
                runs += 1;
                match run {
                    Run::Held => held += 1,
                    Run::Discarded => (),
                    Run::Broken(m) => {
                        std::fs::write(&out, dump(&trace)).unwrap();
                        println!("BROKEN {}", m);
                        std::process::exit(1)
                    }
                }
                if let Mode::Enum(mut ch) = mode {
                    ch.truncate(trace.len());
                    while let Some(l) = ch.last_mut() {
                        l.0 += 1;
                        if l.0 < l.1 {
                            break;
                        }
                        ch.pop();
                    }
                    if ch.is_empty() {
                        println!("HELD runs={} held={} exhaustive=1", runs, held);
                        return;
                    }
                    choices = Some(ch);
                }
            }
            println!("HELD runs={} held={} exhaustive=0", runs, held);
        }
        "cases" => {
            for c in vh::cases::CASES.iter().filter(|c| c.property == a[2]) {
                println!("{}", c.name);
            }
        }
        "case" => {
            let c = vh::cases::CASES.iter().find(|c| c.name == a[2]).expect("no such case");
            panic::set_hook(Box::new(|_| ()));
            match panic::catch_unwind(c.run) {
                Ok(Ok(())) => println!("HELD"),
                Ok(Err(m)) => {
                    println!("BROKEN {}", m);
                    std::process::exit(1)
                }
                Err(_) => {
                    println!("BROKEN panic");
                    std::process::exit(1)
                }
            }
        }
        _ => panic!("usage"),
    }
}
