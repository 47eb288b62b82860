mod engine;
mod gen;
mod model;
mod obs;
mod oracle;
#[cfg(feature = "sched")]
mod sched;
mod suites;
mod sys;
mod tables;
#[cfg(feature = "work")]
mod work;

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let get = |k: &str| argv.iter().position(|a| a == k).map(|i| argv[i + 1].clone());
    let a = engine::Args {
        prop: get("--prop").unwrap_or_default(),
        tier: get("--tier").unwrap_or("quick".into()),
        config: get("--config").unwrap_or("?".into()),
        out: get("--out").unwrap_or("/dev/null".into()),
        replay: get("--replay").unwrap_or("/dev/null".into()),
        threads: get("--threads").map(|t| t.parse().unwrap()).unwrap_or(8),
        cap_s: get("--cap").map(|t| t.parse().unwrap()).unwrap_or(600),
        only: get("--only"),
    };
    let cmd = argv.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd == "parse" {
        // what library and model say about one input
        let input = engine::unhex(&get("--hex").expect("--hex"));
        let c = model::Cfg::current();
        println!("model:   {:?}", model::parse(&c, &input));
        let mut au = obs::Audit::new(vec![]);
        println!("library: {:?}", obs::result(&email_parser::prelude::Email::parse(&input), &mut au));
        return;
    }
    #[cfg(feature = "work")]
    if cmd == "growth" {
        // what one family of C26 costs, by number of repetitions
        let input = engine::unhex(&get("--hex").expect("--hex"));
        for k in 4..15 {
            let n: usize = get("--n").map(|n| n.parse::<usize>().unwrap() + k).unwrap_or(1 << k);
            let m = oracle::member(&input, n);
            let a = work::read();
            let r = oracle::read_all(&m);
            println!("{:6} repetitions {:8} bytes {:12} units {:?}", n, m.len(), work::read() - a, r);
        }
        return;
    }
    let mut spaces = suites::spaces(&a.prop, &a.tier);
    if spaces.is_empty() {
        eprintln!("no space for {} in this configuration", a.prop);
        std::process::exit(2);
    }
    if let Some(o) = &a.only {
        spaces.retain(|s| s.name.contains(o.as_str()));
    }
    let code = match cmd {
        "run" => engine::run(&a, spaces),
        "work" => engine::work(&a, spaces, &get("--slots").unwrap()),
        "one" => engine::one(spaces, get("--sid").unwrap().parse().unwrap(), get("--index").unwrap().parse().unwrap()),
        "replay" => {
            let name = get("--space").unwrap();
            let sp = spaces.iter().find(|s| s.name == name).expect("space");
            engine::on_input(sp, &engine::unhex(&get("--hex").unwrap()))
        }
        "list" => {
            let mut tot = 0;
            for s in &spaces {
                println!("{:>12} {}", s.g.count(), s.name);
                tot += s.g.count();
            }
            println!("{:>12} total", tot);
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
