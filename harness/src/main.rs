//! lv: property checks for linfa-linalg. See /verif/DESIGN.md.
mod engine;
mod digest;
mod gen;
mod oracle;
mod props_dense;
mod props_misc;
mod props_lobpcg;
mod props_nonfinite;
mod props_storage;
mod scalar;

use engine::*;
use std::time::Instant;

#[macro_export]
macro_rules! by_type {
    ($s:expr, $cx:expr, $f:ident) => {{
        let k = $s.weighted(&[3, 2]);
        let counting = $crate::engine::FORCE_COUNTING.with(|c| c.get());
        $cx.label(if k == 0 { "type/f64" } else { "type/f32" });
        match (k, counting) {
            (0, false) => $f::<f64>($s, $cx),
            (_, false) => $f::<f32>($s, $cx),
            (0, true) => $f::<$crate::scalar::C64>($s, $cx),
            (_, true) => $f::<$crate::scalar::C32>($s, $cx),
        }
    }};
}

fn props() -> Vec<Prop> {
    let mut v = props_dense::props();
    v.extend(props_misc::props());
    v.extend(props_lobpcg::props());
    v.extend(props_nonfinite::props());
    v.extend(props_storage::props());
    v.push(digest::PROP);
    v.push(digest::PROP32);
    v
}

fn root() -> String {
    std::env::var("LV_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props() {
                println!("{} quick={} thorough={} pinned={}", p.id, p.quick, p.thorough, p.pinned.len());
            }
            0
        }
        Some("check") => cmd_check(&args[1..]),
        Some("replay") => cmd_replay(&args[1..]),
        Some("digest") => digest::cmd_digest(&args[1..]),
        _ => {
            eprintln!("usage: lv check <ID> [--tier quick|thorough] [--seed N] [--cases N] | replay <file> | list | digest ..");
            2
        }
    };
    // skip destructors: a case thread may still be running
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn cmd_check(args: &[String]) -> i32 {
    let id = args[0].as_str();
    let ps = props();
    let p = match ps.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no check for {}", id);
            return 2;
        }
    };
    let tier = arg(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed: u64 = arg(args, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let cases = arg(args, "--cases").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let threads = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let root = root();
    let known = load_known(&root, id);
    let t0 = Instant::now();
    let o = run_prop(p, cases, seed, threads, thorough, &known, 90);
    let wall = t0.elapsed().as_secs_f64();
    for k in &o.known {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    if let Some(m) = &o.inconclusive {
        eprintln!("INCONCLUSIVE property={}: {}", id, m);
        return 3;
    }
    write_evidence(&root, p, if thorough { "thorough" } else { "quick" }, seed, &o, wall);
    if arg(args, "--stats").is_some() {
        for (k, v) in &o.stats.labels {
            println!("  {:<44} {}", k, v);
        }
        for (k, v) in &o.stats.ratios {
            println!("  ratio {:<38} {:.3e}", k, v);
        }
        for s in &o.samples {
            println!("  sample {}", s.chars().take(300).collect::<String>());
        }
    }
    println!(
        "{} {}: {} cases, {} non-trivial ({} distinct), {:.1} s",
        id, tier, o.evaluations, o.nontrivial, o.distinct_nontrivial, wall
    );
    if let Some(v) = &o.violation {
        let path = write_replay(&root, id, seed, v);
        println!("{}: {}", v.fail.kind, v.fail.msg);
        println!("origin {}; input: {}", v.origin, v.note.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    0
}

fn cmd_replay(args: &[String]) -> i32 {
    let s = match std::fs::read_to_string(&args[0]) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", args[0], e);
            return 2;
        }
    };
    let field = |name: &str| -> Option<String> {
        let k = format!("\"{}\": ", name);
        let i = s.find(&k)? + k.len();
        let rest = &s[i..];
        let e = rest.find('\n').unwrap_or(rest.len());
        Some(rest[..e].trim_end_matches(',').trim_matches('"').to_string())
    };
    let id = field("property").unwrap_or_default();
    let origin = field("origin").unwrap_or_default();
    let counting = field("counting").as_deref() == Some("true");
    let tape: Vec<u64> = field("tape")
        .unwrap_or_default()
        .trim_matches(|c| c == '[' || c == ']')
        .split(',')
        .filter_map(|x| x.trim().parse().ok())
        .collect();
    let ps = props();
    let p = match ps.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 2,
    };
    FORCE_COUNTING.with(|c| c.set(counting));
    let mut cx = Cx::new(true);
    let r = if let Some(name) = origin.strip_prefix("pinned:") {
        match p.pinned.iter().find(|x| x.0 == name) {
            Some((_, f)) => match caught(|| f(&mut cx)) {
                Ok(r) => r,
                Err(m) => fail("panic", m),
            },
            None => return 2,
        }
    } else {
        run_case(p.run, &mut Source::replay(&tape), &mut cx)
    };
    println!("input: {}", cx.note);
    match r {
        Ok(()) => {
            println!("replay of {} passes", id);
            0
        }
        Err(f) => {
            println!("{}: {}", f.kind, f.msg);
            println!("VIOLATION property={} replay={}", id, args[0]);
            1
        }
    }
}
