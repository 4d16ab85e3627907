mod ctx;
mod cli;
mod codecs;
mod color;
mod geom;
mod names;
mod ops;
mod pyref;
use ctx::*;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn nums(k: &str) -> Vec<f64> {
    std::env::var(k).unwrap_or_default().split(',').filter_map(|s| s.parse::<f64>().ok()).collect()
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    if id == "pyref" {
        return pyref::serve();
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scratch = std::path::PathBuf::from(std::env::var("NATIVE_SCRATCH").unwrap_or_else(|_| "/nonexistent".into()));
    install_hook();
    let mut c = Ctx {
        thorough,
        rng: Rng::new(seed),
        ints: nums("NATIVE_INTS").iter().map(|v| *v as i64).collect(),
        floats: nums("NATIVE_FLOATS").iter().map(|v| *v as f32).collect(),
        evals: 0,
        seen: Default::default(),
        per_fn: Default::default(),
        samples: vec![],
        exhaustive: vec![],
        start: std::time::Instant::now(),
        scratch,
    };
    let f: fn(&mut Ctx) -> Res = match id.as_str() {
        "C01" => geom::c01,
        "C02" => geom::c02,
        "C03" => geom::c03,
        "C04" => geom::c04,
        "C05" => geom::c05,
        "C06" => geom::c06,
        "C07" => geom::c07,
        "C08" => geom::c08,
        "C09" => geom::c09,
        "C10" => color::c10,
        "C11" => color::c11,
        "C12" => color::c12,
        "C13" => color::c13,
        "C14" => color::c14,
        "C15" => color::c15,
        "C16" => codecs::c16,
        "C17" => codecs::c17,
        "C18" => codecs::c18,
        "C19" => ops::c19,
        "C20" => ops::c20,
        "C21" => color::c21,
        "C22" => ops::c22,
        "C27" => ops::c27,
        "C23" => ops::c23,
        "C24" => ops::c24,
        "C28" => names::c28,
        "C29" => cli::c29,
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    };
    let r = match run(|| f(&mut c)) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("harness error: {}", e);
            std::process::exit(3)
        }
    };
    let list = |v: &Vec<String>| format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    let per: Vec<String> = c.per_fn.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let fail = match &r {
        Ok(()) => "null".to_string(),
        Err(f) => format!("{{\"func\":{},\"input\":{},\"detail\":{}}}", esc(&f.func), esc(&trunc(&f.input, 4000)), esc(&trunc(&f.detail, 2000))),
    };
    println!(
        "{{\"id\":{},\"seed\":{},\"evals\":{},\"distinct\":{},\"wall\":{:.3},\"per_fn\":{{{}}},\"samples\":{},\"exhaustive\":{},\"fail\":{}}}",
        esc(&id), seed, c.evals, c.seen.len(), c.elapsed(), per.join(","), list(&c.samples), list(&c.exhaustive), fail
    );
}
