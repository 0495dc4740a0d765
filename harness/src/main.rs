mod alloc;
mod data;
mod dict;
mod driver;
mod fuzz;
mod io;
mod opts;
mod props;
mod refs;
mod selftest;
mod toks;

use driver::{replay, run, Args};
use props::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

macro_rules! dispatch {
    ($id:expr, $f:expr; $($p:path),* $(,)?) => {
        match $id {
            $(x if x == <$p as driver::Prop>::ID => $f(&$p),)*
            _ => { eprintln!("unknown property {}", $id); 2 }
        }
    };
}
macro_rules! all {
    ($id:expr, $f:expr) => {
        dispatch!($id, $f; codec::C01, codec::C02, codec::C03, codec::C04, codec::C05, lzss::C06, lzss::C07,
            lzw::C08, lzw::C09, lzw::C10, td0::C11, td0::C12, td0::C13, robust::C14, robust::C15, robust::C16,
            streams::C17, robust::C18, streams::C19, streams::C20, streams::C21, cli::C22, cli::C23, td0::C24,
            streams::C25, lzw::C26)
    };
}
struct Check(Args);
impl Check {
    fn go<P: driver::Prop>(&self, p: &P) -> i32 {
        run(p, &self.0)
    }
}
fn main() {
    driver::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or(d.to_string());
    let code = match a.iter().map(|x| x.as_str()).collect::<Vec<_>>()[..] {
        ["check", id] if std::env::var("RCVERIF_CHILD").is_err() => driver::supervise(id, &env("RCVERIF_OUT", ".")),
        ["check", id] => {
            let args = Args {
                seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
                thorough: env("VERIF_TIER", "quick") == "thorough",
                out_dir: env("RCVERIF_OUT", "."),
                scale: env("RCVERIF_SCALE", "1").parse().unwrap_or(1.0),
            };
            let c = Check(args);
            all!(id, |p| c.go(p))
        }
        ["fuzz", id] => {
            let n = env("VERIF_FUZZ_SECONDS", "240").parse().unwrap_or(240);
            let seed = env("VERIF_SEED", "1").parse().unwrap_or(1);
            all!(id, |p| fuzz::run(p, &env("RCVERIF_OUT", "."), n, seed))
        }
        ["fuzz-worker", id, out, n, seed] => {
            let (n, seed) = (n.parse().expect("seconds"), seed.parse().expect("seed"));
            all!(id, |p| fuzz::worker(p, out, n, seed))
        }
        ["replay", path] => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("json");
            let id = v["property"].as_str().expect("property").to_string();
            all!(id.as_str(), |p| replay(p, path))
        }
        ["seq"] => streams::seq_main(),
        ["dict"] => {
            dict::dict().nums.iter().for_each(|n| println!("{n}"));
            0
        }
        ["selftest"] => selftest::run(),
        _ => {
            eprintln!("usage: rcverif check ID | replay FILE | selftest");
            2
        }
    };
    std::process::exit(code);
}
