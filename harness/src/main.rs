mod ahrs;
mod gen;
mod machine;
mod num;
mod out;
mod rotcase;
mod scal;
mod tok;

use gen::{Gen, Pool};
use std::fs;

/// harness gen  <out> <seed> <steps> <pool> <bad> <groups,...>   random call sequences
/// harness enum <out> <seed> <which>                             systematic call sequences
/// harness num  <out> <seed> <family> <count>                    numeric cases
/// harness numexec <out> <script>                                replay of numeric cases
/// harness ahrs <out> <seed> <family> <count>                    sensor and filter call sequences
/// harness ahrsexec <out> <script>                               replay of sensor and filter calls
/// harness scal <out> <seed> <family> <count>                    scalar helpers and complex registers
/// harness scalexec <out> <script>                               replay of those
/// harness exec <out> <script>                                   replay of a script
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let out = args[2].clone();
    out::watchdog(out.clone(), 20);
    let num = |k: usize| args[k].parse::<u64>().unwrap();
    match args[1].as_str() {
        "gen" => {
            let pool = match args[5].as_str() {
                "exact" => Pool::Exact,
                "small" => Pool::Small,
                "unit" => Pool::Unit,
                "large" => Pool::Large,
                "scale" => Pool::Scale,
                _ => Pool::Wild,
            };
            let groups: Vec<&str> = args[7].split(',').collect();
            let mut g = Gen::new(num(3), &out, &groups, pool, args[6].parse().unwrap());
            while g.tr.events < num(4) {
                g.step();
            }
            g.tr.finish();
        }
        "enum" => {
            let mut g = Gen::new(num(3), &out, &["all"], Pool::Exact, 0.0);
            for w in args[4].split(',') {
                match w {
                    "uninit" => g.enum_uninit(),
                    "show" => g.enum_show(),
                    "life" => g.enum_life(),
                    "access" => g.enum_access(),
                    "edit" => g.enum_edit(),
                    "ew" => g.enum_ew(),
                    "prod" => g.enum_prod(),
                    "interp" => g.enum_interp(),
                    "quat" => g.enum_quat(),
                    other => panic!("unknown enumeration {}", other),
                }
            }
            g.tr.finish();
        }
        "exec" => {
            let text = fs::read_to_string(&args[3]).expect("script");
            let mut m = machine::Machine::new();
            let mut tr = out::Trace::new(&out);
            for line in text.lines() {
                if let Some(op) = machine::Op::parse(line) {
                    if !machine::Machine::aliased(&op) {
                        m.exec(&op, &mut tr);
                    }
                }
            }
            tr.finish();
        }
        "num" => {
            let mut tr = out::Trace::new(&out);
            num::generate(&mut tr, &args[4], num(3), num(5));
            tr.finish();
        }
        "numexec" => {
            let text = fs::read_to_string(&args[3]).expect("script");
            let mut tr = out::Trace::new(&out);
            text.lines().filter_map(num::Case::parse).for_each(|c| c.run(&mut tr));
            tr.finish();
        }
        "ahrs" => {
            let mut tr = out::Trace::new(&out);
            ahrs::generate(&mut tr, &args[4], num(3), num(5));
            tr.finish();
        }
        "ahrsexec" => {
            let text = fs::read_to_string(&args[3]).expect("script");
            let mut tr = out::Trace::new(&out);
            ahrs::Ahrs::script(&text, &mut tr);
            tr.finish();
        }
        "scal" => {
            let mut tr = out::Trace::new(&out);
            scal::generate(&mut tr, &args[4], num(3), num(5));
            tr.finish();
        }
        "scalexec" => {
            let text = fs::read_to_string(&args[3]).expect("script");
            let mut tr = out::Trace::new(&out);
            scal::Scal::script(&text, &mut tr);
            tr.finish();
        }
        other => panic!("unknown mode {}", other),
    }
}
