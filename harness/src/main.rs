//! Executes cases (one JSON object per line) against the real crates and writes one JSON result per line.
//! Floats travel as texts (shortest round-trip form). A panic of the code under test is an outcome.
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod ops_boost;
mod ops_data;
mod ops_mt;
mod ops_tree;
mod util;

fn dispatch(c: &Value) -> Value {
    match c["op"].as_str().unwrap() {
        "split" => ops_data::split(c),
        "partition" => ops_data::partition_op(c),
        "chain" => ops_data::chain(c),
        "sorter" => ops_data::sorter(c),
        "vec" => ops_data::vec_op(c),
        "csv" => ops_data::csv_op(c),
        "print" => ops_tree::print_op(c),
        "tree" => ops_tree::tree_op(c),
        "twin" => ops_tree::twin_op(c),
        "score" => ops_tree::score_op(c),
        "boost" => ops_boost::boost_op(c),
        "history" => ops_boost::history_op(c),
        "mt" => ops_mt::mt_op(c),
        o => panic!("harness: unknown op {}", o),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "--print" {
        let mut s = String::new();
        std::io::stdin().read_line(&mut s).unwrap();
        ops_tree::print_child(&serde_json::from_str(&s).unwrap());
        return;
    }
    if std::env::var("VH_BACKTRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    let skip: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    // deep trees recurse: run on a thread with a large stack
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        for line in input.lines().skip(skip) {
            let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| dispatch(&c)));
            let mut o = Map::new();
            o.insert("id".into(), c["id"].clone());
            match r {
                Ok(v) => {
                    o.insert("outcome".into(), json!("ok"));
                    if let Value::Object(m) = v { for (k, x) in m { o.insert(k, x); } }
                }
                Err(e) => {
                    let msg = if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                        else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".to_string() };
                    o.insert("outcome".into(), json!("panic"));
                    o.insert("message".into(), json!(msg));
                }
            }
            let mut s = serde_json::to_string(&Value::Object(o)).unwrap();
            s.push('\n');
            out.write_all(s.as_bytes()).unwrap();
            out.flush().unwrap();
        }
    }).unwrap();
    if h.join().is_err() { std::process::exit(2); }
}
