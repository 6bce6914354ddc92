//! Multi-threaded runs under controlled schedules. `TreeConfig.split_finder.find_best_split` is a public function
//! pointer that every builder calls for every node: it is replaced by a wrapper that records Start/Done events
//! under one lock and can hold a node back until its turn in a given order.
use crate::ops_boost::Model;
use crate::ops_tree::*;
use crate::util::*;
use common::{data_processor::create_dataset_with_sorted_features, datasets::MultiTargetDataSet, results::BestSplitResult};
use multi_target_decision_tree::{
    decision_trees::*,
    grad_boost_decision_trees::{grad_boost_leaf_output::*, AMGBoostTree, GradBoostMultiTargetDecisionTree},
    split_finder::{SplitFinder, SplitMetric},
};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Sched {
    on: bool,
    names: HashMap<String, String>,
    order: Vec<String>,
    next: usize,
    events: Vec<Value>,
    jitter: u64,
    patience_ms: u64,
}
static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

fn key(d: &MultiTargetDataSet) -> String { digest(&json!([mj(&d.feature_rows), mj(&d.labels)])) }

fn wrapped(d: &MultiTargetDataSet, k: u32) -> BestSplitResult {
    let real = SplitFinder::new(SplitMetric::Variance).find_best_split;
    let kk = key(d);
    let name;
    let jit;
    {
        let mut g = SCHED.lock().unwrap();
        let s = g.as_mut().unwrap();
        name = s.names.get(&kk).cloned().unwrap_or_else(|| "?".to_string());
        if !s.order.is_empty() {
            let deadline = Instant::now() + Duration::from_millis(s.patience_ms);
            loop {
                let s = g.as_mut().unwrap();
                let pos = s.order.iter().position(|x| *x == name);
                match pos { Some(p) if p > s.next => {}, _ => break }
                let now = Instant::now();
                if now >= deadline { break; }
                g = CV.wait_timeout(g, deadline - now).unwrap().0;
            }
        }
        let s = g.as_mut().unwrap();
        s.jitter = s.jitter.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        jit = if s.order.is_empty() { (s.jitter >> 33) % 4 } else { 0 };
        if s.on { s.events.push(json!({"e": "Start", "p": name.clone(), "th": rayon::current_thread_index().map_or(0, |x| x + 1)})); }
    }
    if jit == 1 { std::thread::yield_now(); }
    if jit == 2 { std::thread::sleep(Duration::from_micros(50)); }
    let r = real(d, k);
    {
        let mut g = SCHED.lock().unwrap();
        let s = g.as_mut().unwrap();
        if s.on { s.events.push(json!({"e": "Done", "p": name.clone(), "gain": fs(r.gain), "col": r.question.column as usize + 1, "thr": fs(r.question.value)})); }
        if let Some(p) = s.order.iter().position(|x| *x == name) { if p >= s.next { s.next = p + 1; } }
        CV.notify_all();
    }
    r
}

fn one(c: &Value, kind: &str, mt: bool, threads: usize, wrap: bool) -> Value {
    let d = dataset(c);
    let mut cfg = config(c, &d.labels);
    cfg.use_multi_threading = mt;
    if wrap { cfg.split_finder.find_best_split = wrapped; }
    let lo = LeafOutputCalculator::new(if c["lof"] == "mc" { LeafOutputType::MultiClassClassification } else { LeafOutputType::Regression });
    let p = pool(threads);
    match kind {
        "row" => { let t = p.install(|| RegressionMultiTargetDecisionTree::new(d, cfg)); nodes(&t.root, &reg_leaf) }
        "sorted" => { let sd = create_dataset_with_sorted_features(&d); let t = p.install(|| RegressionMultiTargetDecisionTreeNewPartition::new(sd, cfg)); nodes(&t.root, &sorted_leaf) }
        "gb" => { let t = p.install(|| GradBoostMultiTargetDecisionTree::new(d, cfg, lo)); nodes(&t.root, &gb_leaf) }
        "amg" => { let t = p.install(|| AMGBoostTree::new(d, cfg, lo)); nodes(&t.root, &amg_leaf) }
        k => {
            let k = &k[6..]; // boost-reg, boost-mc, boost-amg
            let mut cc = c.clone();
            cc["mt"] = json!(mt);
            cc["threads"] = json!(threads);
            let m = Model::train(k, &cc);
            let mut j = m.json();
            let test = MultiTargetDataSet { feature_rows: pm(&c["rows"]), labels: pm(&c["labels"]), feature_columns: vec![] };
            j["batch"] = p.install(|| mj(&m.batch(&test)));
            j["score"] = p.install(|| f(m.score(&test)));
            j
        }
    }
}

/// Content key -> path, by replaying the dumped questions over the rows.
fn names(c: &Value, tree: &Value) -> HashMap<String, String> {
    let mut out = HashMap::new();
    let by: HashMap<String, Value> = tree.as_array().unwrap().iter().map(|n| (n["p"].as_str().unwrap().to_string(), n.clone())).collect();
    fn go(p: String, d: MultiTargetDataSet, by: &HashMap<String, Value>, out: &mut HashMap<String, String>) {
        out.insert(key(&d), p.clone());
        let n = match by.get(&p) { Some(n) => n, None => return };
        if !n["tb"].as_bool().unwrap() { return; }
        let (col, thr) = (us(n, "col", 1) - 1, pf(&n["thr"]));
        let mut s = [MultiTargetDataSet { feature_rows: vec![], labels: vec![], feature_columns: vec![] }, MultiTargetDataSet { feature_rows: vec![], labels: vec![], feature_columns: vec![] }];
        for (r, l) in d.feature_rows.iter().zip(&d.labels) {
            let i = if r[col] >= thr { 0 } else { 1 };
            s[i].feature_rows.push(r.clone());
            s[i].labels.push(l.clone());
        }
        let [t, f] = s;
        go(format!("{}T", p), t, by, out);
        go(format!("{}F", p), f, by, out);
    }
    go(String::new(), dataset(c), &by, &mut out);
    out
}

/// A random order of the nodes in which every node comes after its parent.
fn shuffled(tree: &Value, seed: u64) -> Vec<String> {
    let all: Vec<String> = tree.as_array().unwrap().iter().map(|n| n["p"].as_str().unwrap().to_string()).collect();
    let (mut ready, mut out, mut x) = (vec![String::new()], vec![], seed | 1);
    while !ready.is_empty() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        // bias towards the newest, the oldest, or anything
        let i = match seed % 3 { 0 => (x >> 33) as usize % ready.len(), 1 => ready.len() - 1 - ((x >> 33) as usize % 4).min(ready.len() - 1), _ => ((x >> 33) as usize % 4).min(ready.len() - 1) };
        let p = ready.remove(i);
        for b in ["F", "T"] { let c = format!("{}{}", p, b); if all.contains(&c) { ready.push(c) } }
        out.push(p);
    }
    out
}

pub fn mt_op(c: &Value) -> Value {
    let kind = c["kind"].as_str().unwrap();
    let base = one(c, kind, false, us(c, "base_threads", 1), false);
    let bd = digest(&base);
    let is_tree = !kind.starts_with("boost-");
    let mut runs = vec![];
    for r in c["runs"].as_array().unwrap() {
        let wrap = is_tree && kind != "sorted" && r["wrap"].as_bool().unwrap_or(false);
        if wrap {
            let mut s = Sched { on: true, names: names(c, &base), jitter: us(r, "jitter", 1) as u64, patience_ms: us(r, "patience", 20) as u64, ..Default::default() };
            if let Some(a) = r["order"].as_array() { s.order = a.iter().map(|x| x.as_str().unwrap().to_string()).collect(); }
            if let Some(seed) = r["shuffle"].as_u64() { s.order = shuffled(&base, seed); }
            *SCHED.lock().unwrap_or_else(|e| e.into_inner()) = Some(s);
        }
        let res = one(c, kind, r["mt"].as_bool().unwrap_or(true), us(r, "threads", 4), wrap);
        let dg = digest(&res);
        let ev = if wrap { SCHED.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap().events } else { vec![] };
        let mut o = json!({"digest": dg, "events": ev, "threads": us(r, "threads", 4), "mt": r["mt"].as_bool().unwrap_or(true)});
        if dg != bd { o["got"] = res; }
        runs.push(o);
    }
    json!({"base": if is_tree && c["full"].as_bool().unwrap_or(false) { base } else { json!([]) }, "bdigest": bd, "runs": runs})
}
