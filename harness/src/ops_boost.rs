use crate::ops_tree::{amg_leaf, gb_leaf, nodes};
use crate::util::*;
use common::datasets::*;
use multi_target_grad_boost::boosting_ensemble::{boosting_types::*, GradientBoostedEnsemble};
use serde_json::{json, Value};

pub enum Model { Reg(RegressionBoostModel), Mc(MultiClassBoostModel), Amg(AMGBoostModel) }

impl Model {
    pub fn train(kind: &str, c: &Value) -> Model {
        let d = dataset(c);
        let cfg = config(c, &d.labels);
        let (t, lr) = (us(c, "rounds", 1) as u32, pf(&c["lr"]));
        in_pool(c, || match kind {
            "reg" => Model::Reg(RegressionBoostModel::train(d, cfg, t, lr)),
            "mc" => Model::Mc(MultiClassBoostModel::train(d, cfg, t, lr)),
            "amg" => Model::Amg(AMGBoostModel::train(d, cfg, t, lr)),
            o => panic!("harness: unknown kind {}", o),
        })
    }
    pub fn predict(&self, q: &[f64]) -> Vec<f64> { match self { Model::Reg(m) => m.predict(q), Model::Mc(m) => m.predict(q), Model::Amg(m) => m.predict(q) } }
    pub fn batch(&self, t: &MultiTargetDataSet) -> Vec<Vec<f64>> {
        match self { Model::Reg(m) => m.calculate_all_predictions(t), Model::Mc(m) => m.calculate_all_predictions(t), Model::Amg(m) => m.calculate_all_predictions(t) }
    }
    pub fn score(&self, t: &MultiTargetDataSet) -> f64 { match self { Model::Reg(m) => m.calculate_score(t), Model::Mc(m) => m.calculate_score(t), Model::Amg(m) => m.calculate_score(t) } }
    pub fn json(&self) -> Value {
        let (trees, init, lr): (Vec<Value>, &Vec<f64>, f64) = match self {
            Model::Reg(m) => (m.trees.iter().map(|t| nodes(t, &gb_leaf)).collect(), &m.initial_guess, m.learning_rate),
            Model::Mc(m) => (m.trees.iter().map(|t| nodes(t, &gb_leaf)).collect(), &m.initial_guess, m.learning_rate),
            Model::Amg(m) => (m.trees.iter().map(|t| nodes(t, &amg_leaf)).collect(), &m.initial_guess, m.learning_rate),
        };
        json!({"trees": trees, "init": vj(init), "mlr": f(lr)})
    }
    fn init(&mut self) -> &mut Vec<f64> { match self { Model::Reg(m) => &mut m.initial_guess, Model::Mc(m) => &mut m.initial_guess, Model::Amg(m) => &mut m.initial_guess } }
    /// For a classifier: how much does the initial guess of another class have to be for that class to win?
    /// Bisects the public `initial_guess`; reports the largest losing and smallest winning value found.
    fn probe(&mut self, q: &[f64], limit: usize) -> Vec<Value> {
        let win = |v: Vec<f64>| v.iter().position(|x| *x == 1.).map_or(0, |i| i + 1);
        let c = win(self.predict(q));
        let saved = self.init().clone();
        let mut out = vec![];
        for d in (1..=saved.len()).filter(|d| *d != c).take(limit) {
            let mut wins = |x: f64, m: &mut Model| { m.init()[d - 1] = x; let w = win(m.predict(q)); m.init()[d - 1] = saved[d - 1]; w == d };
            let (mut lo, mut step) = (saved[d - 1], 1.0f64);
            let mut hi = lo + step;
            while !wins(hi, self) && step < 1e200 { lo = hi; step *= 4.; hi = saved[d - 1] + step; }
            for _ in 0..90 {
                let mid = lo + (hi - lo) / 2.;
                if mid == lo || mid == hi { break; }
                if wins(mid, self) { hi = mid } else { lo = mid }
            }
            out.push(json!({"c": c, "d": d, "lo": f(lo), "hi": f(hi)}));
        }
        out
    }
    /// keep only the first t trees
    pub fn truncate(&mut self, t: usize) {
        match self { Model::Reg(m) => m.trees.truncate(t), Model::Mc(m) => m.trees.truncate(t), Model::Amg(m) => m.trees.truncate(t) }
    }
}

pub fn boost_op(c: &Value) -> Value {
    let kind = c["kind"].as_str().unwrap();
    let mut m = Model::train(kind, c);
    let test = MultiTargetDataSet { feature_rows: pm(&c["qrows"]), labels: pm(&c["qlabels"]), feature_columns: vec![] };
    let mut o = m.json();
    let pred: Vec<Value> = test.feature_rows.iter().map(|q| vj(&m.predict(q))).collect();
    o["pred"] = json!(pred);
    // asked again and again: batches may be shared out among workers
    let mut bs = vec![m.batch(&test)];
    for _ in 0..(if test.feature_rows.len() > 200 { 40 } else { 3 }) {
        let x = pool(8).install(|| m.batch(&test));
        if bs.iter().all(|b| mj(b) != mj(&x)) && bs.len() < 3 { bs.push(x); }
    }
    o["batch"] = json!(bs.iter().map(|b| mj(b)).collect::<Vec<_>>());
    o["score"] = f(m.score(&test));
    if let Some(ps) = c["probes"].as_array() {
        let mut r = vec![];
        for x in ps {
            let q = &test.feature_rows[x.as_u64().unwrap() as usize - 1];
            r.extend(m.probe(q, us(c, "probe_limit", 3)).into_iter().map(|mut v| { v["q"] = vj(q); v }));
        }
        o["probe"] = json!(r);
    }
    if c["light"].as_bool().unwrap_or(false) {
        // long training: only finiteness and final answers are of interest
        let fin = |v: &Value| -> bool { let s = v.as_str().unwrap(); s != "NaN" && s != "inf" && s != "-inf" };
        let mut bad = 0;
        for t in o["trees"].as_array().unwrap() {
            for n in t.as_array().unwrap() {
                if let Some(a) = n["leaf"]["out"].as_array() { if !a.iter().all(fin) { bad += 1; } }
                if n["leaf"]["max"].is_string() && !fin(&n["leaf"]["max"]) { bad += 1; }
            }
        }
        o["ntrees"] = json!(o["trees"].as_array().unwrap().len());
        o["badleaves"] = json!(bad);
        o["trees"] = json!([]);
    }
    // answers of the model made of the first t trees, t = rounds-1 .. 0
    if let Some(ps) = c["prefixes"].as_array() {
        let mut ts: Vec<usize> = ps.iter().map(|x| x.as_u64().unwrap() as usize).collect();
        ts.sort(); ts.reverse();
        let mut r = vec![];
        for t in ts {
            m.truncate(t);
            r.push(json!({"t": t, "score": f(m.score(&test)), "pred": mj(&m.batch(&test))}));
        }
        o["prefix"] = json!(r);
    }
    o
}

/// A sequence of API calls on named models; the result of every call is reported.
pub fn history_op(c: &Value) -> Value {
    let mut models: std::collections::HashMap<String, Model> = Default::default();
    let mut out = vec![];
    for s in c["calls"].as_array().unwrap() {
        let name = s["m"].as_str().unwrap().to_string();
        match s["call"].as_str().unwrap() {
            "train" => {
                let mut cc = c["train"].clone();
                if let Some(g) = c["cfgs"].get(us(s, "cfg", 0)).and_then(|g| g.as_object()) { for (k, v) in g { cc[k.as_str()] = v.clone(); } }
                for k in ["rounds", "mt", "threads", "kind"] { if !s[k].is_null() { cc[k] = s[k].clone(); } }
                let m = Model::train(cc["kind"].as_str().unwrap(), &cc);
                let j = m.json();
                let td: Vec<String> = j["trees"].as_array().unwrap().iter().map(digest).collect();
                out.push(json!({"trees": td, "init": j["init"], "mlr": j["mlr"]}));
                models.insert(name, m);
            }
            "predict" => out.push(json!({"pred": vj(&models[&name].predict(&pm(&c["qrows"])[us(s, "q", 1) - 1]))})),
            "batch" => {
                let qs: Vec<usize> = s["qs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
                let (r, l) = (pm(&c["qrows"]), pm(&c["qlabels"]));
                let t = MultiTargetDataSet { feature_rows: qs.iter().map(|i| r[*i].clone()).collect(), labels: qs.iter().map(|i| l[*i].clone()).collect(), feature_columns: vec![] };
                out.push(json!({"preds": mj(&models[&name].batch(&t))}));
            }
            "score" => {
                let qs: Vec<usize> = s["qs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
                let (r, l) = (pm(&c["qrows"]), pm(&c["qlabels"]));
                let t = MultiTargetDataSet { feature_rows: qs.iter().map(|i| r[*i].clone()).collect(), labels: qs.iter().map(|i| l[*i].clone()).collect(), feature_columns: vec![] };
                out.push(json!({"score": f(models[&name].score(&t))}));
            }
            "show" => {
                let j = models[&name].json();
                let td: Vec<String> = j["trees"].as_array().unwrap().iter().map(digest).collect();
                out.push(json!({"trees": td, "init": j["init"], "mlr": j["mlr"]}));
            }
            o => panic!("harness: unknown call {}", o),
        }
    }
    json!({"results": out})
}
