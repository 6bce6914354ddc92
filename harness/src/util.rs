use common::{data_reader::create_feature_columns, datasets::MultiTargetDataSet};
use multi_target_decision_tree::{
    decision_trees::TreeConfig,
    leaf::Leaf,
    node::TreeNode,
    split_finder::{SplitFinder, SplitMetric},
};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub fn f(x: f64) -> Value { json!(fs(x)) }
pub fn fs(x: f64) -> String { format!("{:?}", x) }
pub fn pf(v: &Value) -> f64 { v.as_str().unwrap().parse().unwrap() }
pub fn pv(v: &Value) -> Vec<f64> { v.as_array().unwrap().iter().map(pf).collect() }
pub fn pm(v: &Value) -> Vec<Vec<f64>> { v.as_array().unwrap().iter().map(pv).collect() }
pub fn vj(v: &[f64]) -> Value { Value::Array(v.iter().map(|x| f(*x)).collect()) }
pub fn mj(v: &[Vec<f64>]) -> Value { Value::Array(v.iter().map(|x| vj(x)).collect()) }
pub fn us(c: &Value, k: &str, d: usize) -> usize { c[k].as_u64().map(|x| x as usize).unwrap_or(d) }

/// Built from the case, not with the code under test.
pub fn dataset(c: &Value) -> MultiTargetDataSet {
    let rows = pm(&c["rows"]);
    let labels = pm(&c["labels"]);
    let ncols = rows.first().map_or(0, |r| r.len());
    let cols = (0..ncols).map(|j| rows.iter().map(|r| r[j]).collect()).collect();
    let _ = create_feature_columns;
    MultiTargetDataSet { feature_rows: rows, feature_columns: cols, labels }
}

pub fn config(c: &Value, labels: &[Vec<f64>]) -> TreeConfig {
    TreeConfig {
        split_finder: SplitFinder::new(SplitMetric::Variance),
        use_multi_threading: c["mt"].as_bool().unwrap_or(false),
        number_of_classes: us(c, "k", labels[0].len()) as u32,
        max_levels: us(c, "max", 3) as u32,
    }
}

pub fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    static POOLS: Mutex<Option<HashMap<usize, Arc<rayon::ThreadPool>>>> = Mutex::new(None);
    let mut g = POOLS.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    m.entry(n).or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(64 << 20).build().unwrap())).clone()
}

pub fn in_pool<R: Send>(c: &Value, g: impl FnOnce() -> R + Send) -> R {
    let n = us(c, "threads", 4);
    pool(n).install(g)
}

/// Preorder list of nodes; `leaf` renders the payload of a leaf.
pub fn dump<L: Leaf>(n: &TreeNode<L>, path: String, leaf: &dyn Fn(&L) -> Value, out: &mut Vec<Value>) {
    out.push(json!({
        "p": path.clone(), "d": path.len(),
        "tb": n.true_branch.is_some(), "fb": n.false_branch.is_some(), "lf": n.leaf.is_some(),
        "isleaf": n.is_leaf_node(),
        "col": n.question.column + 1, "thr": fs(n.question.value),
        "leaf": match &n.leaf { Some(l) => leaf(l), None => json!([]) },
    }));
    if let Some(b) = &n.true_branch { dump(b, format!("{}T", path), leaf, out); }
    if let Some(b) = &n.false_branch { dump(b, format!("{}F", path), leaf, out); }
}

pub fn each_leaf<L: Leaf>(n: &mut TreeNode<L>, k: &mut usize, g: &mut dyn FnMut(&mut L, usize)) {
    if let Some(b) = n.true_branch.as_mut() { each_leaf(b, k, g); }
    if let Some(b) = n.false_branch.as_mut() { each_leaf(b, k, g); }
    if let Some(l) = n.leaf.as_mut() { *k += 1; g(l, *k); }
}

pub fn count_leaves<L: Leaf>(n: &TreeNode<L>) -> usize {
    n.true_branch.as_ref().map_or(0, |b| count_leaves(b)) + n.false_branch.as_ref().map_or(0, |b| count_leaves(b))
        + if n.leaf.is_some() { 1 } else { 0 }
}

pub fn digest(v: &Value) -> String {
    let s = serde_json::to_string(v).unwrap();
    let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9e3779b97f4a7c15u64);
    for x in s.bytes() {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        b = (b.rotate_left(5) ^ x as u64).wrapping_mul(0x9e3779b97f4a7c15);
    }
    format!("{:016x}{:016x}", a, b)
}
