use crate::util::*;
use common::{data_processor::create_dataset_with_sorted_features, datasets::*};
use multi_target_decision_tree::{
    decision_trees::*,
    grad_boost_decision_trees::{grad_boost_leaf_output::*, AMGBoostTree, GradBoostMultiTargetDecisionTree},
    leaf::*,
    node::TreeNode,
    printer::print_tree_regression,
    scorer::{classification, regression},
};
use multi_target_grad_boost::boosting_ensemble::{boosting_types::*, GradientBoostedEnsemble};
use serde_json::{json, Value};

pub fn reg_leaf(l: &RegressionLeaf) -> Value {
    let d = l.data.as_ref().unwrap();
    json!({"rows": mj(&d.feature_rows), "labels": mj(&d.labels), "cols": mj(&d.feature_columns)})
}
pub fn sorted_leaf(l: &RegressionLeafNewPartition) -> Value {
    let d = l.data.as_ref().unwrap();
    json!({"labels": d.labels.iter().map(|l| vj(l)).collect::<Vec<_>>(),
           "vals": d.sorted_feature_columns.iter().map(|c| c.iter().map(|x| f(x.0)).collect::<Vec<_>>()).collect::<Vec<_>>(),
           "idx": d.sorted_feature_columns.iter().map(|c| c.iter().map(|x| x.1 + 1).collect::<Vec<_>>()).collect::<Vec<_>>()})
}
pub fn gb_leaf(l: &GradBoostLeaf) -> Value { json!({"out": vj(l.leaf_output.as_ref().unwrap())}) }
pub fn amg_leaf(l: &AMGBoostLeaf) -> Value { json!({"max": f(l.max_value.unwrap()), "class": l.class.unwrap() + 1}) }

pub fn nodes<L: Leaf>(t: &TreeNode<L>, leaf: &dyn Fn(&L) -> Value) -> Value {
    let mut v = vec![];
    dump(t, String::new(), leaf, &mut v);
    Value::Array(v)
}

fn onehot(k: usize, i: usize) -> Vec<f64> { let mut v = vec![0.; k]; v[i] = 1.; v }
fn which(v: &[f64]) -> usize { v.iter().position(|x| *x == 1.).map_or(0, |i| i + 1) }

fn lof(c: &Value) -> LeafOutputCalculator {
    LeafOutputCalculator::new(if c["lof"] == "mc" { LeafOutputType::MultiClassClassification } else { LeafOutputType::Regression })
}

/// Builds one tree of the asked kind, dumps it, and asks the real lookup code which leaf each query reaches:
/// the leaf payloads are overwritten with the number of the leaf (postorder of leaves = order of leaves in the
/// dump), and the number is read back through the public prediction functions.
pub fn tree_op(c: &Value) -> Value {
    let d = dataset(c);
    let cfg = config(c, &d.labels);
    let queries = pm(&c["queries"]);
    match c["kind"].as_str().unwrap() {
        "row" => {
            let mut t = in_pool(c, || RegressionMultiTargetDecisionTree::new(d, cfg)).root;
            let dump = nodes(&t, &reg_leaf);
            let n = count_leaves(&t);
            each_leaf(&mut t, &mut 0, &mut |l, i| {
                l.data = Some(MultiTargetDataSet { feature_rows: vec![vec![]], feature_columns: vec![], labels: vec![onehot(n, i - 1)] })
            });
            let b = Box::new(t);
            let look: Vec<usize> = queries.iter().map(|q| which(&classification::predict_class(q, &b))).collect();
            let look2: Vec<usize> = queries.iter().map(|q| {
                let one = MultiTargetDataSet { feature_rows: vec![q.clone()], feature_columns: vec![], labels: vec![vec![0.; n]] };
                let hits: Vec<usize> = (0..n).filter(|i| {
                    let ds = MultiTargetDataSet { labels: vec![onehot(n, *i)], ..one.clone() };
                    regression::calculate_overall_mean_squared_error(&ds, &b) == 0.
                }).map(|i| i + 1).collect();
                if hits.len() == 1 { hits[0] } else { 0 }
            }).collect();
            json!({"nodes": dump, "look": look, "look2": look2})
        }
        "sorted" => {
            let sd = create_dataset_with_sorted_features(&d);
            let t = in_pool(c, || RegressionMultiTargetDecisionTreeNewPartition::new(sd, cfg)).root;
            let dump = nodes(&t, &sorted_leaf);
            let n = count_leaves(&t);
            let ids: Vec<Vec<f64>> = (0..n).map(|i| onehot(n, i)).collect();
            let mut t: TreeNode<RegressionLeafNewPartition> = t;
            each_leaf(&mut t, &mut 0, &mut |l, i| {
                l.data = Some(MultiTargetDataSetSortedFeatures { labels: vec![Box::leak(Box::new(onehot(n, i - 1)))], sorted_feature_columns: vec![] })
            });
            let b = Box::new(t);
            let look: Vec<usize> = queries.iter().map(|q| {
                let hits: Vec<usize> = (0..n).filter(|i| {
                    let ds = MultiTargetDataSet { feature_rows: vec![q.clone()], feature_columns: vec![], labels: vec![ids[*i].clone()] };
                    regression::calculate_overall_mean_squared_error_new_partition(&ds, &b) == 0.
                }).map(|i| i + 1).collect();
                if hits.len() == 1 { hits[0] } else { 0 }
            }).collect();
            json!({"nodes": dump, "look2": look.clone(), "look": look})
        }
        "gb" => {
            let mut t = in_pool(c, || GradBoostMultiTargetDecisionTree::new(d, cfg, lof(c))).root;
            let dump = nodes(&t, &gb_leaf);
            let n = count_leaves(&t);
            each_leaf(&mut t, &mut 0, &mut |l, i| l.leaf_output = Some(onehot(n, i - 1)));
            let m = RegressionBoostModel { trees: vec![Box::new(t)], initial_guess: vec![0.; n], learning_rate: 1. };
            let look: Vec<usize> = queries.iter().map(|q| which(&m.predict(q))).collect();
            let m2 = MultiClassBoostModel { trees: m.trees, initial_guess: vec![0.; n], learning_rate: 1. };
            let look2: Vec<usize> = queries.iter().map(|q| which(&m2.predict(q))).collect();
            json!({"nodes": dump, "look": look, "look2": look2})
        }
        "amg" => {
            let mut t = in_pool(c, || AMGBoostTree::new(d, cfg, lof(c))).root;
            let dump = nodes(&t, &amg_leaf);
            let n = count_leaves(&t);
            each_leaf(&mut t, &mut 0, &mut |l, i| { l.max_value = Some(1.); l.class = Some(i - 1) });
            let m = AMGBoostModel { trees: vec![Box::new(t)], initial_guess: vec![0.; n + 1], learning_rate: 1. };
            let look: Vec<usize> = queries.iter().map(|q| which(&m.predict(q))).collect();
            json!({"nodes": dump, "look2": look.clone(), "look": look})
        }
        o => panic!("harness: unknown kind {}", o),
    }
}

pub fn score_op(c: &Value) -> Value {
    let d = dataset(c);
    let cfg = config(c, &d.labels);
    let test = MultiTargetDataSet { feature_rows: pm(&c["qrows"]), labels: pm(&c["qlabels"]), feature_columns: vec![] };
    let sd = create_dataset_with_sorted_features(&d);
    let s = Box::new(in_pool(c, || RegressionMultiTargetDecisionTreeNewPartition::new(sd, cfg)).root);
    let b = Box::new(in_pool(c, || RegressionMultiTargetDecisionTree::new(d.clone(), cfg)).root);
    let pred: Vec<Value> = test.feature_rows.iter().map(|q| vj(&classification::predict_class(q, &b))).collect();
    // errors on the training set for growing depth limits
    let (mut depths, mut sdepths) = (vec![], vec![]);
    if let Some(a) = c["levels"].as_array() {
        for lv in a {
            let mut g = cfg;
            g.max_levels = lv.as_u64().unwrap() as u32;
            let t = Box::new(in_pool(c, || RegressionMultiTargetDecisionTree::new(d.clone(), g)).root);
            depths.push(f(regression::calculate_overall_mean_squared_error(&d, &t)));
            let sd = create_dataset_with_sorted_features(&d);
            let t = Box::new(in_pool(c, || RegressionMultiTargetDecisionTreeNewPartition::new(sd, g)).root);
            sdepths.push(f(regression::calculate_overall_mean_squared_error_new_partition(&d, &t)));
        }
    }
    json!({"depths": depths, "sdepths": sdepths, "nodes": nodes(&b, &reg_leaf), "snodes": nodes(&s, &sorted_leaf), "pred": pred,
        "acc": f(classification::calculate_accuracy(&test, &b)),
        "mse": f(regression::calculate_overall_mean_squared_error(&test, &b)),
        "smse": f(regression::calculate_overall_mean_squared_error_new_partition(&test, &s))})
}

/// Two trees, from data sets a and b; errors of both on the given test sets.
pub fn twin_op(c: &Value) -> Value {
    let build = |x: &Value| -> (Value, Vec<Value>) {
        let mut cc = c.clone();
        for k in ["rows", "labels", "mt", "threads", "k", "max"] { if !x[k].is_null() { cc[k] = x[k].clone(); } }
        let d = dataset(&cc);
        let cfg = config(&cc, &d.labels);
        let tests: Vec<MultiTargetDataSet> = x["tests"].as_array().unwrap().iter().map(|t| MultiTargetDataSet { feature_rows: pm(&t["rows"]), labels: pm(&t["labels"]), feature_columns: vec![] }).collect();
        match x["kind"].as_str().unwrap() {
            "row" => {
                let t = Box::new(in_pool(&cc, || RegressionMultiTargetDecisionTree::new(d, cfg)).root);
                let e = tests.iter().map(|s| f(regression::calculate_overall_mean_squared_error(s, &t))).collect();
                (nodes(&t, &reg_leaf), e)
            }
            "sorted" => {
                let sd = create_dataset_with_sorted_features(&d);
                let t = Box::new(in_pool(&cc, || RegressionMultiTargetDecisionTreeNewPartition::new(sd, cfg)).root);
                let e = tests.iter().map(|s| f(regression::calculate_overall_mean_squared_error_new_partition(s, &t))).collect();
                (nodes(&t, &sorted_leaf), e)
            }
            "gb" => (nodes(&in_pool(&cc, || GradBoostMultiTargetDecisionTree::new(d, cfg, lof(c))).root, &gb_leaf), vec![]),
            "amg" => (nodes(&in_pool(&cc, || AMGBoostTree::new(d, cfg, lof(c))).root, &amg_leaf), vec![]),
            o => panic!("harness: unknown kind {}", o),
        }
    };
    let (na, ea) = build(&c["a"]);
    if !c["sub"].is_null() { return subtree(c, &na, &build); }
    let (nb, eb) = build(&c["b"]);
    let forecasts = |x: &Value, q: &Value| -> Vec<Value> {
        let mut cc = c.clone();
        for k in ["rows", "labels", "mt", "threads", "k", "max"] { if !x[k].is_null() { cc[k] = x[k].clone(); } }
        let d = dataset(&cc);
        let cfg = config(&cc, &d.labels);
        let m = in_pool(&cc, || RegressionBoostModel::train(d, cfg, us(c, "rounds", 1) as u32, pf(&c["lr"])));
        pm(q).iter().map(|r| vj(&m.predict(r))).collect()
    };
    let (fa, fb) = if c["ask"].is_null() { (vec![], vec![]) } else { (forecasts(&c["a"], &c["ask"]), forecasts(&c["b"], &c["ask"])) };
    json!({"a": na, "b": nb, "ea": ea, "eb": eb, "fa": fa, "fb": fb})
}

/// What hangs below one node of a tree, and the tree grown from the rows that the questions above it lead there.
fn subtree(c: &Value, na: &Value, build: &dyn Fn(&Value) -> (Value, Vec<Value>)) -> Value {
    let all = na.as_array().unwrap();
    let path = all[us(c, "sub", 0) % all.len()]["p"].as_str().unwrap().to_string();
    let rows = pm(&c["a"]["rows"]);
    let mut sel: Vec<usize> = (0..rows.len()).collect();
    let mut via = vec![];
    for i in 0..path.len() {
        let n = all.iter().find(|n| n["p"] == path[..i]).unwrap();
        let (col, thr, up) = (us(n, "col", 1), pf(&n["thr"]), &path[i..i + 1] == "T");
        sel.retain(|r| (rows[*r][col - 1] >= thr) == up);
        via.push(json!({"col": col, "thr": n["thr"].clone(), "up": up}));
    }
    let below: Vec<Value> = all.iter().filter(|n| n["p"].as_str().unwrap().starts_with(&path)).map(|n| {
        let mut n = n.clone();
        n["p"] = json!(n["p"].as_str().unwrap()[path.len()..]);
        n
    }).collect();
    let part = |v: &Value| Value::Array(sel.iter().map(|r| v.as_array().unwrap()[*r].clone()).collect());
    let mut b = c["b"].clone();
    b["rows"] = part(&c["a"]["rows"]);
    b["labels"] = part(&c["a"]["labels"]);
    b["max"] = json!(us(c, "max", 3) - path.len());
    let (nb, _) = build(&b);
    json!({"a": below, "b": nb, "sel": sel.iter().map(|r| r + 1).collect::<Vec<_>>(), "via": via, "ea": [], "eb": [], "fa": [], "fb": []})
}

/// `pre`: the nodes in preorder (node, true branch, false branch)
fn mk_tree(pre: &[Value], at: &mut usize) -> TreeNode<RegressionLeaf> {
    use common::question::Question;
    let v = &pre[*at];
    *at += 1;
    if v["leaf"].as_bool().unwrap() {
        let d = dataset(v);
        return TreeNode::leaf_node(Question::new(0, 0.), RegressionLeaf { data: Some(d) });
    }
    let t = mk_tree(pre, at);
    let f = mk_tree(pre, at);
    TreeNode::new(Question::new((us(v, "col", 1) - 1) as u32, pf(&v["thr"])), Box::new(t), Box::new(f))
}

fn print_tree_of(c: &Value) -> TreeNode<RegressionLeaf> {
    if c["shape"].is_null() {
        let d = dataset(c);
        let cfg = config(c, &d.labels);
        in_pool(c, || RegressionMultiTargetDecisionTree::new(d, cfg)).root
    } else { mk_tree(c["shape"].as_array().unwrap(), &mut 0) }
}

pub fn print_child(c: &Value) {
    let t = print_tree_of(c);
    let names: Vec<String> = c["names"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
    print_tree_regression(&Box::new(t), c["spacing"].as_str().unwrap_or("").to_string(), &names);
}

pub fn print_op(c: &Value) -> Value {
    use std::io::Write;
    let t = print_tree_of(c);
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap()).arg("--print")
        .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let mut line = serde_json::to_string(c).unwrap();
    line.push('\n');
    ch.stdin.take().unwrap().write_all(line.as_bytes()).unwrap();
    let o = ch.wait_with_output().unwrap();
    if !o.status.success() { panic!("printing failed"); }
    let text = String::from_utf8(o.stdout).unwrap();
    let leaf = |l: &RegressionLeaf| json!({"text": format!("{:?}", l.data), "rows": mj(&l.data.as_ref().unwrap().feature_rows), "labels": mj(&l.data.as_ref().unwrap().labels)});
    json!({"nodes": nodes(&t, &leaf), "lines": text.lines().collect::<Vec<_>>(), "nl": text.ends_with('\n')})
}
