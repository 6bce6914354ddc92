use crate::util::*;
use common::{
    data_processor::{create_dataset_with_sorted_features, new_partition},
    data_reader::*,
    datasets::*,
    feature_sorter::get_sorted_feature_tuple_vector,
    numerical_calculations as nc,
    question::Question,
};
use multi_target_decision_tree::{data_partitioner::partition, split_finder::{SplitFinder, SplitMetric}};
use serde_json::{json, Value};

pub fn split(c: &Value) -> Value {
    let d = dataset(c);
    let k = us(c, "k", d.labels[0].len()) as u32;
    let sf = SplitFinder::new(SplitMetric::Variance);
    let r = in_pool(c, || (sf.find_best_split)(&d, k));
    json!({"gain": f(r.gain), "col": r.question.column as usize + 1, "thr": f(r.question.value)})
}

fn ds(d: &MultiTargetDataSet) -> Value {
    json!({"rows": mj(&d.feature_rows), "labels": mj(&d.labels), "cols": mj(&d.feature_columns)})
}

pub fn partition_op(c: &Value) -> Value {
    let mut cur = dataset(c);
    let mut res = vec![];
    for s in c["steps"].as_array().unwrap() {
        let q = Question::new((us(s, "col", 1) - 1) as u32, pf(&s["thr"]));
        let (fd, td) = partition(&cur, &q);
        let solved: Vec<bool> = cur.feature_rows.iter().map(|r| q.solve(r)).collect();
        res.push(json!({"t": ds(&td), "f": ds(&fd), "solve": solved}));
        cur = if s["side"] == "T" { td } else { fd };
    }
    json!({"res": res})
}

fn sds(d: &MultiTargetDataSetSortedFeatures) -> Value {
    json!({"labels": d.labels.iter().map(|l| vj(l)).collect::<Vec<_>>(),
           "vals": d.sorted_feature_columns.iter().map(|c| c.iter().map(|x| f(x.0)).collect::<Vec<_>>()).collect::<Vec<_>>(),
           "idx": d.sorted_feature_columns.iter().map(|c| c.iter().map(|x| x.1 + 1).collect::<Vec<_>>()).collect::<Vec<_>>()})
}

pub fn chain(c: &Value) -> Value {
    let d = dataset(c);
    let mut cur = create_dataset_with_sorted_features(&d);
    let all: Vec<&Vec<f64>> = d.labels.iter().collect();
    let start = sds(&cur);
    let mut steps = vec![];
    for s in c["steps"].as_array().unwrap() {
        let (t, fa) = in_pool(c, || new_partition(&cur, us(s, "col", 1) - 1, pf(&s["thr"]), &all));
        steps.push(json!({"t": sds(&t), "f": sds(&fa)}));
        cur = if s["side"] == "T" { t } else { fa };
    }
    json!({"start": start, "res": steps})
}

pub fn sorter(c: &Value) -> Value {
    let v = get_sorted_feature_tuple_vector(&pv(&c["col"]));
    json!({"vals": v.iter().map(|x| f(x.0)).collect::<Vec<_>>(), "idx": v.iter().map(|x| x.1 + 1).collect::<Vec<_>>()})
}

pub fn vec_op(c: &Value) -> Value {
    let two = || (pv(&c["a"]), pv(&c["b"]));
    let r = match c["fn"].as_str().unwrap() {
        "add" => { let (a, b) = two(); nc::add_f64_slices_as_vector(&a, &b) }
        "sub" => { let (a, b) = two(); nc::subtract_f64_slices_as_vector(&a, &b) }
        "mul" => { let (a, b) = two(); nc::multiply_f64_slices_as_vector(&a, &b) }
        "div" => { let (a, b) = two(); nc::divide_f64_slices_as_vector(&a, &b) }
        "msd" => { let (a, b) = two(); vec![nc::mean_sum_of_squared_differences_between_f64_slices(&a, &b)] }
        "scale" => nc::multiply_f64_slice_by_f64_scalar(pf(&c["s"]), &pv(&c["a"])),
        "sum" => nc::sum_of_f64_vectors(&pm(&c["m"])),
        "avg" => nc::calculate_average_f64_vector(&pm(&c["m"])),
        o => panic!("harness: unknown fn {}", o),
    };
    json!({"r": vj(&r)})
}

fn bytes(v: &Value) -> Vec<u8> { v.as_str().unwrap().as_bytes().to_vec() }

pub fn csv_op(c: &Value) -> Value {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let dir = std::env::temp_dir().join(format!("vh-csv-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).unwrap();
    struct Rm(std::path::PathBuf);
    impl Drop for Rm { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    let _rm = Rm(dir.clone());
    let (pa, pb) = (dir.join("a.csv"), dir.join("b.csv"));
    if !c["a"].is_null() { std::fs::write(&pa, bytes(&c["a"])).unwrap(); }
    if !c["b"].is_null() { std::fs::write(&pb, bytes(&c["b"])).unwrap(); }
    let (a, b) = (pa.to_str().unwrap(), pb.to_str().unwrap());
    match c["kind"].as_str().unwrap() {
        "single" => { let d = read_csv_data(a); json!({"rows": mj(&d.features), "labels": vj(&d.labels)}) }
        "onehot" => ds(&read_csv_data_one_hot_multi_target(a, us(c, "k", 2))),
        "multi" => ds(&read_csv_data_multi_target(a, b)),
        "names" => json!({"names": get_feature_names(a)}),
        o => panic!("harness: unknown kind {}", o),
    }
}
