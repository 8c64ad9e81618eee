//! The contents of a prepared graph, as far as they are public.
use crate::enc::Enc;
use fast_paths::{FastGraph, FastGraph32};
use serde_json::{json, Value};

pub fn dump(g: &FastGraph, enc: &Enc) -> Value {
    let h = FastGraph32::new(g);
    let id = |x: u32| if x == u32::MAX { -1i64 } else { x as i64 };
    let wt = |x: u32| enc.dec(if x == u32::MAX { usize::MAX } else { x as usize });
    // the edge type itself is not exported, hence the two loops
    let fwd: Vec<Value> = h
        .edges_fwd
        .iter()
        .map(|e| json!([e.base_node, e.adj_node, wt(e.weight), id(e.replaced_in_edge), id(e.replaced_out_edge)]))
        .collect();
    let bwd: Vec<Value> = h
        .edges_bwd
        .iter()
        .map(|e| json!([e.base_node, e.adj_node, wt(e.weight), id(e.replaced_in_edge), id(e.replaced_out_edge)]))
        .collect();
    json!({"k": "ok", "ranks": h.ranks, "fwd": fwd, "bwd": bwd,
           "ff": h.first_edge_ids_fwd, "fb": h.first_edge_ids_bwd})
}
