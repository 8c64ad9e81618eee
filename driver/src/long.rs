//! Very long routes on regular graphs; routes are recorded as arithmetic runs of node ids.
use crate::enc::Enc;
use crate::rng::Rng;
use fast_paths::InputGraph;
use serde_json::{json, Value};

pub fn order(kind: &str, n: usize) -> Option<Vec<usize>> {
    Some(match kind {
        "default" => return None,
        "id" => (0..n).collect(),
        "rev" => (0..n).rev().collect(),
        // inner nodes right to left, then the ends: shortcuts nest to the left
        "zigl" => (0..n - 1).rev().chain(n - 1..n).collect(),
        // inner nodes left to right, then the ends: shortcuts nest to the right
        "zigr" => (1..n).chain(0..1).collect(),
        // the middle first, then outwards on alternating sides
        "mid" => {
            let m = n / 2;
            let mut v = vec![m];
            for k in 1..n {
                if k <= m {
                    v.push(m - k);
                }
                if m + k < n {
                    v.push(m + k);
                }
            }
            v
        }
        "evenodd" => (0..n).filter(|x| x % 2 == 1).chain((0..n).filter(|x| x % 2 == 0)).collect(),
        "thirds" => (0..n).filter(|x| x % 3 == 2).rev().chain((0..n).filter(|x| x % 3 == 0)).chain((0..n).filter(|x| x % 3 == 1).rev()).collect(),
        // inner nodes: a block left to right, the next right to left
        "blocks" => {
            let mut v: Vec<usize> = (1..n - 1).collect();
            for (i, c) in v.chunks_mut(n / 7 + 1).enumerate() {
                if i % 2 == 0 {
                    c.reverse();
                }
            }
            v.push(0);
            v.push(n - 1);
            v
        }
        k => {
            let seed = k.strip_prefix("rnd").expect("order kind").parse().unwrap();
            let mut v: Vec<usize> = (0..n).collect();
            Rng::new(seed).shuffle(&mut v);
            v
        }
    })
}

fn runs(p: &[usize]) -> Vec<[i64; 3]> {
    let mut out = vec![];
    let mut i = 0;
    while i < p.len() {
        if i + 1 == p.len() {
            out.push([p[i] as i64, 1, 0]);
            break;
        }
        let step = p[i + 1] as i64 - p[i] as i64;
        let mut j = i + 1;
        while j + 1 < p.len() && p[j + 1] as i64 - p[j] as i64 == step {
            j += 1;
        }
        out.push([p[i] as i64, (j - i + 1) as i64, step]);
        i = j + 1;
    }
    out
}

/// shape chain/dchain/ring/dring/grid with n nodes (grid: c columns), weights w1 (and w2 vertically)
pub fn run(op: &Value, enc: &Enc) -> Value {
    let n = op["n"].as_u64().unwrap() as usize;
    let c = op["c"].as_u64().unwrap() as usize;
    let (w1, w2) = (enc.enc(op["w1"].as_i64().unwrap()), enc.enc(op["w2"].as_i64().unwrap()));
    let mut g = InputGraph::new();
    let shape = op["shape"].as_str().unwrap();
    match shape {
        "chain" | "dchain" | "ring" | "dring" => {
            let bidir = !shape.starts_with('d');
            for i in 0..n - 1 {
                if bidir {
                    g.add_edge_bidir(i, i + 1, w1);
                } else {
                    g.add_edge(i, i + 1, w1);
                }
            }
            if shape.ends_with("ring") {
                if bidir {
                    g.add_edge_bidir(n - 1, 0, w1);
                } else {
                    g.add_edge(n - 1, 0, w1);
                }
            }
        }
        "grid" => {
            for i in 0..n {
                if (i + 1) % c != 0 && i + 1 < n {
                    g.add_edge_bidir(i, i + 1, w1);
                }
                if i + c < n {
                    g.add_edge_bidir(i, i + c, w2);
                }
            }
        }
        s => panic!("shape {}", s),
    }
    g.freeze();
    let o = order(op["order"].as_str().unwrap(), n);
    let fg = match crate::exec::World::prepare(&g, op["par"].as_str().unwrap(), o.as_deref()) {
        Ok(f) => f,
        Err(_) => return json!({"k": "err"}),
    };
    let mut calc = fast_paths::create_calculator(&fg);
    let mut a = vec![];
    for q in op["qs"].as_array().unwrap() {
        let (s, t) = (q[0].as_u64().unwrap() as usize, q[1].as_u64().unwrap() as usize);
        a.push(match calc.calc_path(&fg, s, t) {
            None => json!({"w": enc.wm, "s": s, "t": t, "runs": []}),
            Some(p) => json!({"w": enc.dec(p.get_weight()), "s": p.get_source(), "t": p.get_target(), "runs": runs(p.get_nodes())}),
        });
    }
    json!({"k": "ok", "a": a})
}
