#![allow(dead_code, unused_imports)]
use fast_paths::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const INF: usize = usize::MAX;
struct R(u64);
impl R {
    fn b(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 33) as usize % n
    }
}
fn graph(es: &[(usize, usize, usize)]) -> InputGraph {
    let mut g = InputGraph::new();
    for e in es {
        g.add_edge(e.0, e.1, e.2);
    }
    g.freeze();
    g
}
fn random(r: &mut R, n: usize, m: usize, wmax: usize) -> InputGraph {
    let mut g = InputGraph::new();
    for _ in 0..m {
        g.add_edge(r.b(n), r.b(n), 1 + r.b(wmax));
    }
    g.freeze();
    g
}
fn distances(g: &InputGraph) -> Vec<Vec<usize>> {
    let n = g.get_num_nodes();
    let mut d = vec![vec![INF; n]; n];
    for i in 0..n {
        d[i][i] = 0;
    }
    for e in g.get_edges() {
        d[e.from][e.to] = d[e.from][e.to].min(e.weight);
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                d[i][j] = d[i][j].min(d[i][k].saturating_add(d[k][j]));
            }
        }
    }
    d
}
fn route_weight(g: &InputGraph, p: &[usize]) -> usize {
    let mut w = 0usize;
    for x in p.windows(2) {
        w = w.saturating_add(
            g.get_edges().iter().filter(|e| e.from == x[0] && e.to == x[1]).map(|e| e.weight).min().unwrap_or(INF),
        );
    }
    w
}
fn check_all(g: &InputGraph, f: &FastGraph) {
    let d = distances(g);
    let n = g.get_num_nodes();
    let mut c = create_calculator(f);
    for s in 0..n {
        for t in 0..n {
            match c.calc_path(f, s, t) {
                None => assert_eq!(d[s][t], INF, "no path found from {} to {}", s, t),
                Some(p) => {
                    assert_eq!(p.get_weight(), d[s][t], "wrong distance from {} to {}", s, t);
                    let ns = p.get_nodes();
                    assert!(ns[0] == s && ns[ns.len() - 1] == t && p.get_source() == s && p.get_target() == t);
                    assert_eq!(route_weight(g, ns), p.get_weight(), "wrong route from {} to {}: {:?}", s, t, ns);
                }
            }
        }
    }
}
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
