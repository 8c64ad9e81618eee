//! Seeded generators of scripts, one suite per property.
use crate::enc::*;
use crate::rng::*;
use serde_json::{json, Value};

type E3 = (usize, usize, i64);

pub struct Script {
    pub enc: Enc,
    pub id: String,
    /// node ids of input graphs and files stand for multiples of this number
    pub nk: Option<u64>,
    pub ops: Vec<Value>,
}

impl Script {
    fn new(enc: &Enc, id: String) -> Script {
        Script { enc: enc.clone(), id, nk: None, ops: vec![] }
    }
    fn op(&mut self, v: Value) -> &mut Self {
        self.ops.push(v);
        self
    }
    fn done(self) -> Value {
        let mut h = self.enc.header(&self.id);
        if let Some(k) = self.nk {
            h["nk"] = json!(k.to_string());
        }
        json!({"h": h, "ops": self.ops})
    }
}

fn es_json(es: &[E3]) -> Value {
    Value::Array(es.iter().map(|e| json!([e.0, e.1, e.2])).collect())
}

fn node_count(es: &[E3]) -> usize {
    es.iter().filter(|e| e.0 != e.1 && e.2 > 0).map(|e| e.0.max(e.1) + 1).max().unwrap_or(0)
}

// ---------------------------------------------------------------------------------------------
// graphs

pub const FAMS: [&str; 16] = [
    "er", "er3", "dense", "grid", "star", "chain", "ring", "dag", "complete", "clusters", "tree", "biring", "ladder",
    "hubs", "wheel", "road",
];

fn topology(r: &mut Rng, fam: &str, n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    if n < 2 {
        return v;
    }
    let mut both = |v: &mut Vec<(usize, usize)>, a: usize, b: usize| {
        if a != b {
            v.push((a, b));
            v.push((b, a));
        }
    };
    match fam {
        "er" | "er3" | "dense" => {
            let m = match fam {
                "er" => n + r.below(n + 1),
                "er3" => 3 * n,
                _ => n * std::cmp::min(n, 8),
            };
            for _ in 0..m {
                v.push((r.below(n), r.below(n)));
            }
        }
        "grid" => {
            let c = std::cmp::max(2, (n as f64).sqrt() as usize);
            for i in 0..n {
                if (i + 1) % c != 0 && i + 1 < n {
                    both(&mut v, i, i + 1);
                }
                if i + c < n {
                    both(&mut v, i, i + c);
                }
            }
        }
        "road" => {
            let c = std::cmp::max(2, (n as f64).sqrt() as usize);
            for i in 0..n {
                if (i + 1) % c != 0 && i + 1 < n && r.chance(85) {
                    if r.chance(80) {
                        both(&mut v, i, i + 1);
                    } else {
                        v.push((i, i + 1));
                    }
                }
                if i + c < n && r.chance(85) {
                    if r.chance(80) {
                        both(&mut v, i, i + c);
                    } else {
                        v.push((i + c, i));
                    }
                }
            }
        }
        "star" => {
            for i in 1..n {
                match r.below(3) {
                    0 => v.push((0, i)),
                    1 => v.push((i, 0)),
                    _ => both(&mut v, 0, i),
                }
            }
        }
        "chain" => {
            for i in 0..n - 1 {
                if r.chance(70) {
                    both(&mut v, i, i + 1);
                } else {
                    v.push((i, i + 1));
                }
            }
        }
        "ring" => {
            for i in 0..n {
                v.push((i, (i + 1) % n));
            }
        }
        "biring" => {
            for i in 0..n {
                both(&mut v, i, (i + 1) % n);
            }
            if n > 4 {
                v.push((0, n / 2));
            }
        }
        "dag" => {
            for i in 0..n {
                for _ in 0..3 {
                    if i + 1 < n {
                        v.push((i, i + 1 + r.below(std::cmp::min(5, n - i - 1))));
                    }
                }
            }
        }
        "complete" => {
            let k = std::cmp::min(n, 14);
            for i in 0..k {
                for j in 0..k {
                    if i != j {
                        v.push((i, j));
                    }
                }
            }
            for i in k..n {
                both(&mut v, i, r.below(k));
            }
        }
        "clusters" => {
            let k = std::cmp::max(2, n / 5);
            for i in 0..n {
                for _ in 0..2 {
                    let j = (i / k) * k + r.below(k);
                    if j < n {
                        v.push((i, j));
                    }
                }
                if r.chance(10) {
                    v.push((i, r.below(n)));
                }
            }
        }
        "tree" => {
            for i in 1..n {
                let p = r.below(i);
                if r.chance(75) {
                    both(&mut v, p, i);
                } else {
                    v.push((p, i));
                }
            }
        }
        "ladder" => {
            let h = n / 2;
            for i in 0..h {
                if i + 1 < h {
                    both(&mut v, i, i + 1);
                    both(&mut v, h + i, h + i + 1);
                }
                both(&mut v, i, h + i);
            }
        }
        "hubs" => {
            let h = std::cmp::max(2, n / 10);
            for i in h..n {
                both(&mut v, i, r.below(h));
                if r.chance(40) {
                    v.push((i, r.below(h)));
                }
            }
            for i in 0..h {
                v.push((i, (i + 1) % h));
            }
        }
        "wheel" => {
            for i in 1..n {
                both(&mut v, 0, i);
                let j = if i + 1 < n { i + 1 } else { 1 };
                both(&mut v, i, j);
            }
        }
        f => panic!("family {}", f),
    }
    // relabel, so that node ids carry no structure
    if r.chance(60) {
        let mut p: Vec<usize> = (0..n).collect();
        r.shuffle(&mut p);
        for e in v.iter_mut() {
            *e = (p[e.0], p[e.1]);
        }
    }
    v
}

pub const WFAMS: [&str; 9] = ["unit", "two", "ten", "hundred", "big", "pow", "tail", "skew", "ties"];

fn weight(r: &mut Rng, enc: &Enc, wf: &str, n: usize) -> i64 {
    if enc.name == "max64" {
        let b = r.range(-3, 3);
        let a = match wf {
            "unit" => 1,
            "two" => r.range(0, 1),
            "ten" => r.range(0, 15),
            "hundred" => *r.pick(&[0, 0, 0, 15]),
            "big" => *r.pick(&[7, 8, 14, 15]),
            "pow" => *r.pick(&[1, 2, 4, 8]),
            "tail" => {
                if r.chance(15) {
                    *r.pick(&[13, 14, 15, 15])
                } else {
                    0
                }
            }
            "skew" => *r.pick(&[0, 1, 3, 5]),
            _ => *r.pick(&[5, 10, 15]),
        };
        return std::cmp::min(std::cmp::max(a * U + b, 1), enc.wm);
    }
    if enc.name == "id" {
        return match wf {
            "unit" => 1,
            "two" => r.range(1, 2),
            "ten" => r.range(1, 10),
            "hundred" => r.range(1, 100),
            "big" => r.range(1, 400_000),
            "pow" => 1 << r.range(0, 18),
            "tail" => {
                if r.chance(10) {
                    r.range(1000, 100_000)
                } else {
                    r.range(1, 5)
                }
            }
            "skew" => 100 + r.range(0, 3),
            _ => *r.pick(&[2, 3, 5, 6]),
        };
    }
    // sums must stay below the maximum weight
    let amax = std::cmp::max(1, std::cmp::min(10, 900 / n as i64));
    let b = r.range(-3, 3);
    let a = match wf {
        "unit" => 1,
        "two" => std::cmp::min(r.range(1, 2), amax),
        "tail" => {
            if r.chance(20) {
                amax
            } else {
                0
            }
        }
        "skew" => amax,
        _ => r.range(0, amax),
    };
    std::cmp::max(a * U + b, 1)
}

/// edges as a user may add them: duplicates, loops and zero weights included
fn graph(r: &mut Rng, enc: &Enc, fam: &str, wf: &str, n: usize) -> Vec<E3> {
    let mut es: Vec<E3> = topology(r, fam, n).into_iter().map(|(a, b)| (a, b, weight(r, enc, wf, n))).collect();
    if !es.is_empty() && r.chance(30) {
        for _ in 0..1 + r.below(es.len() / 3 + 1) {
            let e = es[r.below(es.len())];
            es.push((e.0, e.1, weight(r, enc, wf, n)));
        }
    }
    if r.chance(15) {
        let k = r.below(n);
        es.push((k, k, 1));
    }
    if r.chance(10) {
        es.push((r.below(n), r.below(n), 0));
    }
    if r.chance(40) {
        r.shuffle(&mut es);
    }
    es
}

/// node ids with large gaps
fn spread(r: &mut Rng, es: &mut [E3], n: usize, top: usize) {
    let mut ids: Vec<usize> = vec![];
    while ids.len() < n {
        let x = r.below(top);
        if !ids.contains(&x) {
            ids.push(x);
        }
    }
    for e in es.iter_mut() {
        e.0 = ids[e.0];
        e.1 = ids[e.1];
    }
}

fn any_enc(r: &mut Rng) -> Enc {
    match r.below(10) {
        0 => Enc::k("k24", 1 << 24),
        1 => Enc::k("k32", 1 << 32),
        2 => Enc::k("k53", 1 << 53),
        3 => Enc::k("k31", (1 << 31) - 1),
        _ => Enc::id(),
    }
}

fn any_graph(r: &mut Rng, enc: &Enc, n: usize) -> Vec<E3> {
    let fam = *r.pick(&FAMS);
    let wf = *r.pick(&WFAMS);
    graph(r, enc, fam, wf, n)
}

fn perm(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    v
}

/// orders of several kinds, good and bad
pub fn any_order(r: &mut Rng, es: &[E3], n: usize) -> Vec<usize> {
    let mut deg = vec![0usize; n];
    for e in es {
        if e.0 < n && e.1 < n {
            deg[e.0] += 1;
            deg[e.1] += 1;
        }
    }
    let mut v: Vec<usize> = (0..n).collect();
    match r.below(7) {
        0 => {}
        1 => v.reverse(),
        2 => v.sort_by_key(|x| std::cmp::Reverse(deg[*x])),
        3 => v.sort_by_key(|x| deg[*x]),
        4 if n >= 2 => v = crate::long::order("zigl", n).unwrap(),
        5 if n >= 2 => v = crate::long::order("mid", n).unwrap(),
        _ => r.shuffle(&mut v),
    }
    v
}

const LIMS: [&str; 9] = ["0", "1", "2", "3", "4", "7", "20", "100", "max"];
const FACS: [&str; 12] = ["0", "0.1", "0.5", "1", "-1", "1000", "1e30", "-1e30", "NaN", "inf", "-inf", "1e-30"];

pub fn any_params(r: &mut Rng) -> String {
    if r.chance(20) {
        return "default".into();
    }
    format!("{},{},{},{},{}", r.pick(&FACS), r.pick(&FACS), r.pick(&LIMS), r.pick(&LIMS), r.pick(&LIMS))
}
fn any_order_param(r: &mut Rng) -> String {
    if r.chance(30) {
        "default".into()
    } else {
        r.pick(&LIMS).to_string()
    }
}

/// queries that pin down a prepared graph, according to its size
fn queries(r: &mut Rng, s: &mut Script, g: i64, c: i64, es: &[E3], n: usize, rows: usize) {
    if n == 0 {
        return;
    }
    if n <= 10 {
        if c < 0 || r.chance(50) {
            s.op(json!({"o":"fall","g":g}));
        }
        if c >= 0 {
            s.op(json!({"o":"cal","c":c,"g":g}));
            s.op(json!({"o":"all","c":c,"g":g}));
        }
        return;
    }
    if c >= 0 {
        s.op(json!({"o":"cal","c":c,"g":g}));
    }
    let act: Vec<usize> = {
        let mut a: Vec<usize> = es.iter().flat_map(|e| vec![e.0, e.1]).filter(|x| *x < n).collect();
        a.sort_unstable();
        a.dedup();
        a
    };
    if n > 2000 {
        for _ in 0..20 {
            let a = if r.chance(90) && !act.is_empty() { *r.pick(&act) } else { r.below(n) };
            let b = if r.chance(90) && !act.is_empty() { *r.pick(&act) } else { r.below(n) };
            s.op(json!({"o":"q","c":c,"g":g,"s":a,"t":b}));
        }
        return;
    }
    let mut srcs = vec![];
    for _ in 0..rows {
        let x = if !act.is_empty() && r.chance(95) { *r.pick(&act) } else { r.below(n) };
        srcs.push(x);
        s.op(json!({"o":"row","c":c,"g":g,"s":x}));
    }
    for _ in 0..4 {
        let x = *r.pick(&srcs);
        s.op(json!({"o":"q","c":-1,"g":g,"s":x,"t":r.below(n)}));
    }
}

fn multi_entries(r: &mut Rng, enc: &Enc, n: usize, wf: &str) -> Value {
    let k = match r.below(20) {
        0 => 20 + r.below(60),
        1 => 8,
        _ => 1 + r.below(5),
    };
    let mode = r.below(7);
    let mut v = vec![];
    for _ in 0..k {
        let w = match mode {
            0 => 0,
            1 => r.range(0, 3),
            2 => weight(r, enc, wf, std::cmp::max(n, 60)),
            3 => {
                if r.chance(40) {
                    enc.wm
                } else {
                    r.range(0, 5)
                }
            }
            4 => {
                if r.chance(30) && enc.name == "max64" {
                    enc.wm - 1 - r.range(0, 3)
                } else {
                    weight(r, enc, wf, std::cmp::max(n, 60))
                }
            }
            _ => {
                let x = r.range(0, 4);
                (0..x).map(|_| weight(r, enc, wf, std::cmp::max(n, 60))).sum::<i64>()
            }
        };
        v.push(json!([r.below(n), std::cmp::min(w, enc.wm)]));
    }
    if k > 1 && r.chance(30) {
        let e = v[r.below(v.len())].clone();
        let w = e[1].as_i64().unwrap();
        let lo = if w == enc.wm && enc.name != "max64" { 0 } else { -1 };
        let d = std::cmp::min(enc.wm, std::cmp::max(0, w + r.range(lo, 1)));
        v.push(json!([e[0], d]));
    }
    Value::Array(v)
}

// ---------------------------------------------------------------------------------------------

struct Suite {
    r: Rng,
    out: Vec<Value>,
    name: String,
    scale: usize,
    thorough: bool,
}

impl Suite {
    fn id(&self, part: &str) -> String {
        format!("{}-{}-{}", self.name, part, self.out.len())
    }
    fn script(&mut self, enc: &Enc, part: &str) -> Script {
        Script::new(enc, self.id(part))
    }
    fn push(&mut self, s: Script) {
        self.out.push(s.done());
    }
    /// runs f count*scale times
    fn times(&mut self, count: usize, f: impl Fn(&mut Suite)) {
        for _ in 0..count * self.scale {
            f(self);
        }
    }

    // ---- exact answers -----------------------------------------------------------------------

    /// one graph with a preparation chosen by `prep`, and queries
    fn answers(&mut self, enc: &Enc, es: Vec<E3>, rows: usize, mode: &str, part: &str) {
        let mut s = self.script(enc, part);
        let n = node_count(&es);
        s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
        let r = &mut self.r;
        match mode {
            "default" => {
                s.op(json!({"o":"prep","g":0,"i":0,"par":"default","via": if r.chance(20) {"builder"} else {""}}));
            }
            "params" => {
                if r.chance(65) {
                    s.op(json!({"o":"prep","g":0,"i":0,"par":any_params(r),"via": if r.chance(20) {"builder"} else {""}}));
                } else {
                    let o = any_order(r, &es, n);
                    s.op(json!({"o":"prepo","g":0,"i":0,"ord":o,"par":any_order_param(r)}));
                }
            }
            "again" => {
                s.op(json!({"o":"prep","g":1,"i":0,"par":"default"}));
                s.op(json!({"o":"prepr","g":0,"i":0,"from":1,"par":*r.pick(&["default", "200", "1000"])}));
            }
            "order" => {
                let o = any_order(r, &es, n);
                let via = if r.chance(20) { "builder" } else { "" };
                s.op(json!({"o":"prepo","g":0,"i":0,"ord":o,"par":any_order_param(r),"via":via}));
            }
            _ => {
                let m = r.below(3);
                if m == 0 {
                    s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
                } else if m == 1 {
                    s.op(json!({"o":"prep","g":0,"i":0,"par":any_params(r)}));
                } else {
                    let o = any_order(r, &es, n);
                    s.op(json!({"o":"prepo","g":0,"i":0,"ord":o,"par":any_order_param(r)}));
                }
            }
        }
        let c = if r.chance(70) { 0 } else { -1 };
        queries(r, &mut s, 0, c, &es, n, rows);
        self.push(s);
    }

    fn answer_mix(&mut self, mode: &'static str, small: usize, medium: usize, gaps: usize, large: usize, huge: usize) {
        self.times(small, |t| {
            let enc = any_enc(&mut t.r);
            let n = 2 + t.r.below(8);
            let es = any_graph(&mut t.r, &enc, n);
            t.answers(&enc, es, 3, mode, "small");
        });
        self.times(medium, |t| {
            let enc = any_enc(&mut t.r);
            let n = 11 + t.r.below(30);
            let es = any_graph(&mut t.r, &enc, n);
            t.answers(&enc, es, 8, mode, "medium");
        });
        self.times(gaps, |t| {
            let enc = any_enc(&mut t.r);
            let n = 3 + t.r.below(25);
            let mut es = any_graph(&mut t.r, &enc, n);
            let top = *t.r.pick(&[60, 300, 5000, 70000]);
            spread(&mut t.r, &mut es, n, top);
            let m = if mode == "order" && top > 1000 { "default" } else { mode };
            t.answers(&enc, es, 3, m, "gaps");
        });
        self.times(large, |t| {
            let enc = any_enc(&mut t.r);
            let n = 50 + t.r.below(if mode == "default" { 150 } else { 80 });
            let es = any_graph(&mut t.r, &enc, n);
            t.answers(&enc, es, 3, mode, "large");
        });
        self.times(huge, |t| {
            // beyond the default limits of 100 and 500 settled nodes
            let enc = Enc::id();
            let n = 600 + t.r.below(500);
            let fam = *t.r.pick(&["er3", "grid", "road", "clusters", "hubs", "tree", "biring"]);
            let wf = *t.r.pick(&["ten", "hundred", "unit", "big"]);
            let es = graph(&mut t.r, &enc, fam, wf, n);
            // poor orders and limits would take too long here
            t.answers(&enc, es, 2, if mode == "order" { "again" } else { "default" }, "huge");
        });
        self.times(if huge > 0 { 1 } else { 0 }, |t| {
            // nodes with hundreds of neighbours
            let enc = Enc::id();
            let n = 300 + t.r.below(400);
            let fam = *t.r.pick(&["star", "wheel", "star", "hubs"]);
            let es = graph(&mut t.r, &enc, fam, "hundred", n);
            t.answers(&enc, es, 2, if mode == "order" { "again" } else { "default" }, "wide");
        });
    }

    /// sparse connected graphs with more nodes and edges than 16 bits can count, in normal form
    fn giant_graph(&mut self, enc: &Enc, n: usize) -> Vec<E3> {
        let r = &mut self.r;
        let wf = *r.pick(&["ten", "hundred", "unit", "skew"]);
        let mut p: Vec<usize> = (0..n).collect();
        if r.chance(70) {
            r.shuffle(&mut p);
        }
        let near = r.chance(50);
        let mut m = std::collections::BTreeMap::new();
        for i in 1..n {
            let mut add = |a: usize, b: usize, w: i64| {
                m.entry((p[a], p[b])).or_insert(w);
            };
            // a tree with few deep branches and some more edges
            let j = if near { i - 1 - r.below(std::cmp::min(i, 20)) } else { r.below(i) };
            let w = weight(r, enc, wf, 60);
            if r.chance(92) {
                add(i, j, w);
                add(j, i, w);
            } else {
                add(j, i, w);
            }
            if i % 12 == 0 {
                let k = i - 1 - r.below(std::cmp::min(i, 60));
                add(i, k, weight(r, enc, wf, 60));
            }
        }
        m.into_iter().map(|((a, b), w)| (a, b, w)).collect()
    }

    /// what becomes of a giant graph: prepared, stored, converted, prepared again
    fn giant(&mut self, vias: &[&str], routes: usize) {
        let n = if self.r.chance(40) { 65_535 + self.r.below(3) } else { 66_000 + self.r.below(9000) };
        self.all_of(n, "giant", vias, routes);
    }

    /// likewise for numbers of nodes around smaller boundaries
    fn sizes(&mut self, vias: &[&str], routes: usize) {
        for n in self.boundary_sizes() {
            if n < 10_000 {
                self.all_of(n, "nodes", vias, routes);
            }
        }
    }

    fn all_of(&mut self, n: usize, part: &str, vias: &[&str], routes: usize) {
        let enc = Enc::id();
        let es = self.giant_graph(&enc, n);
        let prep = json!({"o":"prep","g":0,"i":0,"par":"default"});
        let src = vec![self.r.below(n), n - 1 - self.r.below(std::cmp::min(n, 400))];
        self.stages(&enc, &es, n, prep, &src, part, vias, routes);
    }

    fn stages(&mut self, enc: &Enc, es: &[E3], n: usize, prep: Value, src: &[usize], part: &str, vias: &[&str], routes: usize) {
        let mut s = self.script(enc, part);
        let one = self.name == "C06";
        let r = &mut self.r;
        s.op(json!({"o":"build","i":0,"es":es_json(es)}));
        let with_order = prep["o"] == "prepo";
        s.op(prep);
        for (g, via) in std::iter::once(&"").chain(vias).enumerate() {
            match *via {
                "" => {}
                "c32" => {
                    s.op(json!({"o":"c32","g":0,"h":g,"via":"helper"}));
                }
                "prepr" => {
                    s.op(json!({"o":"prepr","g":g,"i":0,"from":0,"par":"default"}));
                }
                "again" if with_order => {
                    let mut again = s.ops[1].clone();
                    again["g"] = json!(g);
                    s.op(again);
                }
                "again" => {
                    s.op(json!({"o":"prep","g":g,"i":0,"par":"default"}));
                }
                v => {
                    s.op(json!({"o":"gcopy","g":0,"h":g,"via":v}));
                }
            }
            s.op(json!({"o":"cnt","g":g}));
            if !vias.is_empty() {
                s.op(json!({"o":"ord","g":g}));
                if *via != "prepr" && *via != "c32" {
                    s.op(json!({"o":"dig","g":g}));
                }
            }
            let c = if one { 0 } else { g };
            if c == g {
                s.op(json!({"o":"cal","c":c,"g":g}));
            }
            for x in &src[..if g == 0 { src.len() } else { 1 }] {
                // asking for all ways of a long chain takes the square of its length
                let far = part == "ways" && n > 8000;
                s.op(if far { json!({"o":"base","g":g,"s":x,"d":distances(es, n, *x, enc.wm)}) } else { json!({"o":"drow","c":c,"g":g,"s":x}) });
                for _ in 0..if far { routes.max(4) } else { routes } {
                    s.op(json!({"o":"q","c":c,"g":g,"s":x,"t":r.below(n)}));
                }
            }
        }
        if routes > 0 {
            for _ in 0..10 {
                let k = 1 + r.below(600);
                let b: Vec<Value> = (0..k).map(|_| json!([r.below(n), r.range(0, 40)])).collect();
                let a: Vec<Value> = src.iter().map(|x| json!([x, r.range(0, 40)])).collect();
                s.op(json!({"o":"mq","c":0,"g":0,"S":a,"T":b}));
                let t = r.below(n);
                s.op(json!({"o":"q","c":if one { 0 } else { -1 },"g":0,"s":src[0],"t":t}));
                if one {
                    s.op(json!({"o":"q","c":0,"g":0,"s":r.below(n),"t":n}));
                }
            }
        }
        if self.name == "C18" {
            // what is invalid here
            for _ in 0..30 {
                let bad = match r.below(6) {
                    0 => n as i64,
                    1 => n as i64 + r.below(100) as i64,
                    2 => -1,
                    3 => 65_536 + r.range(0, n as i64) + if n > 65_536 { n as i64 } else { 0 },
                    4 => std::cmp::max(n as i64, *r.pick(&[256i64, 65_536, 131_072, 1 << 24]) + r.below(n) as i64),
                    _ => *r.pick(&[-1000, -2000, -3000, -4001]) - r.below(n + 1) as i64,
                };
                let (x, y) = (json!(r.pick(src)), json!(r.below(n)));
                let c = if r.chance(30) { -1 } else { 0 };
                s.op(match r.below(4) {
                    0 => json!({"o":"q","c":c,"g":0,"s":x,"t":bad}),
                    1 => json!({"o":"q","c":c,"g":0,"s":bad,"t":y}),
                    2 => json!({"o":"mq","c":c,"g":0,"S":[[x, 1], [bad, 2]],"T":[[y, 0]]}),
                    _ => json!({"o":"mq","c":c,"g":0,"S":[[x, 1]],"T":[[y, 0], [x, 3], [bad, enc.wm]]}),
                });
            }
            s.op(json!({"o":"cal","c":50,"n":n - 1}));
            s.op(json!({"o":"cal","c":51,"n":if n > 65_536 { n - 65_536 } else { n + 65_536 }}));
            for c in [50, 51] {
                s.op(json!({"o":"q","c":c,"g":0,"s":src[0].min(n - 2),"t":0}));
            }
        }
        self.push(s);
    }

    /// long ways with nested shortcuts, nodes with many edges, searches with many open nodes
    fn wide(&mut self, mode: &str, vias: &[&str], routes: usize, longest: usize) {
        if longest >= 100_000 {
            self.periods(vias, false);
        }
        let mut lens = vec![130, 300, 1100, 5000, 20_000];
        lens.push(66_000 + self.r.below(5000));
        for k in lens.into_iter().filter(|k| *k <= longest) {
            let enc = if k > 6000 { Enc::id() } else { self.wide_enc() };
            let r = &mut self.r;
            let n = k + r.below(k / 10);
            let p: Vec<usize> = if r.chance(60) { perm(r, n) } else { (0..n).collect() };
            let wf = *r.pick(&["unit", "ten", "skew", "hundred"]);
            let (bidir, ring) = (r.chance(60), r.chance(40));
            let mut es: Vec<E3> = vec![];
            let mut add = |r: &mut Rng, a: usize, b: usize| {
                es.push((p[a], p[b], weight(r, &enc, wf, 60)));
                if bidir {
                    es.push((p[b], p[a], weight(r, &enc, wf, 60)));
                }
            };
            // a few places where a step is off the way
            for i in 1..n {
                let back = if r.chance(3) && i > 3 { 2 } else { 1 };
                add(r, i - back, i);
            }
            if ring {
                add(r, n - 1, 0);
            }
            let prep = self.wide_prep(mode, |r, kind| {
                crate::long::order(kind, n).unwrap_or_else(|| perm(r, n)).into_iter().map(|x| p[x]).collect()
            });
            let src = vec![p[0], p[n - 1 - self.r.below(3)]];
            self.stages(&enc, &es, n, prep, &src, "ways", vias, routes.min(8));
        }
        for most in [140, 280] {
            let enc = self.wide_enc();
            let (mut es, order) = self.crowd(most);
            self.reweigh(&enc, &mut es);
            let n = order.len();
            let prep = self.wide_prep(mode, |_, _| order.clone());
            let src = vec![order[0], order[n - 1], order[n / 2]];
            self.stages(&enc, &es, n, prep, &src, "crowds", vias, routes);
        }
        for leaves in [150, 600, 1500] {
            let enc = self.wide_enc();
            let (mut es, order) = self.funnel(leaves);
            self.reweigh(&enc, &mut es);
            let n = order.len();
            let prep = self.wide_prep(mode, |_, _| order.clone());
            let src = vec![order[n - 1], order[n - 2], order[n / 2]];
            self.stages(&enc, &es, n, prep, &src, "open", vias, routes);
        }
        // searches that reach very many nodes, and others that reach few
        for leaves in [260, 3000] {
            let enc = self.wide_enc();
            let r = &mut self.r;
            let n = leaves + 8;
            let p = perm(r, n);
            let mut es: Vec<E3> = vec![];
            for x in 8..n {
                es.push((p[0], p[x], weight(r, &enc, "hundred", 60)));
                if x % 3 > 0 {
                    es.push((p[x], p[1], weight(r, &enc, "hundred", 60)));
                }
            }
            for x in 1..8 {
                es.push((p[x], p[(x + 1) % 8], weight(r, &enc, "ten", 60)));
            }
            let n = node_count(&es);
            // the hubs first; then the way from one to the other one
            let prep = self.wide_prep(if mode == "any" { "order" } else { mode }, |_, _| {
                let mut o = vec![p[0]];
                o.extend(p[8..].iter().chain(&p[1..8]));
                o.into_iter().filter(|x| *x < n).collect()
            });
            let src = vec![p[0], p[1].min(n - 1), p[9].min(n - 1)];
            self.stages(&enc, &es, n, prep, &src, "reach", vias, routes);
        }
    }

    /// Searches for other ways that are a certain number of searches apart, each starting where what an
    /// earlier one left would be taken for a way if numbers of searches were the same modulo that number.
    /// Contracting a node takes one search for each of its in-edges.
    fn period_graph(&mut self, period: usize) -> (Vec<E3>, Vec<usize>, Vec<usize>) {
        let r = &mut self.r;
        let m = 9;
        let (p, a, z) = (0, 1, 2);
        let (ss, bs, xs) = (|i| 3 + i, |i| 3 + m + i, |i| 3 + 2 * m + i);
        let base = 3 + 3 * m;
        let width = if period > 1000 { 256 + r.below(60) } else { 30 + r.below(20) };
        let mut es: Vec<E3> = vec![(p, a, 1)];
        let mut order = vec![a];
        for i in 0..m {
            es.push((a, xs(i), 1));
            es.push((p, xs(i), 3));
            es.push((ss(i), bs(i), 10));
            es.push((bs(i), xs(i), 10));
        }
        let mut left = period - m / 2;
        let mut hub = base + width;
        while left > 0 {
            let k = left.min(width);
            for x in 0..k {
                es.push((base + x, hub, 1 + r.range(0, 3)));
            }
            es.push((hub, z, 1 + r.range(0, 3)));
            order.push(hub);
            hub += 1;
            left -= k;
        }
        order.extend((0..m).map(bs));
        let mut rest: Vec<usize> = (0..hub).filter(|x| !order.contains(x)).collect();
        r.shuffle(&mut rest);
        order.extend(rest);
        // other ids
        let ids = perm(r, hub);
        es.iter_mut().for_each(|e| *e = (ids[e.0], ids[e.1], e.2));
        r.shuffle(&mut es);
        (es, order.into_iter().map(|x| ids[x]).collect(), (0..m).map(|i| ids[ss(i)]).collect())
    }

    fn periods(&mut self, vias: &[&str], hier: bool) {
        for period in [256, 65_536] {
            let enc = Enc::id();
            let (es, order, src) = self.period_graph(period);
            let par = *self.r.pick(&["default", "20", "200"]);
            let prep = json!({"o":"prepo","g":0,"i":0,"ord":order,"par":par});
            if hier {
                let mut s = self.script(&enc, "period");
                s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
                s.op(prep);
                s.op(json!({"o":"hier","g":0,"at":src}));
                self.push(s);
            } else {
                self.stages(&enc, &es, order.len(), prep, &src, "period", vias, 2);
            }
        }
    }

    /// a graph whose text has this many bytes
    fn text_of(&mut self, size: usize, dimacs: bool) -> Vec<E3> {
        let r = &mut self.r;
        let (first, digits) = if size > 60_000 { (100_000, 6) } else { (1000, 4) };
        // lines have this many bytes, and those of the weight
        let fixed = 2 * digits + 5;
        let mut m = size / (fixed + 5);
        let mut left;
        loop {
            let head = if dimacs { format!("p sp {} {}\n", first + m + 1, m).len() } else { 0 };
            left = size as i64 - head as i64 - (m * fixed) as i64;
            if left <= 9 * m as i64 {
                break;
            }
            m += 1;
        }
        let mut es = vec![];
        for i in 0..m {
            let rest = (m - i - 1) as i64;
            let d = r.range(1.max(left - 9 * rest), 9.min(left - rest).min(2 * left / (rest + 1) + 1).max(1.max(left - 9 * rest)));
            left -= d;
            let lo = 10i64.pow(d as u32 - 1);
            es.push((first + i, first + i + 1, r.range(lo, (10 * lo - 1).min(500_000_000))));
        }
        es
    }

    fn wide_enc(&mut self) -> Enc {
        if self.name == "C16" && self.r.chance(80) {
            Enc::max64()
        } else {
            Enc::id()
        }
    }

    fn reweigh(&mut self, enc: &Enc, es: &mut [E3]) {
        if enc.name == "max64" {
            let wf = *self.r.pick(&["two", "hundred", "pow", "tail", "ten"]);
            for e in es.iter_mut() {
                // some stay what they are
                if self.r.chance(70) {
                    e.2 = weight(&mut self.r, enc, wf, 60);
                }
            }
        }
    }

    fn wide_prep(&mut self, mode: &str, order: impl Fn(&mut Rng, &str) -> Vec<usize>) -> Value {
        let r = &mut self.r;
        let how = match mode {
            "any" => *r.pick(&["default", "order", "params"]),
            m => m,
        };
        match how {
            "order" => {
                let kind = *r.pick(&["zigl", "zigr", "evenodd", "thirds", "id", "mid"]);
                json!({"o":"prepo","g":0,"i":0,"ord":order(r, kind),"par":*r.pick(&["default", "default", "20", "200"])})
            }
            "params" => json!({"o":"prep","g":0,"i":0,"par":*r.pick(&["default", "0,1,100,100,100", "0.5,1,20,20,20", "0.1,1,100,50,100", "0.3,2,50,20,50"])}),
            _ => json!({"o":"prep","g":0,"i":0,"par":"default"}),
        }
    }

    /// a node with more edges than 16 bits can count, contracted before all others
    fn giant_star(&mut self, out: bool, vias: &[&str]) {
        let enc = Enc::id();
        let r = &mut self.r;
        let n = *r.pick(&[65_536usize, 65_537, 65_538, 70_000]);
        let hub = *r.pick(&[0, n - 1, n / 2]);
        let mut es: Vec<E3> = vec![];
        let mut leaves = vec![];
        for x in (0..n).filter(|x| *x != hub) {
            let w = r.range(5, 9);
            es.push(if out { (hub, x, w) } else { (x, hub, w) });
            leaves.push(x);
        }
        // some ways among the leaves
        for _ in 0..2000 {
            let (a, b) = (*r.pick(&leaves), *r.pick(&leaves));
            if a != b {
                es.push((a, b, r.range(1, 3)));
            }
        }
        let mut ord = vec![hub];
        r.shuffle(&mut leaves);
        ord.extend(&leaves);
        let mut s = self.script(&enc, "star");
        let r = &mut self.r;
        s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
        s.op(json!({"o":"prepo","g":0,"i":0,"ord":ord,"par":"default"}));
        // for the other direction, a few sources
        let srcs: Vec<usize> = if out { vec![hub] } else { leaves[..3].to_vec() };
        for x in &srcs {
            s.op(json!({"o":"base","g":0,"s":x}));
        }
        let mut probes: Vec<usize> = vec![0, 1, n - 1, n - 2, 255, 256, 257, 65_534, 65_535];
        probes.extend((0..6).map(|_| r.below(n)));
        for (g, via) in std::iter::once(&"").chain(vias).enumerate() {
            match *via {
                "" => {}
                "c32" => {
                    s.op(json!({"o":"c32","g":0,"h":g,"via":"helper"}));
                }
                v => {
                    s.op(json!({"o":"gcopy","g":0,"h":g,"via":v}));
                }
            }
            s.op(json!({"o":"cnt","g":g}));
            s.op(json!({"o":"ord","g":g}));
            if *via != "c32" {
                s.op(json!({"o":"dig","g":g}));
            }
            s.op(json!({"o":"cal","c":g,"g":g}));
            for x in &srcs {
                s.op(json!({"o":"q","c":g,"g":g,"s":x,"t":hub}));
                for t in &probes {
                    s.op(json!({"o":"q","c":g,"g":g,"s":x,"t":t}));
                }
            }
        }
        self.push(s);
    }

    /// nodes that have very many edges when they are contracted; returns an order that makes that so
    fn crowd(&mut self, most: usize) -> (Vec<E3>, Vec<usize>) {
        let r = &mut self.r;
        let wf = *r.pick(&["ten", "hundred", "skew", "ties", "unit"]);
        let enc = Enc::id();
        let mut es: Vec<E3> = vec![];
        let n;
        let mut order;
        if r.chance(50) {
            // dense everywhere
            n = most / 2 + r.below(most / 2);
            let m = n * (3 + r.below(n / 3));
            for _ in 0..m {
                es.push((r.below(n), r.below(n), weight(r, &enc, wf, n)));
            }
            order = perm(r, n);
        } else {
            // some nodes between many sources and many targets
            let k = most / 4 + r.below(most / 4);
            let c = 1 + r.below(4);
            n = 2 * k + c;
            let p = perm(r, n);
            for i in 0..k {
                for j in 0..c {
                    if j == 0 || r.chance(60) {
                        es.push((p[i], p[2 * k + j], weight(r, &enc, wf, n)));
                        es.push((p[2 * k + j], p[k + i], weight(r, &enc, wf, n)));
                    }
                }
                for _ in 0..r.below(3) {
                    es.push((p[k + i], p[r.below(2 * k)], weight(r, &enc, wf, n)));
                    es.push((p[r.below(k)], p[i], weight(r, &enc, wf, n)));
                }
            }
            order = p[2 * k..].to_vec();
            let mut rest = p[..2 * k].to_vec();
            r.shuffle(&mut rest);
            order.extend(rest);
        }
        es.retain(|e| e.0 != e.1);
        let n2 = node_count(&es);
        order.retain(|x| *x < n2);
        (es, order)
    }

    /// hubs with very many neighbors that are far away, so that searches from them have many open
    /// nodes when they give up, and short ways between the hubs
    fn funnel(&mut self, leaves: usize) -> (Vec<E3>, Vec<usize>) {
        let r = &mut self.r;
        let hubs = 2 + r.below(3);
        let ways = hubs + r.below(4);
        let n = hubs + ways + leaves;
        let p = perm(r, n);
        let mut es: Vec<E3> = vec![];
        for i in 0..ways {
            let (a, b) = (r.below(hubs), r.below(hubs));
            let (a, b) = if a == b { (a, (b + 1) % hubs) } else { (a, b) };
            es.push((p[a], p[hubs + i], r.range(1, 30)));
            es.push((p[hubs + i], p[b], r.range(1, 30)));
            if r.chance(30) {
                es.push((p[hubs + r.below(ways)], p[hubs + i], r.range(1, 30)));
            }
        }
        let first = hubs + ways;
        for i in first..n {
            let far = if r.chance(4) { r.range(5, 40) } else { r.range(70, 120) };
            let h = p[r.below(hubs)];
            es.push((h, p[i], far));
            let back = r.range(70, 120);
            if r.chance(20) {
                es.push((p[i], p[r.below(hubs)], back));
            }
            if i > first {
                es.push((p[i], p[i - 1], r.range(1, 50)));
                es.push((p[i - 1], p[i], r.range(1, 50)));
            }
        }
        es.retain(|e| e.0 != e.1);
        let mut order = p[hubs..first].to_vec();
        order.extend(&p[first..]);
        order.extend(&p[..hubs]);
        let top = node_count(&es);
        order.retain(|x| *x < top);
        (es, order)
    }

    fn funnels(&mut self, sizes: &[usize], mode: &'static str, hier: bool) {
        for leaves in sizes {
            let (es, order) = self.funnel(*leaves);
            let n = order.len();
            let mut s = self.script(&Enc::id(), "funnel");
            let r = &mut self.r;
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            if mode == "default" {
                s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            } else {
                let par = *r.pick(&["default", "default", "20", "1000"]);
                s.op(json!({"o":"prepo","g":0,"i":0,"ord":order,"par":par}));
            }
            if hier {
                s.op(json!({"o":"hier","g":0}));
            } else {
                s.op(json!({"o":"cal","c":0,"g":0}));
                let mut src: Vec<usize> = (0..2).map(|_| *r.pick(&order)).collect();
                src.push(order[n - 1]);
                src.push(order[n - 2]);
                src.push(order[0]);
                for x in src.iter() {
                    s.op(json!({"o":"drow","c":0,"g":0,"s":x}));
                }
                for _ in 0..20 {
                    let (a, b) = (*r.pick(&src), *r.pick(&order));
                    s.op(json!({"o":"q","c":0,"g":0,"s":a,"t":b}));
                }
            }
            self.push(s);
        }
    }

    fn crowded(&mut self, count: usize, mode: &'static str, hier: bool) {
        self.times(count, |t| {
            let most = if hier { *t.r.pick(&[70, 160, 240]) } else { *t.r.pick(&[70, 140, 140, 280]) };
            let (es, order) = t.crowd(most);
            let n = order.len();
            let mut s = t.script(&Enc::id(), "crowd");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            let r = &mut t.r;
            if mode == "default" || (mode == "any" && r.chance(40)) {
                s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            } else {
                let par = if r.chance(50) { "0".to_string() } else { any_order_param(r) };
                s.op(json!({"o":"prepo","g":0,"i":0,"ord":order,"par":par}));
            }
            if hier {
                s.op(json!({"o":"hier","g":0}));
            } else {
                queries(r, &mut s, 0, 0, &es, n, 6);
            }
            t.push(s);
        });
    }

    fn trivial(&mut self, mode: &str) {
        for es in [vec![], vec![(0, 0, 5)], vec![(3, 3, 1), (0, 1, 0)], vec![(0, 1, 1)], vec![(1, 0, 7)], vec![(7, 2, 3)]] {
            self.answers(&Enc::id(), es, 2, mode, "trivial");
        }
    }

    fn c01(&mut self) {
        self.wide("default", &[], 6, 100_000);
        self.trivial("default");
        self.answer_mix("default", 260, 120, 30, 20, 3);
        self.giant(&[], 12);
        self.sizes(&[], 12);
        self.crowded(12, "default", false);
        self.funnels(&[90, 300, 700, 2500], "default", false);
        // a core that a query has to go through
        self.times(1, |t| {
            let n = if t.thorough { 2500 } else { 1000 } + t.r.below(500);
            let enc = Enc::id();
            let mut es = graph(&mut t.r, &enc, "er3", "hundred", n);
            es.retain(|e| e.0 != e.1 && e.2 > 0);
            let n = node_count(&es);
            let mut s = t.script(&enc, "core");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"cal","c":0,"g":0}));
            let src: Vec<usize> = (0..7).map(|_| es[t.r.below(es.len())].0).collect();
            for (i, x) in src.iter().enumerate() {
                s.op(json!({"o":if i > 0 {"drow"} else {"row"},"c":0,"g":0,"s":x}));
            }
            for _ in 0..20 {
                s.op(json!({"o":"q","c":0,"g":0,"s":t.r.pick(&src),"t":t.r.below(n)}));
            }
            t.push(s);
        });
    }
    fn c02(&mut self) {
        self.wide("any", &[], 20, 100_000);
        self.giant(&[], 40);
        self.sizes(&[], 20);
        self.trivial("any");
        self.answer_mix("any", 220, 100, 20, 20, 2);
        self.multi(60, "any");
        self.crowded(12, "any", false);
    }
    fn c04(&mut self) {
        self.wide("order", &[], 6, 100_000);
        self.giant_star(true, &[]);
        self.giant_star(false, &[]);
        self.trivial("order");
        self.crowded(20, "order", false);
        self.answer_mix("order", 160, 80, 10, 16, 1);
        // an ordering from a differently weighted or different graph of the same size
        self.times(50, |t| {
            let enc = any_enc(&mut t.r);
            let n = 3 + t.r.below(30);
            let es = any_graph(&mut t.r, &enc, n);
            let n = node_count(&es);
            let mut s = t.script(&enc, "stale");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            let es2: Vec<E3> = es.iter().map(|e| (e.0, e.1, if e.2 > 0 { weight(&mut t.r, &enc, "ten", n.max(1)) } else { 0 })).collect();
            s.op(json!({"o":"build","i":1,"es":es_json(&es2)}));
            s.op(json!({"o":"prepr","g":1,"i":1,"from":0,"par":any_order_param(&mut t.r)}));
            queries(&mut t.r, &mut s, 1, 0, &es2, n, 4);
            s.op(json!({"o":"ord","g":1}));
            t.push(s);
        });
        // refused orders
        self.times(120, |t| {
            let enc = Enc::id();
            let n = if t.r.chance(20) { 20 + t.r.below(180) } else { 1 + t.r.below(9) };
            let fam = *t.r.pick(if n > 9 { &["er", "tree", "chain"][..] } else { &FAMS[..] });
            let es = graph(&mut t.r, &enc, fam, "ten", n);
            let n = node_count(&es);
            let mut s = t.script(&enc, "refused");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            for _ in 0..6 {
                let mut o: Vec<i64> = perm(&mut t.r, n).into_iter().map(|x| x as i64).collect();
                match t.r.below(14) {
                    9 | 10 => {
                        // two entries moved in opposite directions: the same sum
                        if n > 2 {
                            let (a, b) = (t.r.below(n), t.r.below(n));
                            let d = 1 + t.r.below(3) as i64;
                            if o[a] >= d && o[b] + d < n as i64 {
                                o[a] -= d;
                                o[b] += d;
                            }
                        }
                    }
                    11 => {
                        // the same sum and the same parity of every bit, or the same sum of squares
                        let (from, to): (&[i64], &[i64]) = *t.r.pick(&[
                            (&[0, 3][..], &[1, 2][..]),
                            (&[4, 7], &[5, 6]),
                            (&[0, 4, 5], &[1, 2, 6]),
                            (&[1, 2, 6], &[0, 4, 5]),
                            (&[1, 6], &[2, 3]),
                            (&[0, 7, 5], &[3, 8, 1]),
                        ]);
                        if from.iter().chain(to).all(|x| *x < n as i64) {
                            for (x, y) in from.iter().zip(to) {
                                let p = o.iter().position(|z| z == x).unwrap_or(0);
                                o[p] = *y;
                            }
                        }
                    }
                    12 => {
                        // one value an odd number of times
                        if n > 2 {
                            let x = o[t.r.below(n)];
                            for _ in 0..2 * (1 + t.r.below(2)) {
                                let a = t.r.below(n);
                                o[a] = x;
                            }
                        }
                    }
                    13 => {
                        // a value again some power of two further
                        let d = *t.r.pick(&[8i64, 16, 32, 64, 128]);
                        if n as i64 > d {
                            let a = t.r.below(n - d as usize) as i64;
                            let p = o.iter().position(|z| *z == a).unwrap();
                            o[p] = a + d;
                        }
                    }
                    0 => {
                        o.pop();
                    }
                    1 => o.push(n as i64),
                    2 => o.push(t.r.below(n + 1) as i64),
                    3 => o.clear(),
                    4 => {
                        if n > 1 {
                            let (a, b) = (t.r.below(n), t.r.below(n));
                            o[a] = o[b];
                        }
                    }
                    5 => {
                        if n > 0 {
                            let a = t.r.below(n);
                            o[a] = n as i64 + t.r.below(3) as i64;
                        }
                    }
                    6 => {
                        if n > 0 {
                            // some look like a permutation when cut to fewer bits
                            let a = t.r.below(n);
                            o[a] = *t.r.pick(&[-1, -1000 - o[a], -2000 - o[a], -3000 - o[a], -4000 - o[a]]);
                        }
                    }
                    7 => {
                        // the last place is the easiest to overlook
                        if n > 1 {
                            let l = o.len() - 1;
                            o[l] = *t.r.pick(&[o[0], n as i64, o[l]]);
                        }
                    }
                    _ => {
                        for x in o.iter_mut() {
                            *x = 0;
                        }
                    }
                }
                s.op(json!({"o":"prepo","g":0,"i":0,"ord":o,"par":any_order_param(&mut t.r)}));
            }
            let o = perm(&mut t.r, n);
            s.op(json!({"o":"prepo","g":1,"i":0,"ord":o,"par":"default"}));
            if n > 0 && n <= 9 {
                s.op(json!({"o":"fall","g":1}));
            }
            t.push(s);
        });
    }
    fn c05(&mut self) {
        self.wide("params", &[], 6, 100_000);
        self.trivial("params");
        self.answer_mix("params", 220, 110, 10, 16, 0);
        self.crowded(10, "any", false);
        self.funnels(&[90, 150, 300, 600, 1200, 2500, 5000], "order", false);
        // every limit with every structure, at sizes where the limits bite
        self.times(30, |t| {
            let enc = Enc::id();
            let n = 20 + t.r.below(60);
            let fam = *t.r.pick(&["er3", "dense", "grid", "hubs", "wheel", "road", "complete"]);
            let wf = *t.r.pick(&["two", "ten", "hundred"]);
            let es = graph(&mut t.r, &enc, fam, wf, n);
            let n = node_count(&es);
            let mut s = t.script(&enc, "limits");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            for g in 0..3 {
                s.op(json!({"o":"prep","g":g,"i":0,"par":any_params(&mut t.r)}));
                queries(&mut t.r, &mut s, g, 0, &es, n, 3);
            }
            t.push(s);
        });
    }

    fn multi(&mut self, count: usize, mode: &'static str) {
        self.times(count, |t| {
            let enc = any_enc(&mut t.r);
            t.multi_script(&enc, mode);
        });
    }

    fn multi_script(&mut self, enc: &Enc, mode: &str) {
        let n = match self.r.below(4) {
            0 => 2 + self.r.below(4),
            1 => 12 + self.r.below(28),
            _ => 4 + self.r.below(10),
        };
        let wf = *self.r.pick(&WFAMS);
        let fam = *self.r.pick(&FAMS);
        let es = graph(&mut self.r, enc, fam, wf, n);
        let n = node_count(&es);
        if n == 0 {
            return;
        }
        let mut s = self.script(enc, "multi");
        s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
        if mode == "default" || self.r.chance(50) {
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
        } else if self.r.chance(50) {
            s.op(json!({"o":"prep","g":0,"i":0,"par":any_params(&mut self.r)}));
        } else {
            let o = any_order(&mut self.r, &es, n);
            s.op(json!({"o":"prepo","g":0,"i":0,"ord":o,"par":any_order_param(&mut self.r)}));
        }
        s.op(json!({"o":"cal","c":0,"g":0}));
        for _ in 0..12 {
            let c = if self.r.chance(75) { 0 } else { -1 };
            let a = multi_entries(&mut self.r, enc, n, wf);
            let b = multi_entries(&mut self.r, enc, n, wf);
            s.op(json!({"o":"mq","c":c,"g":0,"S":a,"T":b}));
        }
        self.push(s);
    }

    fn c03(&mut self) {
        self.wide("any", &[], 2, 30_000);
        self.giant(&[], 1);
        self.multi(330, "any");
        // very long lists, mostly of repeated nodes
        self.times(8, |t| {
            let enc = any_enc(&mut t.r);
            let n = 3 + t.r.below(34);
            let es = any_graph(&mut t.r, &enc, n);
            let n = node_count(&es);
            if n == 0 {
                return;
            }
            let mut s = t.script(&enc, "long");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"cal","c":0,"g":0}));
            for _ in 0..4 {
                let mut l = |r: &mut Rng| -> Vec<Value> {
                    let k = *r.pick(&[1, 3, 130, 255, 256, 257, 513, 1100]);
                    let low = r.below(4) as i64;
                    let mut v: Vec<Value> = (0..k)
                        .map(|_| {
                            let w = if low == 0 { r.range(1, 9) } else { weight(r, &enc, "ten", 60) };
                            json!([r.below(n), w])
                        })
                        .collect();
                    // one good entry, late in the list
                    if k > 100 {
                        let i = k - 1 - r.below(k / 3);
                        v[i][1] = json!(0);
                    }
                    v
                };
                let (a, b) = (l(&mut t.r), l(&mut t.r));
                s.op(json!({"o":"mq","c":0,"g":0,"S":a,"T":b}));
            }
            t.push(s);
        });
        // lists longer than small counters, with one entry that decides, anywhere
        for k in [127usize, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4096, 4097, 65_535, 65_536, 65_537] {
            for side in 0..2 {
                let enc = Enc::id();
                let n = 3 + self.r.below(12);
                let es = graph(&mut self.r, &enc, "biring", "ten", n);
                let n = node_count(&es);
                let mut s = self.script(&enc, "lists");
                let r = &mut self.r;
                s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
                s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
                s.op(json!({"o":"cal","c":0,"g":0}));
                let places = vec![0, k - 1, k / 2, std::cmp::min(k - 1, 256), std::cmp::min(k - 1, 65_535), r.below(k)];
                for p in &places[..if k > 10_000 { 4 } else { 6 }] {
                    let own = r.below(n);
                    let alone = r.chance(50);
                    // the deciding entry is the only one for its node, or one of many for it
                    let mut v: Vec<Value> = (0..k)
                        .map(|_| {
                            let x = r.below(n);
                            json!([if alone && x == own { (x + 1) % n } else { x }, 1000 + r.below(50)])
                        })
                        .collect();
                    v[*p] = json!([own, r.below(3)]);
                    let o = json!([[r.below(n), r.below(9)], [r.below(n), r.below(9)]]);
                    let (a, b) = if side == 0 { (json!(v), o) } else { (o, json!(v)) };
                    s.op(json!({"o":"mq","c":*r.pick(&[0, 0, -1]),"g":0,"S":a,"T":b}));
                }
                self.push(s);
            }
        }
        self.times(40, |t| t.multi_script(&Enc::max64(), "any"));
        // larger graphs: rows first, then choices among those sources
        self.times(12, |t| {
            let enc = Enc::id();
            let n = 60 + t.r.below(100);
            let wf = *t.r.pick(&WFAMS);
            let fam = *t.r.pick(&FAMS);
            let es = graph(&mut t.r, &enc, fam, wf, n);
            let n = node_count(&es);
            if n < 41 {
                return;
            }
            let mut s = t.script(&enc, "large");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"cal","c":0,"g":0}));
            let src: Vec<usize> = (0..6).map(|_| t.r.below(n)).collect();
            for x in &src {
                s.op(json!({"o":"row","c":0,"g":0,"s":x}));
            }
            for _ in 0..25 {
                let a: Vec<Value> = (0..1 + t.r.below(6)).map(|_| json!([t.r.pick(&src), t.r.range(0, 40)])).collect();
                let b: Vec<Value> = (0..1 + t.r.below(40)).map(|_| json!([t.r.below(n), t.r.range(0, 40)])).collect();
                s.op(json!({"o":"mq","c":0,"g":0,"S":a,"T":b}));
            }
            t.push(s);
        });
    }

    // ---- reuse of calculators ------------------------------------------------------------------

    fn c06(&mut self) {
        self.wide("any", &["clone"], 15, 30_000);
        // random histories over several graphs with the same number of nodes
        self.times(150, |t| {
            let enc = if t.r.chance(15) { Enc::max64() } else { any_enc(&mut t.r) };
            let n = 3 + t.r.below(10);
            let mut s = t.script(&enc, "history");
            let k = 1 + t.r.below(3);
            let wf = *t.r.pick(&WFAMS);
            for g in 0..k as i64 {
                let fam = *t.r.pick(&FAMS);
                let mut es = graph(&mut t.r, &enc, fam, wf, n);
                es.push((n - 1, 0, weight(&mut t.r, &enc, wf, n)));
                es.push((n - 1, 0, std::cmp::min(enc.wm - 1, U)));
                s.op(json!({"o":"build","i":g,"es":es_json(&es)}));
                if t.r.chance(60) {
                    s.op(json!({"o":"prep","g":g,"i":g,"par":"default"}));
                } else {
                    let o = any_order(&mut t.r, &es, n);
                    s.op(json!({"o":"prepo","g":g,"i":g,"ord":o,"par":any_order_param(&mut t.r)}));
                }
            }
            // a graph of another size
            s.op(json!({"o":"build","i":9,"es":[[0, n, 1]]}));
            s.op(json!({"o":"prep","g":9,"i":9,"par":"default"}));
            let cs = 1 + t.r.below(2) as i64;
            for c in 0..cs {
                s.op(json!({"o":"cal","c":c,"n":n}));
            }
            for _ in 0..70 {
                let c = t.r.below(cs as usize) as i64;
                let g = t.r.below(k) as i64;
                match t.r.below(20) {
                    0 => s.op(json!({"o":"q","c":c,"g":9,"s":0,"t":0})),
                    1 => s.op(json!({"o":"q","c":c,"g":g,"s":t.r.below(n),"t":n})),
                    2 => s.op(json!({"o":"mq","c":c,"g":g,"S":[],"T":[[0,0]]})),
                    3 => s.op(json!({"o":"mq","c":c,"g":g,"S":[[t.r.below(n),0]],"T":[[t.r.below(n),2],[n,0]]})),
                    4 => s.op(json!({"o":"q","c":-1,"g":g,"s":t.r.below(n),"t":t.r.below(n)})),
                    5..=8 => {
                        let a = multi_entries(&mut t.r, &enc, n, wf);
                        let b = multi_entries(&mut t.r, &enc, n, wf);
                        s.op(json!({"o":"mq","c":c,"g":g,"S":a,"T":b}))
                    }
                    9 if n <= 8 => s.op(json!({"o":"all","c":c,"g":g})),
                    10 => s.op(json!({"o":"rep","c":c,"g":g,"S":[[t.r.below(n),0]],"T":[[t.r.below(n),0]],"times":1 + t.r.below(40)})),
                    _ => s.op(json!({"o":"q","c":c,"g":g,"s":t.r.below(n),"t":t.r.below(n)})),
                };
            }
            t.push(s);
        });
        // another graph takes the place of the one before it, and is asked the same questions
        self.times(120, |t| {
            let enc = if t.r.chance(15) { Enc::max64() } else { any_enc(&mut t.r) };
            let n = 3 + t.r.below(8);
            let mut s = t.script(&enc, "place");
            let wf = *t.r.pick(&WFAMS);
            let mut qs = vec![];
            for _ in 0..2 + t.r.below(3) {
                qs.push(json!({"o":"q","g":0,"s":t.r.below(n),"t":t.r.below(n)}));
            }
            let a = multi_entries(&mut t.r, &enc, n, wf);
            let b = multi_entries(&mut t.r, &enc, n, wf);
            qs.push(json!({"o":"mq","g":0,"S":a,"T":b}));
            s.op(json!({"o":"cal","c":0,"n":n}));
            s.op(json!({"o":"cal","c":1,"n":n}));
            let fam = *t.r.pick(&FAMS);
            let mut es: Vec<(usize, usize, i64)> = vec![];
            for k in 0..5 {
                // a graph of the same shape, with other weights, or any other
                if k == 0 || t.r.chance(40) {
                    es = graph(&mut t.r, &enc, fam, wf, n);
                    es.push((n - 1, 0, weight(&mut t.r, &enc, wf, n)));
                } else {
                    for e in es.iter_mut() {
                        if t.r.chance(60) {
                            e.2 = weight(&mut t.r, &enc, wf, n);
                        }
                    }
                }
                es.push((n - 1, 0, std::cmp::min(enc.wm - 1, U)));
                let how = t.r.below(3);
                if k > 0 && how == 0 {
                    s.op(json!({"o":"drop","g":0}));
                }
                s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
                let g = if how == 1 { 5 } else { 0 };
                if t.r.chance(60) {
                    s.op(json!({"o":"prep","g":g,"i":0,"par":"default"}));
                } else {
                    let o = any_order(&mut t.r, &es, n);
                    s.op(json!({"o":"prepo","g":g,"i":0,"ord":o,"par":any_order_param(&mut t.r)}));
                }
                if g != 0 {
                    s.op(json!({"o":"gcopy","g":g,"h":0}));
                }
                for _ in 0..10 {
                    let mut q = t.r.pick(&qs).clone();
                    q["c"] = json!(t.r.below(3) as i64 - 1);
                    s.op(q);
                }
                if t.r.chance(20) {
                    s.op(json!({"o":"ord","g":0}));
                    s.op(json!({"o":"cnt","g":0}));
                    s.op(json!({"o":"dig","g":0}));
                }
            }
            t.push(s);
        });
        // many queries in between that leave the marks of an earlier one alone, up to and beyond
        // the ranges of small counters
        let mut times = vec![];
        for base in [63i64, 127, 255, 511, 1023, 4095, 32767, 65535] {
            for d in -2..=2 {
                times.push(base + d);
            }
        }
        if self.thorough {
            for base in [1i64 << 17, 1 << 20, 1 << 24] {
                for d in -2..=1 {
                    times.push(base + d);
                }
            }
        }
        for tm in times {
            let enc = Enc::id();
            let mut s = self.script(&enc, "repeat");
            // two components A (0..5) and B (6..8)
            let r = &mut self.r;
            let mut es = vec![(6, 7, 1), (7, 8, 1)];
            for i in 0..5 {
                es.push((i, i + 1, 10 + r.range(0, 3)));
                es.push((i + 1, i, 3 + r.range(0, 3)));
            }
            es.push((0, 3, 45));
            es.push((5, 1, 9));
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"cal","c":0,"g":0}));
            for _ in 0..2 {
                let (a, b) = (r.below(6), r.below(6));
                s.op(json!({"o":"q","c":0,"g":0,"s":a,"t":b}));
                s.op(json!({"o":"mq","c":0,"g":0,"S":[[a,0],[r.below(6),0]],"T":[[b,0]]}));
                s.op(json!({"o":"rep","c":0,"g":0,"S":[[6,0]],"T":[[8,0]],"times":tm}));
                for _ in 0..4 {
                    s.op(json!({"o":"q","c":0,"g":0,"s":r.below(6),"t":r.below(6)}));
                }
            }
            s.op(json!({"o":"all","c":0,"g":0}));
            self.push(s);
        }
        // several calculators in turns; one rests while the other ones are busy
        let mut times = vec![];
        for base in [31i64, 127, 1023, 16383, 32767, 65535, (1 << 19) - 1] {
            for d in -3..=1 {
                times.push(base + d);
            }
        }
        for (j, tm) in times.into_iter().enumerate() {
            let enc = Enc::id();
            let mut s = self.script(&enc, "turns");
            let n = 5 + self.r.below(4);
            let mut es = graph(&mut self.r, &enc, "biring", "hundred", n);
            es.extend(graph(&mut self.r, &enc, "er", "hundred", n));
            let n = node_count(&es);
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"cal","c":0,"g":0}));
            s.op(json!({"o":"cal","c":1,"g":0}));
            for k in 0..3 {
                for _ in 0..1 + self.r.below(3) {
                    s.op(json!({"o":"q","c":0,"g":0,"s":self.r.below(n),"t":self.r.below(n)}));
                }
                let c = if (j + k) % 4 == 3 { -1 } else { 1 };
                let a = self.r.below(n);
                let b = if self.r.chance(70) { a } else { self.r.below(n) };
                s.op(json!({"o":"rep","c":c,"g":0,"S":[[a,0]],"T":[[b,0]],"times":tm}));
                for _ in 0..4 {
                    s.op(json!({"o":"q","c":0,"g":0,"s":self.r.below(n),"t":self.r.below(n)}));
                }
            }
            s.op(json!({"o":"all","c":0,"g":0}));
            s.op(json!({"o":"all","c":1,"g":0}));
            self.push(s);
        }
        // a power of two of queries in between (see ep), for marks that keep a part of the epoch only
        for k in 8..32u32 {
            for d in 0..3u64 {
                let enc = Enc::id();
                let mut s = self.script(&enc, "stride");
                let n = 5 + self.r.below(4);
                let mut es = graph(&mut self.r, &enc, "biring", "hundred", n);
                es.extend(graph(&mut self.r, &enc, "er", "hundred", n));
                let n = node_count(&es);
                s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
                s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
                s.op(json!({"o":"cal","c":0,"g":0}));
                for j in 1..4u64 {
                    let e = 100 * j;
                    s.op(json!({"o":"ep","c":0,"e":e.to_string()}));
                    s.op(json!({"o":"q","c":0,"g":0,"s":self.r.below(n),"t":self.r.below(n)}));
                    s.op(json!({"o":"ep","c":0,"e":(e + (1u64 << k) - d).to_string()}));
                    for _ in 0..1 + d {
                        s.op(json!({"o":"q","c":0,"g":0,"s":self.r.below(n),"t":self.r.below(n)}));
                    }
                }
                s.op(json!({"o":"all","c":0,"g":0}));
                self.push(s);
            }
        }
        // around the wrap of the epoch counter (the same as billions of queries)
        self.times(40, |t| {
            let enc = Enc::id();
            let n = 5 + t.r.below(5);
            let mut s = t.script(&enc, "epoch");
            let mut es = graph(&mut t.r, &enc, "biring", "hundred", n);
            es.extend(graph(&mut t.r, &enc, "er", "hundred", n));
            let n = node_count(&es);
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"cal","c":0,"g":0}));
            for _ in 0..1 + t.r.below(12) {
                s.op(json!({"o":"q","c":0,"g":0,"s":t.r.below(n),"t":t.r.below(n)}));
            }
            for _ in 0..2 {
                let e = 4294967295u64 - t.r.below(6) as u64;
                s.op(json!({"o":"ep","c":0,"e":e.to_string()}));
                for _ in 0..14 {
                    s.op(json!({"o":"q","c":0,"g":0,"s":t.r.below(n),"t":t.r.below(n)}));
                }
            }
            s.op(json!({"o":"all","c":0,"g":0}));
            t.push(s);
        });
        // larger graphs
        self.times(6, |t| {
            let enc = Enc::id();
            let n = 60 + t.r.below(150);
            let mut s = t.script(&enc, "large");
            let wf = *t.r.pick(&WFAMS);
            let fam = *t.r.pick(&FAMS);
            let mut es = graph(&mut t.r, &enc, fam, wf, n);
            es.push((n - 1, 0, 3));
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"cal","c":0,"g":0}));
            let src: Vec<usize> = (0..4).map(|_| t.r.below(n)).collect();
            for x in &src {
                s.op(json!({"o":"row","c":0,"g":0,"s":x}));
            }
            for _ in 0..30 {
                s.op(json!({"o":"q","c":0,"g":0,"s":t.r.pick(&src),"t":t.r.below(n)}));
                s.op(json!({"o":"rep","c":0,"g":0,"S":[[t.r.pick(&src),3]],"T":[[t.r.below(n),0]],"times":3}));
            }
            t.push(s);
        });
    }

    // ---- input graphs ----------------------------------------------------------------------------

    fn probe(&mut self, s: &mut Script, i: i64) {
        for o in ["edges", "nn", "ne", "str"] {
            s.op(json!({"o":o,"i":i}));
        }
    }

    /// node ids over the whole range of numbers; such graphs cannot be prepared, but everything else
    fn huge_ids(&mut self, count: usize) {
        let what = self.name.clone();
        self.times(count, move |t| {
            let enc = if t.r.chance(30) { Enc::max64() } else { any_enc(&mut t.r) };
            let mut s = t.script(&enc, "huge");
            let k = *t.r.pick(&[1 << 30, 1 << 31, 1 << 32, 1 << 32, 3 << 31, 1 << 33, 1 << 40, 1 << 48, 1 << 53, 1 << 60, u64::MAX / 15]);
            s.nk = Some(k);
            let amax = std::cmp::min((u64::MAX - 1000) / k, 1999) as i64;
            let amax = if k == u64::MAX / 15 { 14 } else { amax };
            let mut ids: Vec<i64> = vec![];
            for _ in 0..2 + t.r.below(7) {
                let a = match t.r.below(6) {
                    0 => amax,
                    1 => 0,
                    2 => t.r.range(0, amax),
                    _ => t.r.range(0, std::cmp::min(amax, 4)),
                };
                ids.push(std::cmp::max(a * U + t.r.range(-2, 2), t.r.range(0, 2)));
            }
            let wf = *t.r.pick(&WFAMS);
            s.op(json!({"o":"new","i":0}));
            let mut cur = 0;
            for round in 0..1 + t.r.below(4) {
                for _ in 0..t.r.below(16) {
                    let w = if t.r.chance(5) { 0 } else { weight(&mut t.r, &enc, wf, 60) };
                    let o = *t.r.pick(&["add", "add", "addb"]);
                    s.op(json!({"o":o,"i":cur,"f":t.r.pick(&ids),"t":t.r.pick(&ids),"w":w}));
                }
                if what == "C11" && t.r.chance(40) {
                    s.op(json!({"o":"icopy","i":cur,"j":cur + 1,"via":*t.r.pick(&["clone", "bin", "json", "value", "nested"])}));
                    cur += 1;
                    t.probe(&mut s, cur);
                }
                s.op(json!({"o":"frz","i":cur}));
                t.probe(&mut s, cur);
                if what == "C11" {
                    s.op(json!({"o":"icopy","i":cur,"j":cur + 1,"via":*t.r.pick(&["bin", "json", "value", "nested"])}));
                    cur += 1;
                    t.probe(&mut s, cur);
                }
                if what == "C09" || what == "C10" {
                    for (w, rd) in [("tof", "fromf"), ("tod", "fromd")] {
                        s.op(json!({"o":w,"i":cur,"file":"a"}));
                        s.op(json!({"o":"cat","file":"a"}));
                        s.op(json!({"o":rd,"i":50 + round,"file":"a"}));
                        t.probe(&mut s, 50 + round as i64);
                    }
                    // files with a fault or none; ids of the largest node and beyond
                    let n = ids.iter().max().unwrap() + 1;
                    let m = t.r.below(6);
                    let mut ls = vec![json!({"k":"hdr","n":n,"m":m})];
                    for _ in 0..m {
                        let d = if what == "C10" && t.r.chance(6) { 2 } else { 1 };
                        ls.push(json!({"k":"arc","f":t.r.pick(&ids) + d,"t":t.r.pick(&ids) + 1,"w":weight(&mut t.r, &enc, wf, 60)}));
                    }
                    s.op(json!({"o":"putf","file":"b","ls":ls}));
                    for rd in ["fromd", "fromf"] {
                        s.op(json!({"o":"new","i":60}));
                        s.op(json!({"o":rd,"i":60,"file":"b"}));
                        t.probe(&mut s, 60);
                    }
                }
                s.op(json!({"o":"thw","i":cur}));
            }
            t.push(s);
        });
    }

    fn histories(&mut self, count: usize, len: usize) {
        self.times(count, move |t| {
            let enc = any_enc(&mut t.r);
            let mut s = t.script(&enc, "history");
            let nn = 2 + t.r.below(7);
            s.op(json!({"o":"new","i":0}));
            s.op(json!({"o":"new","i":1,"via":"default"}));
            let adds = t.r.below(2) == 0;
            for _ in 0..len {
                let i = t.r.below(2) as i64;
                match t.r.below(if adds { 40 } else { 18 }) {
                    0 => s.op(json!({"o":"frz","i":i})),
                    1 => s.op(json!({"o":"frz","i":i})),
                    2 => s.op(json!({"o":"thw","i":i})),
                    3 => s.op(json!({"o":"edges","i":i})),
                    4 => s.op(json!({"o":"nn","i":i})),
                    5 => s.op(json!({"o":"ne","i":i})),
                    6 => s.op(json!({"o":"str","i":i})),
                    7 => s.op(json!({"o":"prep","g":i,"i":i,"par":"default"})),
                    8 => s.op(json!({"o":"prepo","g":i,"i":i,"ord":perm(&mut t.r, nn),"par":"default"})),
                    9 => s.op(json!({"o":*t.r.pick(&["tof","tod"]),"i":i,"file":"a"})),
                    10 => {
                        let via = *t.r.pick(&["clone", "bin", "json", "value", "nested"]);
                        s.op(json!({"o":"icopy","i":i,"j":t.r.below(2),"via":via}))
                    }
                    11 => s.op(json!({"o":"prep","g":i,"i":i,"par":any_params(&mut t.r)})),
                    _ => {
                        let w = if t.r.chance(10) { 0 } else { weight(&mut t.r, &enc, "ten", nn) };
                        let o = *t.r.pick(&["add", "add", "addb"]);
                        s.op(json!({"o":o,"i":i,"f":t.r.below(nn),"t":t.r.below(nn),"w":w}))
                    }
                };
            }
            for i in 0..2 {
                t.probe(&mut s, i);
                s.op(json!({"o":"thw","i":i}));
                t.probe(&mut s, i);
                s.op(json!({"o":"frz","i":i}));
                t.probe(&mut s, i);
            }
            t.push(s);
        });
    }

    fn c07(&mut self) {
        self.histories(220, 40);
        self.huge_ids(60);
    }

    fn c08(&mut self) {
        self.histories(120, 50);
        self.huge_ids(120);
        // many additions, in any order and mode, over several rounds
        self.times(120, |t| {
            let enc = if t.r.chance(20) { Enc::max64() } else { any_enc(&mut t.r) };
            let mut s = t.script(&enc, "rounds");
            let wf = *t.r.pick(&WFAMS);
            let many = t.r.chance(30);
            let nn = 2 + t.r.below(if many { 40 } else { 6 });
            let top = *t.r.pick(&[0, 0, 0, 1000, 2_000_000_000]);
            let mut ids: Vec<usize> = (0..nn).collect();
            if top > 0 {
                ids = (0..nn).map(|_| t.r.below(top)).collect();
            }
            let i = 0;
            s.op(json!({"o":"new","i":0}));
            for _ in 0..1 + t.r.below(4) {
                for _ in 0..t.r.below(60) {
                    let w = if t.r.chance(5) { 0 } else { weight(&mut t.r, &enc, wf, 60) };
                    let o = *t.r.pick(&["add", "add", "addb"]);
                    s.op(json!({"o":o,"i":i,"f":t.r.pick(&ids),"t":t.r.pick(&ids),"w":w}));
                }
                s.op(json!({"o":"frz","i":i}));
                t.probe(&mut s, i);
                s.op(json!({"o":"thw","i":i}));
            }
            s.op(json!({"o":"frz","i":i}));
            t.probe(&mut s, i);
            t.push(s);
        });
        // edges at all places relative to those the graph has already
        self.times(120, |t| {
            let enc = any_enc(&mut t.r);
            let mut s = t.script(&enc, "append");
            let big = t.r.chance(20);
            let top = 3 + t.r.below(if big { 60 } else { 8 });
            let m = 1 + t.r.below(3 * top);
            s.op(json!({"o":"new","i":0}));
            let mut have = std::collections::BTreeMap::new();
            for round in 0..3 + t.r.below(3) {
                let keys: Vec<(usize, usize)> = have.keys().cloned().collect();
                let k = if round == 0 { m } else { 1 + t.r.below(4) };
                for _ in 0..k {
                    let any = (t.r.below(top), t.r.below(top));
                    let (f, to) = if keys.is_empty() {
                        any
                    } else {
                        let (first, last) = (keys[0], keys[keys.len() - 1]);
                        match t.r.below(8) {
                            0 => first,
                            1 | 2 => last,
                            3 => (last.0, last.1 + 1 + t.r.below(2)),
                            4 => (last.0 + 1, t.r.below(top)),
                            5 => (0, t.r.below(top)),
                            6 => *t.r.pick(&keys),
                            _ => any,
                        }
                    };
                    let old = have.get(&(f, to)).cloned().unwrap_or(50i64);
                    let w = std::cmp::min(std::cmp::max(t.r.range(0, 1), old + t.r.range(-3, 3)), 1000);
                    s.op(json!({"o":"add","i":0,"f":f,"t":to,"w":w}));
                    if f != to && w > 0 {
                        let e = have.entry((f, to)).or_insert(w);
                        *e = std::cmp::min(*e, w);
                    }
                }
                s.op(json!({"o":"frz","i":0}));
                t.probe(&mut s, 0);
                s.op(json!({"o":"thw","i":0}));
            }
            t.push(s);
        });
        // sizes around those of buffers and small counters
        for m in self.boundary_sizes() {
            let enc = Enc::id();
            let mut es = self.exactly(m);
            let mut s = self.script(&enc, "sizes");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            self.probe(&mut s, 0);
            // more of the same, heavier and lighter, and new ones
            let k = es.len();
            for _ in 0..1 + self.r.below(if m > 5000 { 40 } else { 1 + m / 2 }) {
                let e = es[self.r.below(k)];
                let w = self.r.range(1, 12);
                es.push((e.0, e.1, w));
            }
            es.push(es[0]);
            es.push((es[0].1, es[0].1, 4));
            if m > 8000 || self.r.chance(60) {
                // all edges twice, or three times, except for the first: parallel edges everywhere
                let first = es.iter().map(|e| (e.0, e.1)).min().unwrap();
                let times = 1 + self.r.below(2);
                for j in 0..k {
                    let e = es[j];
                    if (e.0, e.1) != first {
                        es.extend((0..times).map(|_| (e.0, e.1, e.2 + self.r.range(-3, 3).max(1 - e.2))));
                    }
                }
            }
            self.r.shuffle(&mut es);
            s.op(json!({"o":"build","i":1,"es":es_json(&es)}));
            self.probe(&mut s, 1);
            // another round on a large frozen graph
            s.op(json!({"o":"thw","i":1}));
            for _ in 0..1 + self.r.below(5) {
                let e = es[self.r.below(es.len())];
                let (f, t) = *self.r.pick(&[(e.0, e.1), (e.1, e.0), (e.0, e.0 + 1), (0, 1)]);
                let w = self.r.range(1, 4);
                s.op(json!({"o":"add","i":1,"f":f,"t":t,"w":w}));
            }
            s.op(json!({"o":"frz","i":1}));
            self.probe(&mut s, 1);
            self.push(s);
        }
        // very many parallel edges
        for m in [300, 5000, 66_000] {
            let enc = Enc::id();
            let mut s = self.script(&enc, "parallel");
            let m = m + self.r.below(100);
            let mut es: Vec<E3> = (0..m).map(|_| (1, 2, self.r.range(10, 2000))).collect();
            es.extend([(0, 3, 4), (2, 1, 5), (1, 3, 4), (1, 1, 1)]);
            let at = self.r.below(m);
            es[at].2 = 9;
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            self.probe(&mut s, 0);
            self.push(s);
        }
        // the same additions in different orders
        self.times(12, |t| {
            let enc = any_enc(&mut t.r);
            let mut s = t.script(&enc, "bulk");
            let nn = *t.r.pick(&[3, 10, 40]);
            let wf = *t.r.pick(&WFAMS);
            let mut es: Vec<E3> =
                (0..400).map(|_| (t.r.below(nn), t.r.below(nn), weight(&mut t.r, &enc, wf, 60))).collect();
            for i in 0..2 {
                s.op(json!({"o":"build","i":i,"es":es_json(&es)}));
                t.probe(&mut s, i);
                t.r.shuffle(&mut es);
            }
            t.push(s);
        });
    }

    /// m different edges in any order, of n nodes
    fn exactly(&mut self, m: usize) -> Vec<E3> {
        let n = ((m as f64).sqrt() * 1.6) as usize + 3 + self.r.below(20);
        let mut set = std::collections::HashSet::new();
        let mut es = vec![];
        while es.len() < m {
            let (a, b) = (self.r.below(n), self.r.below(n));
            if a != b && set.insert((a, b)) {
                es.push((a, b, self.r.range(1, 9)));
            }
        }
        if self.r.chance(30) {
            es.sort();
        }
        es
    }

    fn boundary_sizes(&mut self) -> Vec<usize> {
        let mut v = vec![];
        for p in [127i64, 256, 512, 1000, 1024, 2048] {
            v.extend((-1..=1).map(|d| (p + d) as usize));
        }
        for p in [4096usize, 5000, 8192, 16384, 32768, 65536] {
            v.push(p - 1 + self.r.below(3));
        }
        v
    }

    fn file_graph(&mut self, enc: &Enc) -> Vec<E3> {
        let n = match self.r.below(8) {
            0 => 200,
            1 => 60,
            _ => 2 + self.r.below(10),
        };
        let mut es = any_graph(&mut self.r, enc, n);
        if self.r.chance(25) {
            let top = *self.r.pick(&[1000, 1_000_000_000]);
            spread(&mut self.r, &mut es, n, std::cmp::max(top, n));
        }
        es
    }

    fn c09(&mut self) {
        self.huge_ids(80);
        self.times(160, |t| {
            let enc = if t.r.chance(20) { Enc::max64() } else { any_enc(&mut t.r) };
            let mut s = t.script(&enc, "files");
            for i in 0..3 {
                let es = if t.r.chance(8) { vec![] } else { t.file_graph(&enc) };
                s.op(json!({"o":"build","i":i,"es":es_json(&es)}));
            }
            for _ in 0..6 {
                let i = t.r.below(3);
                let f = *t.r.pick(&["a", "b"]);
                let (w, rd) = *t.r.pick(&[("tof", "fromf"), ("tod", "fromd")]);
                match t.r.below(10) {
                    0 => {
                        s.op(json!({"o":w,"i":i,"file":"full"}));
                        continue;
                    }
                    1 => {
                        s.op(json!({"o":w,"i":i,"file":"nodir"}));
                        continue;
                    }
                    2 => {
                        s.op(json!({"o":"thw","i":i}));
                        s.op(json!({"o":w,"i":i,"file":f}));
                        s.op(json!({"o":"frz","i":i}));
                    }
                    _ => {}
                }
                s.op(json!({"o":w,"i":i,"file":f}));
                s.op(json!({"o":"cat","file":f}));
                s.op(json!({"o":rd,"i":5,"file":f}));
                t.probe(&mut s, 5);
                // a plain reader given a DIMACS file sees the 1-based ids
                if t.r.chance(20) {
                    s.op(json!({"o":"fromf","i":6,"file":f}));
                    t.probe(&mut s, 6);
                }
            }
            t.push(s);
        });
        // texts whose length is a multiple of a size of blocks
        for exp in 9..=17 {
            for (dimacs, off) in [(false, 0), (true, 0), (false, 1), (true, 1), (false, -1), (true, -1), (false, 13)] {
                let size = (1usize << exp) * if exp < 17 && self.r.chance(20) { 3 } else { 1 };
                let es = self.text_of((size as i64 + off) as usize, dimacs);
                let mut s = self.script(&Enc::id(), "blocks");
                s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
                let (w, rd) = if dimacs { ("tod", "fromd") } else { ("tof", "fromf") };
                s.op(json!({"o":w,"i":0,"file":"a"}));
                s.op(json!({"o":"cat","file":"a"}));
                s.op(json!({"o":rd,"i":1,"file":"a"}));
                s.op(json!({"o":"edges","i":1}));
                self.push(s);
            }
        }
        // several files with similar, strange or relative names
        self.times(30, |t| {
            let enc = any_enc(&mut t.r);
            let mut s = t.script(&enc, "names");
            for i in 0..4 {
                let es = if t.r.chance(8) { vec![] } else { t.file_graph(&enc) };
                s.op(json!({"o":"build","i":i,"es":es_json(&es)}));
            }
            let base = *t.r.pick(&["g", "g.gr", "g.fp", "graph.txt", "tmp", "a b", "\u{e4}\u{4e2d}"]);
            let mut names = vec![base.to_string(), format!("rel:{}-r", base), format!("rel:./{}-d", base)];
            for x in [".tmp", ".temp", "~", ".bak", ".old", ".new", ".part", ".swp", ".lock", ".0", ".1", "_tmp", "-tmp", "_"] {
                if t.r.chance(35) {
                    names.push(format!("{}{}", base, x));
                }
            }
            let stem = base.split('.').next().unwrap();
            for x in [".tmp", ".temp", ".bak", ".old", ".new", ""] {
                let f = format!("{}{}", stem, x);
                if t.r.chance(35) && !names.contains(&f) {
                    names.push(f);
                }
            }
            for f in [".g", ".tmp", "G", "g.GR", ".g.tmp", ".g.swp", "temp", "graph", "backup", "1", "-", "g\\n", "nul"] {
                if t.r.chance(25) && !names.iter().any(|x| x == f) {
                    names.push(f.to_string());
                }
            }
            for k in [100, 251, 252, 254, 255] {
                if t.r.chance(25) {
                    names.push("n".repeat(k));
                }
            }
            t.r.shuffle(&mut names);
            for _ in 0..2 {
                let mut ks = vec![];
                for f in &names {
                    let (w, rd) = *t.r.pick(&[("tof", "fromf"), ("tod", "fromd")]);
                    s.op(json!({"o":w,"i":t.r.below(4),"file":f}));
                    ks.push((f.clone(), rd));
                }
                t.r.shuffle(&mut ks);
                for (f, rd) in ks {
                    if !f.starts_with("rel:") {
                        s.op(json!({"o":"cat","file":f}));
                    }
                    s.op(json!({"o":rd,"i":5,"file":f}));
                    t.probe(&mut s, 5);
                }
            }
            t.push(s);
        });
        // too little room, by one byte or by many, around the sizes of write buffers
        self.times(40, |t| {
            let enc = Enc::id();
            let mut s = t.script(&enc, "room");
            let n = *t.r.pick(&[2usize, 4, 40, 300]);
            let m = n * (1 + t.r.below(4));
            let es: Vec<E3> = (0..m).map(|_| (t.r.below(n), t.r.below(n), t.r.range(1, 99999))).collect();
            let mut g = fast_paths::InputGraph::new();
            for e in &es {
                g.add_edge(e.0, e.1, e.2 as usize);
            }
            g.freeze();
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            for (w, rd) in [("tof", "fromf"), ("tod", "fromd")] {
                let mut size = 0;
                if w == "tod" {
                    size += format!("p sp {} {}\n", g.get_num_nodes(), g.get_num_edges()).len();
                }
                for e in g.get_edges() {
                    let k = if w == "tod" { 1 } else { 0 };
                    size += format!("a {} {} {}\n", e.from + k, e.to + k, e.weight).len();
                }
                for _ in 0..4 {
                    let lim = match t.r.below(5) {
                        0 => size.saturating_sub(1),
                        1 => t.r.below(size + 1),
                        2 => size.saturating_sub(1 + t.r.below(20)),
                        3 => (*t.r.pick(&[512usize, 1024, 4096, 8192, 16384])).saturating_sub(t.r.below(3)),
                        _ => 2 * size + 64 + t.r.below(100),
                    };
                    s.op(json!({"o":w,"i":0,"file":"a","lim":lim}));
                }
                s.op(json!({"o":w,"i":0,"file":"a"}));
                s.op(json!({"o":"cat","file":"a"}));
                s.op(json!({"o":rd,"i":5,"file":"a"}));
                t.probe(&mut s, 5);
            }
            t.push(s);
        });
        // sizes around those of buffers and small counters
        for m in self.boundary_sizes() {
            let enc = Enc::id();
            let es = self.exactly(m);
            let mut s = self.script(&enc, "sizes");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            for (w, rd) in [("tof", "fromf"), ("tod", "fromd")] {
                s.op(json!({"o":w,"i":0,"file":"a"}));
                s.op(json!({"o":"cat","file":"a"}));
                s.op(json!({"o":rd,"i":5,"file":"a"}));
                self.probe(&mut s, 5);
            }
            self.push(s);
        }
        // big files
        self.times(4, |t| {
            let enc = Enc::k("k53", 1 << 53);
            let mut s = t.script(&enc, "big");
            let n = 300;
            let es: Vec<E3> = (0..1500).map(|_| (t.r.below(n), t.r.below(n), weight(&mut t.r, &enc, "ten", 300))).collect();
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"build","i":1,"es":[[0,1,1],[1,2,1]]}));
            for (w, rd) in [("tof", "fromf"), ("tod", "fromd")] {
                s.op(json!({"o":w,"i":0,"file":"full"}));
                s.op(json!({"o":w,"i":1,"file":"full"}));
                s.op(json!({"o":w,"i":0,"file":"a"}));
                s.op(json!({"o":"cat","file":"a"}));
                s.op(json!({"o":rd,"i":5,"file":"a"}));
                t.probe(&mut s, 5);
                s.op(json!({"o":w,"i":1,"file":"a"}));
                s.op(json!({"o":"cat","file":"a"}));
                s.op(json!({"o":rd,"i":5,"file":"a"}));
                t.probe(&mut s, 5);
            }
            t.push(s);
        });
    }

    fn line(&mut self, kind: &str, n: i64, m: i64, base: i64) -> Value {
        let r = &mut self.r;
        let bad_arcs = ["a 1 2", "a 1 2 3 4", "a x 2 3", "a 1 y 3", "a 1 2 z", "a 1 2 -3", "a -1 2 3", "a 1 2 3.5",
            "a 1 2 99999999999999999999999", "a ", "a 1", "a 1 2 3 x", "a 18446744073709551616 1 1", "a 1,2,3", "a 1e0 2 3",
            "a 0x1 2 3", "a 1_0 2 3", "a 1 2 \u{663}", "a 1 2 3 # x", "a 1 2 3;", "a  ", "a 1 2 NaN"];
        let bad_hdrs = ["p sp 3", "p sp 3 2 1", "p sp x 2", "p sp -1 2", "p sp 3 -2", "p sp ", "p sp 2.0 1", "p sp 1e1 1",
            "p sp 3 2 x", "p sp 3,2", "p sp 18446744073709551616 1"];
        let junks = ["x", "ab 1 2 3", "p max 3 2", "b 1 2 3", "1 2 3", "e 1 2", "p", "#", "A 1 2 3", "P sp 2 1",
            "a\t1 2 3", "a", "a1 2 3", "p sp", "p  sp 3 2", "p\tsp 3 2", "p sp\t3 2", "\u{feff}a 1 2 3", "%", "n 1 s", "\u{e4} 1 2 3"];
        let cmts = ["c", "c comment", "c a 1 2 3", "c p sp 9 9", "comment", "c\ta 1 2 3", "ca 1 2 3", "cp sp 1 1"];
        // only for the DIMACS reader: nodes that look stated when only some bits are used
        let fars = ["a 4294967297 1 1", "a 1 4294967297 1", "a 9223372036854775809 1 1", "a 1 18446744073709551615 3",
            "a 2147483649 1 1", "a 65537 1 1", "a 1 257 1"];
        match kind {
            "arc" | "hdr" => {
                let mut v = if kind == "arc" {
                    json!({"k":"arc","f":r.range(base, n - 1 + base),"t":r.range(base, n - 1 + base),"w":r.range(1, 9)})
                } else {
                    json!({"k":"hdr","n":n,"m":m})
                };
                if r.chance(6) {
                    v["sp"] = json!(r.range(1, 5));
                }
                v
            }
            "far" => json!({"k":"far","txt":*r.pick(&fars)}),
            "badarc" => json!({"k":"badarc","txt":*r.pick(&bad_arcs)}),
            "badhdr" => json!({"k":"badhdr","txt":*r.pick(&bad_hdrs)}),
            "junk" => json!({"k":"junk","txt":*r.pick(&junks)}),
            "cmt" => json!({"k":"cmt","txt":*r.pick(&cmts)}),
            _ => json!({"k":"empty"}),
        }
    }

    fn c10(&mut self) {
        self.huge_ids(80);
        // near-valid files: a valid one with at most one or two changes
        self.times(420, |t| {
            let enc = if t.r.chance(15) { Enc::max64() } else { any_enc(&mut t.r) };
            let mut s = t.script(&enc, "mutant");
            let n = t.r.range(1, 6);
            let m = t.r.range(0, 7);
            for _ in 0..5 {
                let mut ls: Vec<Value> = vec![];
                ls.push(t.line("hdr", n, m, 1));
                for _ in 0..m {
                    ls.push(t.line("arc", n, m, 1));
                }
                for _ in 0..t.r.below(3) {
                    let k = *t.r.pick(&["cmt", "empty"]);
                    let l = t.line(k, n, m, 1);
                    ls.insert(t.r.below(ls.len() + 1), l);
                }
                for _ in 0..t.r.below(3) {
                    if ls.is_empty() {
                        break;
                    }
                    let p = t.r.below(ls.len());
                    match t.r.below(12) {
                        11 => {
                            if ls[p]["k"] == "arc" {
                                ls[p] = t.line("far", n, m, 1);
                            }
                        }
                        0 => {
                            ls.remove(p);
                        }
                        1 => {
                            let l = ls[p].clone();
                            ls.insert(t.r.below(ls.len() + 1), l);
                        }
                        2 => {
                            let q = t.r.below(ls.len());
                            ls.swap(p, q);
                        }
                        3 => {
                            let k = *t.r.pick(&["badarc", "badhdr", "junk"]);
                            let l = t.line(k, n, m, 1);
                            ls.insert(p, l);
                        }
                        4 | 5 => {
                            if ls[p]["k"] == "arc" {
                                let f = *t.r.pick(&["f", "t"]);
                                ls[p][f] = json!(*t.r.pick(&[0, n, n + 1, 1]));
                            }
                        }
                        6 => {
                            if ls[p]["k"] == "arc" {
                                ls[p]["w"] = json!(0);
                            }
                        }
                        7 | 8 => {
                            if let Some(h) = ls.iter().position(|l| l["k"] == "hdr") {
                                let f = *t.r.pick(&["n", "m"]);
                                let x = ls[h][f].as_i64().unwrap() + t.r.range(-1, 1);
                                ls[h][f] = json!(std::cmp::max(0, x));
                            }
                        }
                        9 => {
                            let l = t.line("hdr", n, m, 1);
                            ls.insert(t.r.below(ls.len() + 1), l);
                        }
                        _ => {
                            let l = t.line("arc", n, m, 1);
                            ls.push(l);
                        }
                    }
                }
                let far = ls.iter().any(|l| l["k"] == "far");
                if enc.name != "id" {
                    for l in ls.iter_mut().filter(|l| l["k"] == "arc" && l["w"] != 0) {
                        l["w"] = json!(weight(&mut t.r, &enc, "ten", 60));
                    }
                }
                let crlf = t.r.chance(10);
                let nonl = t.r.chance(20) && ls.last().map(|l| l["k"] != "empty").unwrap_or(true);
                s.op(json!({"o":"new","i":0}));
                s.op(json!({"o":"new","i":1}));
                s.op(json!({"o":"putf","file":"a","ls":ls,"nonl":nonl && !crlf,"crlf":crlf}));
                s.op(json!({"o":"fromd","i":0,"file":"a"}));
                t.probe(&mut s, 0);
                if !far {
                    s.op(json!({"o":"fromf","i":1,"file":"a"}));
                    t.probe(&mut s, 1);
                }
            }
            s.op(json!({"o":"fromd","i":0,"file":"missing"}));
            s.op(json!({"o":"fromf","i":0,"file":"missing"}));
            t.push(s);
        });
        // larger files with at most one fault, anywhere
        self.times(25, |t| {
            let enc = Enc::id();
            let mut s = t.script(&enc, "faults");
            let (n, m) = (t.r.range(2, 60), t.r.range(250, 330));
            for _ in 0..2 {
                let mut ls = vec![json!({"k":"cmt"}), json!({"k":"hdr","n":n,"m":m})];
                for _ in 0..m {
                    ls.push(t.line("arc", n, m, 1));
                }
                let p = if t.r.chance(50) { ls.len() - 1 } else { 2 + t.r.below(m as usize) };
                match t.r.below(6) {
                    0 => {
                        ls.remove(p);
                    }
                    1 => {
                        let l = ls[p].clone();
                        ls.insert(p, l)
                    }
                    2 => ls[p]["t"] = json!(n + 1),
                    3 => ls[p]["f"] = json!(0),
                    4 => {
                        let k = *t.r.pick(&["badarc", "junk", "hdr", "badhdr"]);
                        ls[p] = t.line(k, n, m, 1)
                    }
                    _ => {}
                }
                s.op(json!({"o":"new","i":0}));
                s.op(json!({"o":"putf","file":"a","ls":ls}));
                s.op(json!({"o":"fromd","i":0,"file":"a"}));
                t.probe(&mut s, 0);
            }
            t.push(s);
        });
        // very long lines
        self.times(40, |t| {
            let enc = Enc::id();
            let mut s = t.script(&enc, "wide");
            let (n, m) = (t.r.range(2, 6), t.r.range(1, 5));
            let top = if t.r.chance(20) { 21 } else { 17 };
            let near = 1i64 << t.r.range(5, top);
            for _ in 0..3 {
                let mut ls = vec![t.line("hdr", n, m, 1)];
                for _ in 0..m {
                    let (a, b) = (t.r.range(1, n), t.r.range(1, n));
                    ls.push(json!({"k":"arc","f":a,"t":b,"w":t.r.range(1, 99_999_999)}));
                }
                if t.r.chance(70) {
                    let l = t.line("cmt", n, m, 1);
                    ls.insert(t.r.below(ls.len() + 1), l);
                }
                if t.r.chance(30) {
                    let k = *t.r.pick(&["junk", "badarc"]);
                    let l = t.line(k, n, m, 1);
                    ls.insert(t.r.below(ls.len() + 1), l);
                }
                for _ in 0..2 {
                    let p = t.r.below(ls.len());
                    if ls[p].get("txt").is_some() {
                        ls[p].as_object_mut().unwrap().remove("txt");
                    }
                    let less = *t.r.pick(&[1, 4, 20]);
                    ls[p]["pad"] = json!(near + 1 - t.r.range(0, less));
                    ls[p]["fill"] = json!(t.r.below(5));
                }
                s.op(json!({"o":"new","i":0}));
                s.op(json!({"o":"new","i":1}));
                s.op(json!({"o":"putf","file":"a","ls":ls,"nonl":t.r.chance(30),"crlf":false}));
                s.op(json!({"o":"fromd","i":0,"file":"a"}));
                t.probe(&mut s, 0);
                s.op(json!({"o":"fromf","i":1,"file":"a"}));
                t.probe(&mut s, 1);
            }
            t.push(s);
        });
        // files whose size, or in which a place between two lines, is a multiple of a size of blocks
        for exp in 9..=20 {
            for end in 0..6 {
                let enc = Enc::id();
                let mut s = self.script(&enc, "blocks");
                let r = &mut self.r;
                let (n, m) = (r.range(2, 9), r.range(1, 12));
                let arcs: Vec<Value> =
                    (0..m).map(|_| json!({"k":"arc","f":r.range(1, n),"t":r.range(1, n),"w":r.range(1, 99_999_999)})).collect();
                let room = json!({"k":"cmt","room":true});
                for (off, nonl) in [(0, true), (0, false), (r.range(-2, 2), r.chance(50)), (r.range(1, 200), r.chance(30)), (r.range(1, 60), false)] {
                    let mut ls = vec![json!({"k":"hdr","n":n,"m":m})];
                    ls.extend(arcs.clone());
                    let at = if end > 2 { 1 } else { r.below(ls.len() + 1) };
                    ls.insert(at, room.clone());
                    s.op(json!({"o":"new","i":0}));
                    s.op(json!({"o":"new","i":1}));
                    s.op(json!({"o":"putf","file":"a","ls":ls,"nonl":nonl,"size":(1i64 << exp) * if r.chance(20) { 3 } else { 1 } + off}));
                    s.op(json!({"o":"fromd","i":0,"file":"a"}));
                    s.op(json!({"o":"edges","i":0}));
                    s.op(json!({"o":"fromf","i":1,"file":"a"}));
                    s.op(json!({"o":"edges","i":1}));
                }
                self.push(s);
            }
        }
        // counts that are off by a power of two, or stated beyond what files of this size need
        for m in self.boundary_sizes().into_iter().chain([1, 2, 3, 5, 8]) {
            let enc = Enc::id();
            let es = self.exactly(m);
            let n = node_count(&es) as i64;
            let mut s = self.script(&enc, "counts");
            let arcs: Vec<Value> = es.iter().map(|e| json!({"k":"arc","f":e.0 + 1,"t":e.1 + 1,"w":e.2})).collect();
            let m = m as i64;
            for case in 0..if m > 5000 { 3 } else { 12 } {
                let case = if m > 5000 { *self.r.pick(&[0, 1, 2, 3, 4, 5]) } else { case };
                let mut ls = vec![json!({"k":"hdr","n":n,"m":m})];
                ls.extend(arcs.iter().cloned());
                match case {
                    0 => {}
                    1 => {
                        ls.pop();
                    }
                    2 => {
                        let a = self.r.pick(&arcs).clone();
                        ls.push(a)
                    }
                    3 => ls[0]["m"] = json!(m + *self.r.pick(&[256, 65_536, 1 << 24, 128, 1024])),
                    4 => ls[0]["m"] = json!(std::cmp::max(0, m - *self.r.pick(&[256, 65_536, 128, 1024]))),
                    5 => {
                        let i = ls.len() - 1;
                        let k = if self.r.chance(50) { "badarc" } else { "far" };
                        ls[i] = self.line(k, n, m, 1)
                    }
                    // stated counts that do not fit the specification's integers: the text counts
                    6 => ls[0] = json!({"k":"hdr","n":n,"m":-1,"txt":format!("p sp {} {}", n, (1i64 << 32) + m)}),
                    7 => ls[0] = json!({"k":"hdr","n":n,"m":-1,"txt":format!("p sp {} {}", n, (1u64 << 63) + m as u64)}),
                    8 => ls[0] = json!({"k":"hdr","n":2_000_000_000,"m":m,"txt":format!("p sp {} {}", (1i64 << 32) + self.r.range(0, 1), m)}),
                    9 => ls[0] = json!({"k":"hdr","n":2_000_000_000,"m":m,"txt":format!("p sp {} {}", u64::MAX, m)}),
                    10 => ls[0]["n"] = json!(n + *self.r.pick(&[256, 65_536, 1 << 24])),
                    _ => ls[0]["n"] = json!(n - 1),
                }
                s.op(json!({"o":"new","i":0}));
                let nonl = self.r.chance(30);
                s.op(json!({"o":"putf","file":"a","ls":ls,"nonl":nonl}));
                s.op(json!({"o":"fromd","i":0,"file":"a"}));
                for o in ["nn", "ne"] {
                    s.op(json!({"o":o,"i":0}));
                }
                if case == 0 || m < 300 {
                    s.op(json!({"o":"edges","i":0}));
                }
            }
            self.push(s);
        }
        // larger well-formed files
        self.times(6, |t| {
            let enc = Enc::k("k53", 1 << 53);
            let mut s = t.script(&enc, "large");
            let n = 400;
            let m = 900;
            let mut ls = vec![json!({"k":"cmt"}), json!({"k":"hdr","n":n,"m":m})];
            for _ in 0..m {
                ls.push(json!({"k":"arc","f":t.r.range(1,n),"t":t.r.range(1,n),"w":weight(&mut t.r, &enc, "ten", 400)}));
            }
            s.op(json!({"o":"putf","file":"a","ls":ls}));
            s.op(json!({"o":"fromd","i":0,"file":"a"}));
            t.probe(&mut s, 0);
            s.op(json!({"o":"fromf","i":1,"file":"a"}));
            t.probe(&mut s, 1);
            t.push(s);
        });
    }

    // ---- stored graphs ----------------------------------------------------------------------------

    fn prep_any(&mut self, s: &mut Script, g: i64, i: i64, es: &[E3]) {
        let n = node_count(es);
        match self.r.below(3) {
            0 => s.op(json!({"o":"prep","g":g,"i":i,"par":"default"})),
            1 => s.op(json!({"o":"prep","g":g,"i":i,"par":any_params(&mut self.r)})),
            _ => {
                let o = any_order(&mut self.r, es, n);
                s.op(json!({"o":"prepo","g":g,"i":i,"ord":o,"par":any_order_param(&mut self.r)}))
            }
        };
    }

    fn inspect(&mut self, s: &mut Script, g: i64, n: usize, es: &[E3], bytes: bool) {
        s.op(json!({"o":"cnt","g":g,"need":g}));
        s.op(json!({"o":"ord","g":g,"need":g,"via": if self.r.chance(50) {"fn"} else {""}}));
        if bytes {
            s.op(json!({"o":"dig","g":g,"need":g}));
        }
        if n > 0 && n <= 12 {
            s.op(json!({"o":"fall","g":g,"need":g}));
        } else if n > 0 && n <= 2000 {
            let x = if es.is_empty() { 0 } else { es[self.r.below(es.len())].0 };
            s.op(json!({"o":"row","c":-1,"g":g,"s":x,"need":g}));
            s.op(json!({"o":"row","c":-1,"g":g,"s":self.r.below(n),"need":g}));
        }
    }

    fn c11(&mut self) {
        self.wide("any", &["bin", "json"], 2, 6000);
        self.huge_ids(80);
        self.giant(&["bin", "json"], 0);
        self.sizes(&["bin", "json"], 0);
        self.giant_star(true, &["bin", "json"]);
        self.giant_star(false, &["clone", "value"]);
        self.times(170, |t| {
            let enc = if t.r.chance(25) { Enc::max64() } else { any_enc(&mut t.r) };
            let mut s = t.script(&enc, "store");
            let n = match t.r.below(8) {
                0 => 60 + t.r.below(80),
                1 => 13 + t.r.below(20),
                _ => 1 + t.r.below(10),
            };
            let es = if t.r.chance(4) { vec![] } else { any_graph(&mut t.r, &enc, n) };
            let n = node_count(&es);
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            t.prep_any(&mut s, 0, 0, &es);
            t.inspect(&mut s, 0, n, &es, true);
            let mut g = 0;
            for via in ["bin", "json", "value", "file", "nested", "nestedjson", "clone"] {
                if t.r.chance(55) {
                    // from the original or from the last copy
                    let from = if t.r.chance(40) { g } else { 0 };
                    g += 1;
                    s.op(json!({"o":"gcopy","g":from,"h":g,"via":via}));
                    t.inspect(&mut s, g, n, &es, true);
                    if n > 0 && n <= 10 {
                        s.op(json!({"o":"cal","c":g,"g":g}));
                        s.op(json!({"o":"all","c":g,"g":from}));
                        s.op(json!({"o":"mq","c":g,"g":g,"S":multi_entries(&mut t.r, &enc, n, "ten"),"T":multi_entries(&mut t.r, &enc, n, "ten")}));
                    }
                }
            }
            t.push(s);
        });
        // input graphs in either mode
        self.times(90, |t| {
            let enc = if t.r.chance(25) { Enc::max64() } else { any_enc(&mut t.r) };
            let mut s = t.script(&enc, "input");
            let nn = 1 + t.r.below(12);
            s.op(json!({"o":"new","i":0}));
            let mut cur = 0;
            for _ in 0..4 {
                for _ in 0..t.r.below(12) {
                    let o = *t.r.pick(&["add", "addb"]);
                    let w = weight(&mut t.r, &enc, "ten", 60);
                    s.op(json!({"o":o,"i":cur,"f":t.r.below(nn),"t":t.r.below(nn),"w":w}));
                }
                let j = cur + 1;
                let via = *t.r.pick(&["clone", "bin", "json", "value", "nested"]);
                s.op(json!({"o":"icopy","i":cur,"j":j,"via":via}));
                t.probe(&mut s, cur);
                t.probe(&mut s, j);
                if t.r.chance(60) {
                    for i in [cur, j] {
                        s.op(json!({"o":*t.r.pick(&["frz", "thw"]),"i":i}));
                        t.probe(&mut s, i);
                    }
                }
                cur = j;
            }
            s.op(json!({"o":"frz","i":cur}));
            s.op(json!({"o":"prep","g":0,"i":cur,"par":"default"}));
            t.push(s);
        });
    }

    fn c12(&mut self) {
        self.wide("any", &["c32"], 3, 6000);
        self.giant(&["c32"], 3);
        self.sizes(&["c32"], 3);
        self.giant_star(true, &["c32"]);
        self.giant_star(false, &["c32"]);
        self.times(230, |t| {
            let enc = match t.r.below(6) {
                0 => Enc::id(),
                1 => Enc::k("k32", 1 << 32),
                2 => Enc::k("k31", 1 << 31),
                3 => Enc::k("k24", 1 << 24),
                _ => Enc::max32(),
            };
            let mut s = t.script(&enc, "convert");
            let n = match t.r.below(10) {
                0 => 45 + t.r.below(60),
                1 => 13 + t.r.below(20),
                _ => 2 + t.r.below(8),
            };
            let fam = *t.r.pick(&FAMS);
            let wf = *t.r.pick(&WFAMS);
            let mut es = if t.r.chance(3) { vec![] } else { graph(&mut t.r, &enc, fam, wf, n) };
            // keep the total around the limit of the 32-bit representation
            if enc.name == "max32" {
                let total = *t.r.pick(&[14, 15, 15, 16, 30, 200]);
                let mut left = total;
                for e in es.iter_mut() {
                    if e.2 == 0 {
                        continue;
                    }
                    let a = if left > 0 && t.r.chance(50) { t.r.range(0, left) } else { 0 };
                    left -= a;
                    e.2 = std::cmp::max(1, a * U + t.r.range(-2, 2));
                }
            }
            if t.r.chance(10) && !es.is_empty() {
                let k = t.r.below(es.len());
                es[k].2 = enc.wm;
            }
            let n = node_count(&es);
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            if t.r.chance(50) {
                s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            } else if t.r.chance(50) {
                t.prep_any(&mut s, 0, 0, &es);
            } else {
                let o = any_order(&mut t.r, &es, n);
                s.op(json!({"o":"prepo","g":0,"i":0,"ord":o,"par":"default"}));
            }
            t.inspect(&mut s, 0, n, &es, false);
            let mut g = 0;
            for via in ["direct", "bin", "json", "helper", "helperjson"] {
                if t.r.chance(50) {
                    g += 1;
                    s.op(json!({"o":"c32","g":0,"h":g,"via":via}));
                    t.inspect(&mut s, g, n, &es, false);
                }
            }
            t.push(s);
        });
        // exactly at the boundary: a single edge, and two edges joined by a shortcut
        let enc = Enc::max32();
        let l = enc.lim32();
        for via in ["direct", "bin", "json", "helper", "helperjson"] {
            for d in -3i64..=3 {
                for es in [
                    vec![(0, 1, l + d)],
                    vec![(0, 1, 7 * U), (1, 2, l - 7 * U + d)],
                    vec![(2, 0, 8 * U), (0, 1, l - 8 * U + d), (1, 2, 5)],
                    vec![(0, 1, l - 3 * U), (1, 2, U), (2, 3, U), (3, 4, U + d)],
                    vec![(0, 1, 2 * U), (1, 2, 2 * U), (1, 2, l + d), (2, 3, enc.wm), (3, 0, 1)],
                ] {
                    let mut s = self.script(&enc, "boundary");
                    let n = node_count(&es);
                    s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
                    s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
                    self.inspect(&mut s, 0, n, &es, false);
                    s.op(json!({"o":"c32","g":0,"h":1,"via":via}));
                    self.inspect(&mut s, 1, n, &es, false);
                    // inner nodes first, so that the total becomes a shortcut
                    let mut o: Vec<usize> = (1..n - 1).collect();
                    o.push(0);
                    o.push(n - 1);
                    s.op(json!({"o":"prepo","g":2,"i":0,"ord":o,"par":"default"}));
                    self.inspect(&mut s, 2, n, &es, false);
                    s.op(json!({"o":"c32","g":2,"h":3,"via":via}));
                    self.inspect(&mut s, 3, n, &es, false);
                    self.push(s);
                }
            }
        }
    }

    // ---- determinism, orderings, concurrency -----------------------------------------------------

    fn c13(&mut self) {
        self.wide("any", &["again"], 2, 6000);
        self.giant(&["again"], 2);
        self.sizes(&["again"], 2);
        self.times(130, |t| {
            let enc = any_enc(&mut t.r);
            let mut s = t.script(&enc, "twice");
            let n = match t.r.below(8) {
                0 => 100 + t.r.below(200),
                1 | 2 => 13 + t.r.below(40),
                _ => 2 + t.r.below(9),
            };
            // ties between priorities are frequent with unit weights and regular graphs
            let fam = *t.r.pick(&FAMS);
            let wf = *t.r.pick(&["unit", "unit", "two", "ten", "hundred"]);
            let mut es = graph(&mut t.r, &enc, fam, wf, n);
            let n = node_count(&es);
            // starved searches take minutes on larger graphs
            let par = if n < 80 {
                any_params(&mut t.r)
            } else {
                format!("{},{},100,{},{}", t.r.pick(&FACS), t.r.pick(&FACS), t.r.pick(&["20", "100"]), t.r.pick(&["100", "400"]))
            };
            let ord = if n < 80 { any_order(&mut t.r, &es, n) } else { perm(&mut t.r, n) };
            let opar = if n < 80 { any_order_param(&mut t.r) } else { "default".into() };
            let mut g = 0i64;
            let mut part = |t: &mut Suite, s: &mut Script, es: &[E3], rounds: bool| -> Vec<Value> {
                let mut sub = Script::new(&s.enc, "x".into());
                g += 3;
                if rounds {
                    // one by one, in two rounds
                    sub.op(json!({"o":"new","i":g}));
                    for (k, e) in es.iter().enumerate() {
                        if k == es.len() / 2 {
                            sub.op(json!({"o":"frz","i":g}));
                            sub.op(json!({"o":"thw","i":g}));
                        }
                        sub.op(json!({"o":"add","i":g,"f":e.0,"t":e.1,"w":e.2}));
                    }
                    sub.op(json!({"o":"frz","i":g}));
                } else {
                    sub.op(json!({"o":"build","i":g,"es":es_json(es)}));
                }
                sub.op(json!({"o":"prep","g":g,"i":g,"par":"default"}));
                sub.op(json!({"o":"prep","g":g+1,"i":g,"par":par}));
                sub.op(json!({"o":"prepo","g":g+2,"i":g,"ord":ord,"par":opar}));
                for h in g..g + 3 {
                    sub.op(json!({"o":"dig","g":h}));
                    sub.op(json!({"o":"ord","g":h}));
                    sub.op(json!({"o":"cnt","g":h}));
                    if n > 0 && n <= 10 {
                        sub.op(json!({"o":"fall","g":h}));
                    }
                }
                let _ = t;
                sub.ops
            };
            let a = part(t, &mut s, &es, false);
            s.ops.extend(a);
            t.r.shuffle(&mut es);
            if es.len() < 60 && t.r.chance(50) {
                let a = part(t, &mut s, &es, true);
                s.ops.extend(a);
            }
            let a = part(t, &mut s, &es, false);
            s.ops.extend(a);
            t.r.shuffle(&mut es);
            let a = part(t, &mut s, &es, false);
            s.op(json!({"o":"proc","ops":a}));
            t.push(s);
        });
        // larger graphs, here and in another process
        self.times(4, |t| {
            let enc = Enc::id();
            let mut s = t.script(&enc, "elsewhere");
            let n = 1000 + t.r.below(4000);
            let fam = *t.r.pick(&["road", "grid", "tree", "ladder", "biring"]);
            let wf = *t.r.pick(&["unit", "two", "hundred"]);
            let mut es = graph(&mut t.r, &enc, fam, wf, n);
            let n = node_count(&es);
            let ord = perm(&mut t.r, n.min(1200));
            for i in 0..3i64 {
                let mut sub = Script::new(&s.enc, "x".into());
                sub.op(json!({"o":"build","i":i,"es":es_json(&es)}));
                sub.op(json!({"o":"prep","g":2 * i,"i":i,"par":"default"}));
                sub.op(json!({"o":"dig","g":2 * i}));
                if ord.len() == n {
                    sub.op(json!({"o":"prepo","g":2 * i + 1,"i":i,"ord":ord,"par":"default"}));
                    sub.op(json!({"o":"dig","g":2 * i + 1}));
                }
                if i == 1 {
                    s.op(json!({"o":"proc","ops":sub.ops}));
                } else {
                    s.ops.extend(sub.ops);
                }
                t.r.shuffle(&mut es);
            }
            t.push(s);
        });
        // the same query many times on fresh calculators
        self.times(20, |t| {
            let enc = Enc::id();
            let mut s = t.script(&enc, "requery");
            let n = 4 + t.r.below(7);
            let fam = *t.r.pick(&FAMS);
            let es = graph(&mut t.r, &enc, fam, "unit", n);
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            for g in 0..4 {
                s.op(json!({"o":"prep","g":g,"i":0,"par":"default"}));
                s.op(json!({"o":"fall","g":g}));
                s.op(json!({"o":"fall","g":g}));
                s.op(json!({"o":"dig","g":g}));
            }
            t.push(s);
        });
    }

    fn c14(&mut self) {
        self.wide("any", &["prepr", "c32"], 1, 6000);
        self.giant(&["prepr", "c32", "bin"], 0);
        self.sizes(&["prepr", "c32", "bin"], 0);
        self.times(170, |t| {
            let enc = any_enc(&mut t.r);
            let mut s = t.script(&enc, "export");
            let n = match t.r.below(8) {
                0 => 60 + t.r.below(150),
                1 => 13 + t.r.below(20),
                _ => 1 + t.r.below(10),
            };
            let es = if t.r.chance(4) { vec![] } else { any_graph(&mut t.r, &enc, n) };
            let n = node_count(&es);
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            t.prep_any(&mut s, 0, 0, &es);
            s.op(json!({"o":"ord","g":0}));
            let mut g = 0;
            for _ in 0..3 {
                let h = g + 1;
                match t.r.below(4) {
                    0 => s.op(json!({"o":"gcopy","g":g,"h":h,"via":*t.r.pick(&["bin","json","clone"])})),
                    1 => s.op(json!({"o":"c32","g":g,"h":h,"via":*t.r.pick(&["direct","helper","json"])})),
                    2 => {
                        // another graph with the same number of nodes
                        let mut es2 = any_graph(&mut t.r, &enc, n.max(2));
                        es2.retain(|e| e.0 < n && e.1 < n);
                        if n >= 2 {
                            es2.push((0, n - 1, 3));
                        }
                        s.op(json!({"o":"build","i":h,"es":es_json(&es2)}));
                        s.op(json!({"o":"prepr","g":h,"i":h,"from":g,"par":any_order_param(&mut t.r)}))
                    }
                    _ => s.op(json!({"o":"prepr","g":h,"i":0,"from":g,"par":any_order_param(&mut t.r)})),
                };
                s.op(json!({"o":"ord","g":h,"need":h,"via":"fn"}));
                if n > 0 && n <= 12 {
                    s.op(json!({"o":"fall","g":h,"need":h}));
                } else if n > 0 {
                    s.op(json!({"o":"row","c":-1,"g":h,"s":t.r.below(n),"need":h}));
                }
                if s.ops.iter().any(|o| o["o"] == "c32" && o["h"] == h) && enc.name != "id" {
                    break;
                }
                g = h;
            }
            t.push(s);
        });
    }

    fn c15(&mut self) {
        let mk = |t: &mut Suite, n: usize, part: &str| {
            let enc = match t.r.below(6) {
                0 => Enc::k("k24", 1 << 20),
                _ => Enc::id(),
            };
            let fam = *t.r.pick(&FAMS);
            let wf = *t.r.pick(&WFAMS);
            let es = graph(&mut t.r, &enc, fam, wf, n);
            let mut s = t.script(&enc, part);
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            t.prep_any(&mut s, 0, 0, &es);
            s.op(json!({"o":"hier","g":0}));
            t.push(s);
        };
        for es in [vec![], vec![(0, 1, 1)], vec![(5, 2, 9)]] {
            let mut s = self.script(&Enc::id(), "trivial");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"hier","g":0}));
            self.push(s);
        }
        self.times(330, |t| {
            let n = 2 + t.r.below(9);
            mk(t, n, "small");
        });
        self.times(60, |t| {
            let n = 11 + t.r.below(15);
            mk(t, n, "medium");
        });
        self.times(8, |t| {
            let n = 26 + t.r.below(14);
            mk(t, n, "large");
        });
        self.times(10, |t| {
            let n = 41 + t.r.below(40);
            mk(t, n, "larger");
        });
        // too large for poor orders and limits
        self.times(8, |t| {
            let enc = Enc::id();
            let n = 100 + t.r.below(500);
            let fam = *t.r.pick(&["er", "grid", "road", "clusters", "hubs", "tree", "biring", "star", "wheel", "ladder"]);
            let wf = *t.r.pick(&WFAMS);
            let mut es = graph(&mut t.r, &enc, fam, wf, n);
            if t.r.chance(30) {
                let top = n + t.r.below(300);
                spread(&mut t.r, &mut es, n, top);
            }
            let mut s = t.script(&enc, "big");
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            if t.r.chance(50) {
                s.op(json!({"o":"prepr","g":1,"i":0,"from":0,"par":"default"}));
                s.op(json!({"o":"hier","g":1}));
            } else {
                s.op(json!({"o":"hier","g":0}));
            }
            t.push(s);
        });
        self.crowded(8, "any", true);
        self.funnels(&[60, 120, 250, 400], "order", true);
        self.periods(&[], true);
    }

    fn c16(&mut self) {
        self.wide("any", &[], 10, 6000);
        let enc = Enc::max64();
        self.times(260, |t| {
            let enc = Enc::max64();
            let n = 2 + t.r.below(9);
            let es = any_graph(&mut t.r, &enc, n);
            t.answers(&enc, es, 3, "any", "small");
        });
        self.times(70, |t| {
            let enc = Enc::max64();
            let n = 11 + t.r.below(29);
            let es = any_graph(&mut t.r, &enc, n);
            t.answers(&enc, es, 6, "any", "medium");
        });
        self.times(8, |t| {
            let enc = Enc::max64();
            let n = 60 + t.r.below(90);
            let es = any_graph(&mut t.r, &enc, n);
            t.answers(&enc, es, 3, "any", "large");
        });
        self.times(140, |t| {
            let enc = Enc::max64();
            t.multi_script(&enc, "any");
        });
        // sums exactly at the boundary, in every order of contraction
        let wm = enc.wm;
        for d in -2i64..=2 {
            for es in [
                vec![(0, 1, 7 * U), (1, 2, wm - 7 * U + d), (0, 2, wm)],
                vec![(0, 1, wm - 1), (1, 2, std::cmp::max(1, 1 + d)), (2, 3, 4)],
                vec![(0, 1, 5 * U), (1, 2, 5 * U), (2, 3, 5 * U + d), (3, 0, 5 * U - d)],
                vec![(0, 1, 8 * U), (1, 2, 8 * U + d), (0, 2, 14 * U), (2, 0, 1)],
                vec![(0, 1, wm), (1, 2, 1), (2, 1, wm - 1), (0, 2, 3)],
            ] {
                let n = node_count(&es);
                for p in permutations(n) {
                    let mut s = self.script(&enc, "boundary");
                    s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
                    s.op(json!({"o":"prepo","g":0,"i":0,"ord":p,"par":if d % 2 == 0 {"default"} else {"0"}}));
                    s.op(json!({"o":"fall","g":0}));
                    for _ in 0..4 {
                        let a = multi_entries(&mut self.r, &enc, n, "big");
                        let b = multi_entries(&mut self.r, &enc, n, "hundred");
                        s.op(json!({"o":"mq","c":-1,"g":0,"S":a,"T":b}));
                    }
                    self.push(s);
                }
            }
        }
    }

    fn c17(&mut self) {
        self.times(70, |t| {
            let enc = any_enc(&mut t.r);
            let mut s = t.script(&enc, "threads");
            let n = match t.r.below(6) {
                0 => 100 + t.r.below(100),
                1 => 15 + t.r.below(20),
                _ => 3 + t.r.below(8),
            };
            let mut es = any_graph(&mut t.r, &enc, n);
            es.push((n - 1, 0, 3));
            let mut es2 = any_graph(&mut t.r, &enc, n);
            es2.push((0, n - 1, 3));
            let wf = "ten";
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"build","i":1,"es":es_json(&es2)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"prep","g":1,"i":1,"par":"default"}));
            s.op(json!({"o":"dig","g":0}));
            s.op(json!({"o":"dig","g":1}));
            // witness searches that end at their limit
            let starved = format!("0.1,1,{},{},{}", t.r.below(12), t.r.below(12), t.r.below(16));
            s.op(json!({"o":"prep","g":2,"i":0,"par":starved}));
            s.op(json!({"o":"dig","g":2}));
            if n <= 10 {
                s.op(json!({"o":"fall","g":0}));
                s.op(json!({"o":"fall","g":1}));
            }
            let nth = 2 + t.r.below(7);
            let mut th = vec![];
            for k in 1..=nth as i64 {
                let mut ops = vec![];
                let c = 10 * k;
                ops.push(json!({"o":"cal","c":c,"n":n}));
                ops.push(json!({"o":"cal","c":c+1,"n":n}));
                for _ in 0..25 {
                    let g = t.r.below(2) as i64;
                    let cc = c + t.r.below(2) as i64;
                    match t.r.below(10) {
                        0 => {
                            let h = 100 * k + t.r.below(50) as i64;
                            let par = if t.r.chance(50) { "default" } else { starved.as_str() };
                            ops.push(json!({"o":"prep","g":h,"i":g,"par":par}));
                            ops.push(json!({"o":"dig","g":h}));
                            if n <= 10 {
                                ops.push(json!({"o":"fall","g":h}));
                            }
                        }
                        1 => {
                            let h = 100 * k + t.r.below(50) as i64;
                            let e = if g == 0 { &es } else { &es2 };
                            let o = any_order(&mut t.r, e, n);
                            ops.push(json!({"o":"prepo","g":h,"i":g,"ord":o,"par":"default"}));
                            ops.push(json!({"o":"ord","g":h}));
                            if n <= 10 {
                                ops.push(json!({"o":"all","c":cc,"g":h}));
                            }
                        }
                        2 if n <= 10 => ops.push(json!({"o":"fall","g":g})),
                        3 if n <= 10 => ops.push(json!({"o":"all","c":cc,"g":g})),
                        4 | 5 if n <= 40 => ops.push(json!({"o":"mq","c":cc,"g":g,
                            "S":multi_entries(&mut t.r, &enc, n, wf),"T":multi_entries(&mut t.r, &enc, n, wf)})),
                        6 if n <= 40 => ops.push(json!({"o":"rep","c":cc,"g":g,"S":[[t.r.below(n),0]],"T":[[t.r.below(n),0]],"times":200})),
                        7 => {
                            let cc = if t.r.chance(40) { -1 } else { cc };
                            ops.push(match t.r.below(4) {
                                0 => json!({"o":"q","c":cc,"g":g,"s":n,"t":0}),
                                1 => json!({"o":"q","c":cc,"g":g,"s":0,"t":n + 1}),
                                2 => json!({"o":"mq","c":cc,"g":g,"S":[],"T":[[0,0]]}),
                                _ => json!({"o":"mq","c":cc,"g":g,"S":[[0,1],[n,0]],"T":[[0,0]]}),
                            })
                        }
                        8 if n <= 40 => ops.push(json!({"o":"q","c":-1,"g":g,"s":t.r.below(n),"t":t.r.below(n)})),
                        _ if n <= 40 => ops.push(json!({"o":"q","c":cc,"g":g,"s":t.r.below(n),"t":t.r.below(n)})),
                        _ => {
                            if t.r.chance(15) {
                                ops.push(json!({"o":"row","c":cc,"g":g,"s":t.r.below(n)}))
                            }
                        }
                    }
                }
                th.push(Value::Array(ops));
            }
            s.op(json!({"o":"par","th":th}));
            s.op(json!({"o":"dig","g":0}));
            s.op(json!({"o":"dig","g":1}));
            t.push(s);
        });
        // very short one-shot queries with and without answers at the same time
        self.times(6, |t| {
            let enc = Enc::id();
            let mut s = t.script(&enc, "oneshot");
            let es: Vec<E3> = vec![(0, 1, 1 + t.r.range(0, 5)), (2, 3, 2), (3, 2, 4)];
            let mut es2 = es.clone();
            es2[0].2 += 7;
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"build","i":1,"es":es_json(&es2)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"prep","g":1,"i":1,"par":"default"}));
            let mut th = vec![];
            for k in 0..8usize {
                let mut ops = vec![];
                for j in 0..6 {
                    // half of the threads stay with one query
                    let (a, b) = match k {
                        0 => (0, 3),
                        1 => (2, 1),
                        2 => (0, 1),
                        3 => (2, 3),
                        _ => (t.r.below(4), t.r.below(4)),
                    };
                    let (g, multi) = (if k < 6 { 0 } else { t.r.below(2) }, j % 3 == 2);
                    ops.push(json!({"o":"rep","c":-1,"g":g,"S":[[a,0]],"T":[[b,0]],"times":20000,"multi":multi}));
                }
                th.push(Value::Array(ops));
            }
            s.op(json!({"o":"par","th":th}));
            s.op(json!({"o":"fall","g":0}));
            t.push(s);
        });
        // very many threads, later ones with the calculators of earlier ones
        self.times(4, |t| {
            let enc = Enc::id();
            let mut s = t.script(&enc, "many");
            let n = 5 + t.r.below(12);
            let mut es = graph(&mut t.r, &enc, "er3", "hundred", n);
            es.push((n - 1, 0, 3));
            let mut es2 = graph(&mut t.r, &enc, "er", "hundred", n);
            es2.push((n - 1, 0, 30));
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"build","i":1,"es":es_json(&es2)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"prep","g":1,"i":1,"par":"default"}));
            s.op(json!({"o":"dig","g":0}));
            let most = *t.r.pick(&[20, 40, 70, 140]);
            for k in 0..most as i64 {
                s.op(json!({"o":"cal","c":k,"n":n}));
            }
            for _ in 0..3 {
                let mut own: Vec<usize> = (0..most).collect();
                t.r.shuffle(&mut own);
                let mut th = vec![];
                for k in 0..most / 2 + t.r.below(most / 2 + 1) {
                    let mut ops = vec![];
                    for _ in 0..8 {
                        let c = if t.r.chance(70) { own[k] as i64 } else { -1 };
                        let g = t.r.below(2);
                        let multi = t.r.chance(20);
                        ops.push(match t.r.below(12) {
                            0 => json!({"o":"q","c":c,"g":g,"s":n,"t":0}),
                            1 => json!({"o":"all","c":c,"g":g}),
                            2..=4 => json!({"o":"rep","c":c,"g":g,"S":[[t.r.below(n),0]],"T":[[t.r.below(n),0]],"times":300,"multi":multi}),
                            5 => json!({"o":"prep","g":1000 + k,"i":g,"par":"default"}),
                            6 => json!({"o":"mq","c":c,"g":g,
                                "S":multi_entries(&mut t.r, &enc, n, "ten"),"T":multi_entries(&mut t.r, &enc, n, "ten")}),
                            _ => json!({"o":"q","c":c,"g":g,"s":t.r.below(n),"t":t.r.below(n)}),
                        });
                    }
                    th.push(Value::Array(ops));
                }
                s.op(json!({"o":"par","th":th}));
            }
            s.op(json!({"o":"dig","g":0}));
            t.push(s);
        });
        // larger graphs
        self.times(3, |t| {
            let enc = Enc::id();
            let mut s = t.script(&enc, "core");
            let n = 400 + t.r.below(1200);
            let fam = *t.r.pick(&["er", "road", "grid", "clusters", "biring"]);
            let mut es = graph(&mut t.r, &enc, fam, "hundred", n);
            es.push((n - 1, 0, 3));
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            s.op(json!({"o":"dig","g":0}));
            let src: Vec<usize> = (0..3).map(|_| t.r.below(n)).collect();
            for x in &src {
                s.op(json!({"o":"drow","c":-1,"g":0,"s":x}));
            }
            let mut th = vec![];
            for k in 1..=8 {
                let mut ops = vec![json!({"o":"cal","c":k,"n":n})];
                for j in 0..12 {
                    let (a, b) = (*t.r.pick(&src), t.r.below(n));
                    ops.push(match (k, j) {
                        (1 | 2, 2) => json!({"o":"prep","g":10 + k,"i":0,"par":"default"}),
                        (1 | 2, 7) => json!({"o":"dig","g":10 + k}),
                        (_, 3) if k > 5 => json!({"o":"drow","c":k,"g":0,"s":a}),
                        _ => json!({"o":"rep","c":k,"g":0,"S":[[a,0]],"T":[[b,0]],"times":20}),
                    });
                }
                th.push(Value::Array(ops));
            }
            s.op(json!({"o":"par","th":th}));
            s.op(json!({"o":"drow","c":-1,"g":0,"s":src[0]}));
            s.op(json!({"o":"dig","g":0}));
            t.push(s);
        });
        // hammering one graph
        self.times(12, |t| {
            let enc = Enc::id();
            let mut s = t.script(&enc, "hammer");
            let n = 20 + t.r.below(20);
            let mut es = graph(&mut t.r, &enc, "er3", "hundred", n);
            es.push((n - 1, 0, 3));
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            s.op(json!({"o":"prep","g":0,"i":0,"par":"default"}));
            let mut th = vec![];
            for k in 1..=8 {
                let mut ops = vec![json!({"o":"cal","c":k,"n":n})];
                for _ in 0..40 {
                    let c = if t.r.chance(70) { k } else { -1 };
                    ops.push(json!({"o":"rep","c":c,"g":0,"S":[[t.r.below(n),0]],"T":[[t.r.below(n),t.r.range(0,1)]],"times":100}));
                }
                th.push(Value::Array(ops));
            }
            s.op(json!({"o":"par","th":th}));
            t.push(s);
        });
    }

    fn c18(&mut self) {
        self.wide("any", &[], 2, 100_000);
        // nodes without any edges
        self.times(20, |t| {
            let enc = if t.r.chance(15) { Enc::max64() } else { any_enc(&mut t.r) };
            let mut s = t.script(&enc, "blank");
            let n = t.r.below(7);
            s.op(json!({"o":"blank","g":0,"n":n}));
            s.op(json!({"o":"gcopy","g":0,"h":1,"via":*t.r.pick(&["bin", "json", "clone"])}));
            s.op(json!({"o":"cal","c":0,"g":0}));
            for g in 0..2 {
                s.op(json!({"o":"cnt","g":g}));
                for c in [-1, 0] {
                    if n > 0 {
                        s.op(json!({"o":"all","c":c,"g":g}));
                    }
                    for _ in 0..6 {
                        let (a, b) = (t.r.below(n + 2), t.r.below(n + 2));
                        s.op(json!({"o":"q","c":c,"g":g,"s":a,"t":b}));
                    }
                    for _ in 0..6 {
                        let mut f = |r: &mut Rng| -> Value {
                            let k = r.below(4);
                            (0..k).map(|_| json!([if r.chance(10) { n } else { r.below(n.max(1)) }, if r.chance(25) { enc.wm } else { r.range(0, 9) }])).collect()
                        };
                        let (a, b) = (f(&mut t.r), f(&mut t.r));
                        s.op(json!({"o":"mq","c":c,"g":g,"S":a,"T":b}));
                    }
                }
            }
            t.push(s);
        });
        self.times(260, |t| {
            let enc = if t.r.chance(15) { Enc::max64() } else { any_enc(&mut t.r) };
            let mut s = t.script(&enc, "validity");
            let n0 = t.r.below(10);
            let es = if n0 == 0 || t.r.chance(5) { vec![] } else { any_graph(&mut t.r, &enc, n0.max(1)) };
            let n = node_count(&es);
            s.op(json!({"o":"build","i":0,"es":es_json(&es)}));
            t.prep_any(&mut s, 0, 0, &es);
            s.op(json!({"o":"cal","c":0,"g":0}));
            let m = std::cmp::max(0, n as i64 + t.r.range(-1, 1));
            s.op(json!({"o":"cal","c":1,"n":m}));
            s.op(json!({"o":"cal","c":2,"n":0}));
            s.op(json!({"o":"cal","c":3,"n":n + 1000}));
            let node = |r: &mut Rng| -> i64 {
                match r.below(13) {
                    0 => n as i64,
                    1 => n as i64 + 1,
                    2 => -1,
                    3 => 2_000_000_000,
                    4 => *r.pick(&[-1000, -2000, -3000, -4001]) - r.below(n + 1) as i64,
                    _ => {
                        if n == 0 {
                            0
                        } else {
                            r.below(n) as i64
                        }
                    }
                }
            };
            for _ in 0..24 {
                let c = *t.r.pick(&[-1, 0, 0, 0, 0, 1, 2, 3]);
                if t.r.chance(50) {
                    let (mut a, mut b) = (node(&mut t.r), node(&mut t.r));
                    if t.r.chance(15) {
                        // the same invalid node twice
                        if t.r.chance(50) {
                            a = b
                        } else {
                            b = a
                        }
                    }
                    s.op(json!({"o":"q","c":c,"g":0,"s":a,"t":b}));
                } else {
                    let mut f = |r: &mut Rng| -> Value {
                        let k = r.below(5);
                        Value::Array(
                            (0..k)
                                .map(|_| {
                                    let x = if r.chance(15) { node(r) } else if n == 0 { 0 } else { r.below(n) as i64 };
                                    let w = if r.chance(25) { enc.wm } else { r.range(0, 9) };
                                    json!([x, w])
                                })
                                .collect(),
                        )
                    };
                    let (a, b) = (f(&mut t.r), f(&mut t.r));
                    s.op(json!({"o":"mq","c":c,"g":0,"S":a,"T":b}));
                }
            }
            if n > 0 {
                s.op(json!({"o":"all","c":0,"g":0}));
            }
            t.push(s);
        });
    }

    fn long(&mut self, shape: &str, n: usize, c: usize, order: &str, par: &str, nq: usize) {
        let enc = Enc::id();
        let mut s = self.script(&enc, "long");
        let r = &mut self.r;
        let w1 = r.range(1, 900_000_000 / (n as i64 * 2)).min(9);
        let w2 = r.range(1, 900_000_000 / (n as i64 * 2)).min(9);
        let mut qs = vec![json!([0, n - 1]), json!([n - 1, 0]), json!([n / 2, n / 2]), json!([0, n / 2]), json!([n / 2, 0])];
        for _ in 0..nq {
            qs.push(json!([r.below(n), r.below(n)]));
        }
        s.op(json!({"o":"long","shape":shape,"n":n,"c":c,"w1":w1,"w2":w2,"order":order,"par":par,"qs":qs}));
        self.push(s);
    }

    fn c19(&mut self) {
        let sizes: &[usize] = if self.thorough { &[2, 3, 10, 1000, 30_000, 200_000, 1_000_000] } else { &[3, 10, 1000, 150_000] };
        for n in sizes {
            for shape in ["chain", "dchain", "ring", "dring"] {
                for order in ["zigl", "zigr", "id", "rev", "mid", "evenodd", "thirds", "blocks"] {
                    if *n >= 100_000 && shape.ends_with("ring") && !["zigl", "zigr", "mid"].contains(&order) {
                        continue;
                    }
                    self.long(shape, *n, *n, order, "default", 6);
                }
            }
            if *n <= 200_000 {
                let seed = self.r.below(1000);
                self.long("chain", *n, *n, &format!("rnd{}", seed), "default", 6);
                self.long("ring", *n, *n, &format!("rnd{}", seed + 1), "default", 6);
            }
        }
        for n in [127usize, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32_768, 65_535, 65_536, 65_537, 65_538] {
            let shape = *self.r.pick(&["chain", "ring"]);
            for order in ["zigl", "zigr", "evenodd"] {
                self.long(shape, n, n, order, "default", 6);
            }
        }
        for n in [1000, 30_000] {
            for shape in ["chain", "dchain", "ring", "dring"] {
                self.long(shape, n, n, "default", "default", 6);
            }
            self.long("chain", n, n, "zigl", "0", 6);
            self.long("dring", n, n, "zigr", "1", 6);
        }
        // deep hierarchies that the parameters ask for
        for (shape, n) in [("chain", 1000), ("dchain", 5000), ("ring", 70_000), ("chain", 150_000), ("dchain", 140_000)] {
            for par in ["-1,0,100,100,100", "0,1,100,100,100", "-1e-3,1,0,0,0", "0,0,1,1,1"] {
                self.long(shape, n, n, "default", par, 6);
            }
        }
        self.long("chain", 1_000_000, 1_000_000, "zigl", "default", 3);
        self.long("dring", 700_000, 700_000, "zigr", "default", 3);
        for (n, c) in [(400, 20), (900, 30), (1200, 3), (2000, 2)] {
            for order in ["default", "id", "rnd5", "evenodd", "mid"] {
                self.long("grid", n, c, order, "default", 12);
            }
        }
        self.long("grid", 10_000, 100, "default", "default", 20);
        // dense nests of shortcuts, checked in full
        self.times(20, |t| {
            let enc = Enc::id();
            let n = 100 + t.r.below(200);
            let fam = *t.r.pick(&["star", "wheel", "chain", "biring", "ladder", "tree", "hubs"]);
            let wf = *t.r.pick(&["unit", "ten"]);
            let es = graph(&mut t.r, &enc, fam, wf, n);
            t.answers(&enc, es, 2, "order", "nest");
        });
    }
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(cur, n, out);
                cur.pop();
            }
        }
    }
    rec(&mut vec![], n, &mut out);
    out
}

pub fn suite(name: &str, seed: u64, thorough: bool) -> Vec<Value> {
    let salt = name.bytes().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
    let scale = std::env::var("FPV_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut s = Suite { r: Rng::new(seed.wrapping_mul(1000003) ^ salt), out: vec![], name: name.into(), scale, thorough };
    match name {
        "C01" => s.c01(),
        "C02" => s.c02(),
        "C03" => s.c03(),
        "C04" => s.c04(),
        "C05" => s.c05(),
        "C06" => s.c06(),
        "C07" => s.c07(),
        "C08" => s.c08(),
        "C09" => s.c09(),
        "C10" => s.c10(),
        "C11" => s.c11(),
        "C12" => s.c12(),
        "C13" => s.c13(),
        "C14" => s.c14(),
        "C15" => s.c15(),
        "C16" => s.c16(),
        "C17" => s.c17(),
        "C18" => s.c18(),
        "C19" => s.c19(),
        x => panic!("no suite {}", x),
    }
    s.out
}

/// a claim, which the specification verifies before it relies on it
fn distances(es: &[E3], n: usize, s: usize, wm: i64) -> Vec<i64> {
    let mut adj = vec![vec![]; n];
    for (a, b, w) in es {
        adj[*a].push((*b, *w));
    }
    let mut d = vec![wm; n];
    d[s] = 0;
    let mut open = std::collections::BTreeSet::from([(0, s)]);
    while let Some((w, u)) = open.pop_first() {
        for (v, x) in &adj[u] {
            if w + x < d[*v] {
                open.remove(&(d[*v], *v));
                d[*v] = w + x;
                open.insert((w + x, *v));
            }
        }
    }
    d
}
