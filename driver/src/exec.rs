//! Runs the operations of a script on the real crate and records their responses.
use crate::enc::Enc;
use fast_paths::{FastGraph, InputGraph, Params, ParamsWithOrder, PathCalculator, ShortestPath};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
#[cfg(feature = "conc")]
use std::sync::Arc as Rc;
#[cfg(not(feature = "conc"))]
use std::rc::Rc;

pub struct World {
    pub enc: Enc,
    /// encoding of node ids (input graphs and files only), if they are not written as they are
    pub nenc: Option<Enc>,
    ig: HashMap<i64, InputGraph>,
    fg: HashMap<i64, Rc<FastGraph>>,
    calc: HashMap<i64, PathCalculator>,
    dir: PathBuf,
}

#[derive(Serialize, Deserialize)]
struct Outer {
    a: u32,
    #[serde(serialize_with = "fast_paths::serialize_32", deserialize_with = "fast_paths::deserialize_32")]
    g: FastGraph,
    b: String,
}

#[derive(Serialize, Deserialize)]
struct OuterPlain {
    a: Vec<u8>,
    g: FastGraph,
    i: Option<InputGraph>,
    b: String,
}

fn int(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("missing {} in {}", k, v))
}
/// a number; negative ones count down from the largest one, strings hold large ones
fn us(v: &Value) -> usize {
    if let Some(s) = v.as_str() {
        return s.parse().unwrap();
    }
    match v.as_u64() {
        Some(x) => x as usize,
        // numbers that look small when only some of their bits are used
        None => match v.as_i64().unwrap_or_else(|| panic!("no number: {}", v)) {
            x if x <= -4000 => ((-3999 - x) as usize) << 32,
            x if x <= -3000 => (1 << 63) + (-3000 - x) as usize,
            x if x <= -2000 => (1 << 31) + (-2000 - x) as usize,
            x if x <= -1000 => (1 << 32) + (-1000 - x) as usize,
            x => x as usize,
        },
    }
}
fn list(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(us).collect()
}
fn ok() -> Value {
    json!({"k": "ok"})
}

fn node_count(es: &[Value]) -> usize {
    es.iter().map(|e| std::cmp::max(us(&e[0]), us(&e[1])) + 1).max().unwrap_or(0)
}

pub fn fnv(bytes: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut g: u64 = 0x9e3779b97f4a7c15;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        g = (g.rotate_left(7) ^ *b as u64).wrapping_mul(0xff51afd7ed558ccd);
    }
    format!("{:016x}{:016x}.{}", h, g, bytes.len())
}

fn parse_params(s: &str) -> Params {
    let p: Vec<&str> = s.split(',').collect();
    let lim = |x: &str| if x == "max" { usize::MAX } else { x.parse().unwrap() };
    let mut q = Params::new(p[0].parse().unwrap(), lim(p[2]), lim(p[3]), lim(p[4]));
    q.edge_quotient_factor = p[1].parse().unwrap();
    q
}

impl World {
    pub fn new(enc: Enc, dir: PathBuf) -> World {
        World { enc, nenc: None, ig: HashMap::new(), fg: HashMap::new(), calc: HashMap::new(), dir }
    }

    fn wt(&self, v: &Value) -> usize {
        self.enc.enc(v.as_i64().unwrap())
    }

    /// a node id
    fn nid(&self, v: &Value) -> usize {
        match &self.nenc {
            Some(e) => e.enc(v.as_i64().unwrap()),
            None => us(v),
        }
    }

    fn dnid(&self, n: usize) -> Value {
        match &self.nenc {
            Some(e) => json!(e.dec(n)),
            None => json!(n),
        }
    }

    fn ends(&self, v: &Value) -> Vec<(usize, usize)> {
        v.as_array().unwrap().iter().map(|x| (us(&x[0]), self.wt(&x[1]))).collect()
    }

    fn path(&self, p: Option<ShortestPath>) -> Value {
        match p {
            None => json!({"k": "none"}),
            Some(p) => json!({"k": "path", "w": self.enc.dec(p.get_weight()),
                "s": p.get_source(), "t": p.get_target(), "p": p.get_nodes()}),
        }
    }

    fn file(&self, v: &Value) -> String {
        let name = v["file"].as_str().unwrap();
        match name {
            "nodir" => self.dir.join("missing").join("f").to_str().unwrap().to_string(),
            // relative to the working directory, which is the same one
            _ if name.starts_with("rel:") => name[4..].to_string(),
            _ => self.dir.join(name).to_str().unwrap().to_string(),
        }
    }

    fn render(&self, l: &Value) -> String {
        if let Some(t) = l["txt"].as_str() {
            return t.to_string();
        }
        // numbers may be set apart in several ways
        let sep = match l["sp"].as_i64().unwrap_or(0) {
            1 => "  ",
            2 => "\t",
            3 => " \t ",
            _ => " ",
        };
        let (zero, end) = match l["sp"].as_i64().unwrap_or(0) {
            4 => ("0", ""),
            5 => ("", " "),
            1 => ("", "\t"),
            _ => ("", ""),
        };
        match l["k"].as_str().unwrap() {
            // lines of any length
            "arc" if l["pad"].is_i64() => {
                let (f, t, w) = (self.nid(&l["f"]), self.nid(&l["t"]), self.wt(&l["w"]));
                let long = |s: &str| s.repeat(int(l, "pad") as usize);
                match l["fill"].as_i64() {
                    Some(0) => format!("a {f} {t} {}{w}", long(" ")),
                    Some(1) => format!("a {f} {t} {}{w}", long("0")),
                    Some(2) => format!("a {}{f} {t} {w}", long("0")),
                    Some(3) => format!("a {f}{} {t} {w}", long("\t")),
                    _ => format!("a {f} {t} {w}{}", long(" ")),
                }
            }
            "hdr" if l["pad"].is_i64() => {
                format!("p sp {} {}{}", self.nid(&l["n"]), "0".repeat(int(l, "pad") as usize), int(l, "m"))
            }
            "cmt" if l["pad"].is_i64() => format!("c{}a 1 2 3", " ".repeat(int(l, "pad") as usize)),
            "junk" if l["pad"].is_i64() => format!("{}a 1 2 3", "x".repeat(int(l, "pad") as usize)),
            "badarc" if l["pad"].is_i64() => format!("a 1 2 3{}x", " ".repeat(int(l, "pad") as usize)),
            "arc" if l["sp"].is_i64() => {
                let (f, t, w) = (self.nid(&l["f"]), self.nid(&l["t"]), self.wt(&l["w"]));
                format!("a {zero}{f}{sep}{zero}{t}{sep}{zero}{w}{end}")
            }
            "hdr" if l["sp"].is_i64() => {
                let (n, m) = (self.nid(&l["n"]), int(l, "m"));
                format!("p sp {zero}{n}{sep}{zero}{m}{end}")
            }
            "arc" => format!("a {} {} {}", self.nid(&l["f"]), self.nid(&l["t"]), self.wt(&l["w"])),
            "hdr" => format!("p sp {} {}", self.nid(&l["n"]), int(l, "m")),
            "cmt" => "c a comment".to_string(),
            "empty" => String::new(),
            "badarc" => "a 1 2".to_string(),
            "badhdr" => "p sp 1".to_string(),
            _ => "junk".to_string(),
        }
    }

    fn parse_line(&self, s: &str) -> Value {
        let t: Vec<&str> = s.split(' ').collect();
        let n: Vec<Option<usize>> = t.iter().map(|x| x.parse().ok()).collect();
        if t.len() == 4 && t[0] == "a" {
            if let (Some(f), Some(to), Some(w)) = (n[1], n[2], n[3]) {
                return json!({"k": "arc", "f": self.dnid(f), "t": self.dnid(to), "w": self.enc.dec(w)});
            }
        }
        if t.len() == 4 && t[0] == "p" && t[1] == "sp" {
            if let (Some(a), Some(b)) = (n[2], n[3]) {
                return json!({"k": "hdr", "n": self.dnid(a), "m": b});
            }
        }
        json!({"k": "junk"})
    }

    fn graph_ref<'a>(&'a self, v: &Value, k: &str) -> &'a FastGraph {
        self.fg.get(&int(v, k)).expect("no such prepared graph slot")
    }

    /// one query, on a calculator or with the free functions
    fn query(&mut self, c: i64, g: i64, s: &[(usize, usize)], t: &[(usize, usize)], multi: bool) -> Option<ShortestPath> {
        let fg = self.fg.get(&g).expect("no such prepared graph slot").clone();
        let single = !multi && s.len() == 1 && t.len() == 1 && s[0].1 == 0 && t[0].1 == 0;
        if c < 0 {
            if single {
                fast_paths::calc_path(&fg, s[0].0, t[0].0)
            } else {
                fast_paths::calc_path_multiple_sources_and_targets(&fg, s.to_vec(), t.to_vec())
            }
        } else {
            let calc = self.calc.get_mut(&c).expect("no such calculator slot");
            if single {
                calc.calc_path(&fg, s[0].0, t[0].0)
            } else {
                calc.calc_path_multiple_sources_and_targets(&fg, s.to_vec(), t.to_vec())
            }
        }
    }

    fn row(&mut self, c: i64, g: i64, s: usize, n: usize, ends: &mut bool) -> (Vec<i64>, Vec<Vec<usize>>) {
        let mut d = vec![];
        let mut ps = vec![];
        for t in 0..n {
            match self.query(c, g, &[(s, 0)], &[(t, 0)], false) {
                None => {
                    d.push(self.enc.wm);
                    ps.push(vec![]);
                }
                Some(p) => {
                    let nodes = p.get_nodes().clone();
                    if nodes.first() != Some(&p.get_source()) || nodes.last() != Some(&p.get_target()) {
                        *ends = false;
                    }
                    let w = self.enc.dec(p.get_weight());
                    // a found path of maximum weight is not the same thing as no path
                    d.push(if w >= self.enc.wm { -1 } else { w });
                    ps.push(nodes);
                }
            }
        }
        (d, ps)
    }

    fn matrix(&mut self, c: i64, g: i64) -> Value {
        let n = self.fg[&g].get_num_nodes();
        let mut ends = true;
        let (mut d, mut p) = (vec![], vec![]);
        for s in 0..n {
            let (a, b) = self.row(c, g, s, n, &mut ends);
            d.push(a);
            p.push(b);
        }
        json!({"k": "all", "d": d, "p": p, "ends": ends})
    }

    fn edges_json(&self, g: &InputGraph) -> Value {
        Value::Array(g.get_edges().iter().map(|e| json!([self.dnid(e.from), self.dnid(e.to), self.enc.dec(e.weight)])).collect())
    }

    /// a slot keeps its place in memory when it gets another prepared graph
    fn put(&mut self, g: i64, fg: FastGraph) {
        match self.fg.get_mut(&g).and_then(Rc::get_mut) {
            Some(place) => *place = fg,
            None => {
                self.fg.insert(g, Rc::new(fg));
            }
        }
    }

    fn exec(&mut self, op: &Value) -> Value {
        match op["o"].as_str().unwrap() {
            "new" => {
                let g = if op["via"] == "default" { InputGraph::default() } else { InputGraph::new() };
                self.ig.insert(int(op, "i"), g);
                ok()
            }
            o @ ("add" | "addb") => {
                let (f, t, w) = (self.nid(&op["f"]), self.nid(&op["t"]), self.wt(&op["w"]));
                let g = self.ig.get_mut(&int(op, "i")).unwrap();
                let n = if o == "add" { g.add_edge(f, t, w) } else { g.add_edge_bidir(f, t, w) };
                json!({"k": "ok", "n": n})
            }
            "frz" => {
                self.ig.get_mut(&int(op, "i")).unwrap().freeze();
                ok()
            }
            "thw" => {
                self.ig.get_mut(&int(op, "i")).unwrap().thaw();
                ok()
            }
            "build" => {
                let mut g = InputGraph::new();
                for e in op["es"].as_array().unwrap() {
                    g.add_edge(self.nid(&e[0]), self.nid(&e[1]), self.wt(&e[2]));
                }
                g.freeze();
                self.ig.insert(int(op, "i"), g);
                ok()
            }
            "edges" => {
                let g = &self.ig[&int(op, "i")];
                json!({"k": "ok", "e": self.edges_json(g)})
            }
            "nn" => json!({"k": "ok", "n": self.dnid(self.ig[&int(op, "i")].get_num_nodes())}),
            "ne" => json!({"k": "ok", "n": self.ig[&int(op, "i")].get_num_edges()}),
            "str" => {
                let s = self.ig[&int(op, "i")].unit_test_output_string();
                let mut e = vec![];
                for line in s.lines().filter(|l| !l.trim().is_empty()) {
                    let nums: Vec<usize> = line
                        .split(|c: char| !c.is_ascii_digit())
                        .filter(|x| !x.is_empty())
                        .map(|x| x.parse().unwrap_or(usize::MAX - 7))
                        .collect();
                    e.push(if nums.len() == 3 { json!([self.dnid(nums[0]), self.dnid(nums[1]), self.enc.dec(nums[2])]) } else { json!([-1, -1, -1]) });
                }
                json!({"k": "ok", "e": e})
            }
            "icopy" => {
                let g = &self.ig[&int(op, "i")];
                let h = match op["via"].as_str().unwrap_or("clone") {
                    "bin" => bincode::deserialize(&bincode::serialize(g).unwrap()).unwrap(),
                    "json" => serde_json::from_str(&serde_json::to_string(g).unwrap()).unwrap(),
                    "value" => serde_json::from_value(serde_json::to_value(g).unwrap()).unwrap(),
                    "nested" => {
                        let o = OuterPlain { a: vec![1, 2, 3], g: FastGraph::new(0), i: Some(g.clone()), b: "x".into() };
                        let o: OuterPlain = bincode::deserialize(&bincode::serialize(&o).unwrap()).unwrap();
                        assert!(o.a == vec![1, 2, 3] && o.b == "x");
                        o.i.unwrap()
                    }
                    _ => g.clone(),
                };
                self.ig.insert(int(op, "j"), h);
                ok()
            }
            o @ ("tof" | "tod") => {
                let g = &self.ig[&int(op, "i")];
                // a limit on the size of the file, as a disk would have one
                // ("full" has none; it is a file of the scratch directory all the same, never a device,
                // because the code under test might remove or replace what it is given)
                let lim = if op["file"] == "full" { Some(0) } else { op["lim"].as_u64() };
                let _room = lim.map(crate::room::Room::limit);
                let r = if o == "tof" { g.to_file(&self.file(op)) } else { g.to_dimacs_file(&self.file(op)) };
                match r {
                    Ok(()) => ok(),
                    Err(_) => json!({"k": "err"}),
                }
            }
            o @ ("fromf" | "fromd") => {
                let f = self.file(op);
                let g = if o == "fromf" { InputGraph::from_file(&f) } else { InputGraph::from_dimacs_file(&f) };
                self.ig.insert(int(op, "i"), g);
                ok()
            }
            "putf" => {
                let mut s = String::new();
                let mut room = 0;
                for l in op["ls"].as_array().unwrap() {
                    s.push_str(&self.render(l));
                    if l["room"] == true {
                        room = s.len();
                    }
                    s.push_str(if op["crlf"] == true { "\r\n" } else { "\n" });
                }
                // a comment is made so long that the file has this size
                if let (Some(size), true) = (op["size"].as_u64(), room > 0) {
                    let have = s.len() - if op["nonl"] == true { 1 } else { 0 };
                    s.insert_str(room, &" ".repeat((size as usize).saturating_sub(have)));
                }
                if op["nonl"] == true && s.ends_with('\n') {
                    s.pop();
                }
                std::fs::write(self.file(op), s).expect("scratch file");
                ok()
            }
            "cat" => match std::fs::read_to_string(self.file(op)) {
                Ok(s) => {
                    let ls: Vec<Value> = s.split_terminator('\n').map(|l| self.parse_line(l)).collect();
                    json!({"k": "ok", "ls": ls})
                }
                Err(_) => json!({"k": "err"}),
            },
            "prep" => {
                let g = &self.ig[&int(op, "i")];
                let par = op["par"].as_str().unwrap();
                let fg = match (par, op["via"].as_str().unwrap_or("")) {
                    ("default", "builder") => fast_paths::FastGraphBuilder::build(g),
                    ("default", _) => fast_paths::prepare(g),
                    (p, "builder") => fast_paths::FastGraphBuilder::build_with_params(g, &parse_params(p)),
                    (p, _) => fast_paths::prepare_with_params(g, &parse_params(p)),
                };
                self.put(int(op, "g"), fg);
                ok()
            }
            "prepo" => {
                let g = &self.ig[&int(op, "i")];
                let par = op["par"].as_str().unwrap();
                let ord = list(&op["ord"]);
                let lim = |p: &str| ParamsWithOrder::new(if p == "max" { usize::MAX } else { p.parse().unwrap() });
                let r = match (par, op["via"].as_str().unwrap_or("")) {
                    ("default", "builder") => fast_paths::FastGraphBuilder::build_with_order(g, &ord),
                    ("default", _) => fast_paths::prepare_with_order(g, &ord),
                    (p, "builder") => fast_paths::FastGraphBuilder::build_with_order_with_params(g, &ord, &lim(p)),
                    (p, _) => fast_paths::prepare_with_order_with_params(g, &ord, &lim(p)),
                };
                match r {
                    Ok(fg) => {
                        self.put(int(op, "g"), fg);
                        ok()
                    }
                    Err(_) => json!({"k": "err"}),
                }
            }
            "prepr" => {
                // with the ordering exported from another prepared graph
                let mut o = op.clone();
                o["o"] = json!("prepo");
                self.exec(&o)
            }
            "ord" => {
                let g = self.graph_ref(op, "g");
                let o = if op["via"] == "fn" { fast_paths::get_node_ordering(g) } else { g.get_node_ordering() };
                json!({"k": "ok", "o": o})
            }
            "cnt" => {
                let g = self.graph_ref(op, "g");
                json!({"k": "ok", "n": g.get_num_nodes(), "c": [g.get_num_out_edges(), g.get_num_in_edges()]})
            }
            "dig" => {
                let b = bincode::serialize(self.graph_ref(op, "g")).unwrap();
                json!({"k": "ok", "d": fnv(&b)})
            }
            "drop" => {
                self.fg.remove(&int(op, "g")).expect("no such prepared graph slot");
                ok()
            }
            "gcopy" => {
                let g = self.graph_ref(op, "g");
                let h = World::copy(g, op["via"].as_str().unwrap_or("clone"), &self.dir).unwrap();
                self.put(int(op, "h"), h);
                ok()
            }
            "c32" => {
                let g = self.graph_ref(op, "g");
                let via = match op["via"].as_str().unwrap_or("direct") {
                    "direct" => "c32",
                    "bin" => "c32bin",
                    "json" => "c32json",
                    x => x,
                };
                let h = match World::copy(g, via, &self.dir) {
                    Ok(h) => h,
                    Err(()) => return json!({"k": "err"}),
                };
                self.put(int(op, "h"), h);
                ok()
            }
            // a prepared graph of nodes only, from the public constructor
            "blank" => {
                self.put(int(op, "g"), FastGraph::new(us(&op["n"])));
                ok()
            }
            "cal" => {
                let c = if let Some(n) = op["n"].as_u64() {
                    PathCalculator::new(n as usize)
                } else {
                    fast_paths::create_calculator(self.graph_ref(op, "g"))
                };
                self.calc.insert(int(op, "c"), c);
                ok()
            }
            "q" => {
                let (c, g) = (int(op, "c"), int(op, "g"));
                let r = self.query(c, g, &[(us(&op["s"]), 0)], &[(us(&op["t"]), 0)], false);
                self.path(r)
            }
            "mq" => {
                let (c, g) = (int(op, "c"), int(op, "g"));
                let (s, t) = (self.ends(&op["S"]), self.ends(&op["T"]));
                let r = self.query(c, g, &s, &t, true);
                self.path(r)
            }
            "rep" => {
                let (c, g) = (int(op, "c"), int(op, "g"));
                let (s, t) = (self.ends(&op["S"]), self.ends(&op["T"]));
                let mut rs: Vec<Value> = vec![];
                let mut seen: Vec<(usize, Vec<usize>)> = vec![];
                let mut none = false;
                for _ in 0..int(op, "times") {
                    match self.query(c, g, &s, &t, op["multi"] == true) {
                        None => {
                            if !none {
                                none = true;
                                rs.push(self.path(None));
                            }
                        }
                        Some(p) => {
                            if !seen.iter().any(|x| x.0 == p.get_weight() && &x.1 == p.get_nodes()) {
                                seen.push((p.get_weight(), p.get_nodes().clone()));
                                rs.push(self.path(Some(p)));
                            }
                        }
                    }
                }
                json!({"k": "ok", "rs": rs})
            }
            "row" => {
                let (c, g, s) = (int(op, "c"), int(op, "g"), us(&op["s"]));
                let n = self.fg[&g].get_num_nodes();
                let mut ends = true;
                let (d, p) = self.row(c, g, s, n, &mut ends);
                json!({"k": "row", "d": d, "p": p, "ends": ends})
            }
            "drow" => {
                let (c, g, s) = (int(op, "c"), int(op, "g"), us(&op["s"]));
                let n = self.fg[&g].get_num_nodes();
                let mut d = Vec::with_capacity(n);
                for t in 0..n {
                    d.push(match self.query(c, g, &[(s, 0)], &[(t, 0)], false) {
                        None => self.enc.wm,
                        Some(p) => match self.enc.dec(p.get_weight()) {
                            w if w >= self.enc.wm || p.get_source() != s || p.get_target() != t => -1,
                            w => w,
                        },
                    });
                }
                json!({"k": "row", "d": d})
            }
            "all" => self.matrix(int(op, "c"), int(op, "g")),
            "fall" => self.matrix(-1, int(op, "g")),
            "ep" => {
                #[cfg(fast_paths_verif)]
                self.calc.get_mut(&int(op, "c")).unwrap().verif_set_epoch(us(&op["e"]) as u32);
                ok()
            }
            #[cfg(feature = "hier")]
            "hier" => crate::hier::dump(self.graph_ref(op, "g"), &self.enc),
            // only the specification has something to do
            "base" => ok(),
            "one" => self.episode(op),
            "long" => crate::long::run(op, &self.enc),
            x => panic!("unknown op {}", x),
        }
    }

    fn copy(g: &FastGraph, via: &str, dir: &std::path::Path) -> Result<FastGraph, ()> {
        Ok(match via {
            "bin" => bincode::deserialize(&bincode::serialize(g).unwrap()).unwrap(),
            "json" => serde_json::from_str(&serde_json::to_string(g).unwrap()).unwrap(),
            "value" => serde_json::from_value(serde_json::to_value(g).unwrap()).unwrap(),
            "file" => {
                let f = dir.join("stored.fp");
                bincode::serialize_into(std::fs::File::create(&f).unwrap(), g).unwrap();
                bincode::deserialize_from(std::fs::File::open(&f).unwrap()).unwrap()
            }
            "nested" => {
                let o = OuterPlain { a: vec![7], g: g.clone(), i: None, b: "yz".into() };
                let o: OuterPlain = bincode::deserialize(&bincode::serialize(&o).unwrap()).unwrap();
                assert!(o.a == vec![7] && o.b == "yz" && o.i.is_none());
                o.g
            }
            "nestedjson" => {
                let o = OuterPlain { a: vec![7], g: g.clone(), i: None, b: "yz".into() };
                let o: OuterPlain = serde_json::from_slice(&serde_json::to_vec(&o).unwrap()).unwrap();
                o.g
            }
            "c32" => fast_paths::FastGraph32::new(g).convert_to_usize(),
            "c32bin" => {
                let x = fast_paths::FastGraph32::new(g);
                let x: fast_paths::FastGraph32 = bincode::deserialize(&bincode::serialize(&x).unwrap()).unwrap();
                x.clone().convert_to_usize()
            }
            "c32json" => {
                let x = fast_paths::FastGraph32::new(g);
                let x: fast_paths::FastGraph32 = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap();
                x.convert_to_usize()
            }
            "helper" => {
                let o = Outer { a: 77, g: g.clone(), b: "after".into() };
                let bytes = bincode::serialize(&o).map_err(|_| ())?;
                let o: Outer = bincode::deserialize(&bytes).unwrap();
                assert!(o.a == 77 && o.b == "after");
                o.g
            }
            "helperjson" => {
                let o = Outer { a: 77, g: g.clone(), b: "after".into() };
                let bytes = serde_json::to_vec(&o).map_err(|_| ())?;
                let o: Outer = serde_json::from_slice(&bytes).unwrap();
                o.g
            }
            "clone" => g.clone(),
            x => panic!("bad via {}", x),
        })
    }

    fn build(&self, es: &Value) -> InputGraph {
        let mut g = InputGraph::new();
        for e in es.as_array().unwrap() {
            g.add_edge(us(&e[0]), us(&e[1]), self.wt(&e[2]));
        }
        g.freeze();
        g
    }

    pub fn prepare(g: &InputGraph, par: &str, ord: Option<&[usize]>) -> Result<FastGraph, ()> {
        match ord {
            None if par == "default" => Ok(fast_paths::prepare(g)),
            None => Ok(fast_paths::prepare_with_params(g, &parse_params(par))),
            Some(o) if par == "default" => fast_paths::prepare_with_order(g, o).map_err(|_| ()),
            Some(o) => {
                let l = ParamsWithOrder::new(if par == "max" { usize::MAX } else { par.parse().unwrap() });
                fast_paths::prepare_with_order_with_params(g, o, &l).map_err(|_| ())
            }
        }
    }

    /// everything about a prepared graph: counts, ordering, bytes, all answers
    fn portrait(&mut self, g: FastGraph, calc: &str, full: bool) -> Value {
        let n = g.get_num_nodes();
        let o = g.get_node_ordering();
        let c = json!([g.get_num_out_edges(), g.get_num_in_edges()]);
        let dig = fnv(&bincode::serialize(&g).unwrap());
        self.put(-7, g);
        let mut ends = true;
        let mut bad = 0;
        let cid = match calc {
            "fresh" => -1,
            // one calculator for all graphs of this size in the script
            "pool" => 1_000_000 + n as i64,
            _ => -7,
        };
        if cid == -7 || (cid > 0 && !self.calc.contains_key(&cid)) {
            let c = fast_paths::create_calculator(self.fg[&-7].as_ref());
            self.calc.insert(cid, c);
        }
        let (mut d, mut p) = (vec![], vec![]);
        for s in 0..n {
            if calc != "one" {
                // invalid queries in between
                for k in 0..2 {
                    let (s, t) = if (s + k) % 2 == 0 { (s, n) } else { (n, s) };
                    let multi = s % 3 == 0;
                    let (src, tgt) = if multi { (vec![(0, 0), (s, 0)], vec![(0, 0), (t, 0)]) } else { (vec![(s, 0)], vec![(t, 0)]) };
                    if catch_unwind(AssertUnwindSafe(|| self.query(cid, -7, &src, &tgt, multi))).is_ok() {
                        bad += 1;
                    }
                }
            }
            let (a, b) = self.row(cid, -7, s, n, &mut ends);
            d.push(a);
            p.push(b);
        }
        let mut h = json!({"k": "ok", "n": n, "o": o, "c": c, "dig": dig, "ends": ends, "bad": bad});
        h["ad"] = json!(fnv(json!([d, p]).to_string().as_bytes()));
        h["ds"] = json!(fnv(json!([d]).to_string().as_bytes()));
        if full {
            h["d"] = json!(d);
            h["p"] = json!(p);
        }
        h
    }

    /// a graph from the edges to the answers, in one operation
    fn episode(&mut self, op: &Value) -> Value {
        let g = if op["ix"].is_array() { self.build(&op["xes"]) } else { self.build(&op["es"]) };
        let par = op["par"].as_str().unwrap_or("default");
        let ord = if op["ord"].is_array() { Some(list(&op["ord"])) } else { None };
        let fg = match World::prepare(&g, par, ord.as_deref()) {
            Ok(f) => f,
            Err(_) => return json!({"k": "err"}),
        };
        let calc = op["c"].as_str().unwrap_or("one").to_string();
        let mut r = self.portrait(fg.clone(), &calc, true);
        if let Some(qs) = op["mq"].as_array() {
            let cid = if calc == "pool" { 1_000_000 + fg.get_num_nodes() as i64 } else if calc == "fresh" { -1 } else { -7 };
            let mut ms = vec![];
            for q in qs {
                let (s, t) = (self.ends(&q[0]), self.ends(&q[1]));
                let a = catch_unwind(AssertUnwindSafe(|| self.query(cid, -7, &s, &t, true)));
                ms.push(match a {
                    Ok(a) => self.path(a),
                    Err(_) => json!({"k": "panic"}),
                });
            }
            r["ms"] = json!(ms);
        }
        #[cfg(feature = "hier")]
        if op["hier"] == true {
            r["h"] = crate::hier::dump(&fg, &self.enc);
        }
        if let Some(via) = op["via"].as_array() {
            let mut xs = vec![];
            let mut cur = fg.clone();
            for v in via {
                let v = v.as_str().unwrap();
                let from = cur.clone();
                let dir = self.dir.clone();
                let made = catch_unwind(AssertUnwindSafe(|| match v {
                    "again" => World::prepare(&g, par, ord.as_deref()),
                    "reord" => World::prepare(&g, "default", Some(&fg.get_node_ordering())),
                    "shuffled" => {
                        let mut es: Vec<Value> =
                            (if op["ix"].is_array() { &op["xes"] } else { &op["es"] }).as_array().unwrap().clone();
                        es.reverse();
                        World::prepare(&self.build(&json!(es)), par, ord.as_deref())
                    }
                    _ => World::copy(&from, v, &dir),
                }));
                xs.push(match made {
                    Ok(Ok(h)) => {
                        if v != "reord" && v != "again" && v != "shuffled" {
                            cur = h.clone();
                        }
                        let calc = if calc == "one" { "one" } else { "fresh" };
                        match catch_unwind(AssertUnwindSafe(|| self.portrait(h, calc, v == "reord"))) {
                            Ok(x) => x,
                            Err(_) => json!({"k": "panicked query"}),
                        }
                    }
                    Ok(Err(())) => json!({"k": "err"}),
                    Err(_) => json!({"k": "panic"}),
                });
            }
            r["x"] = json!(xs);
        }
        r
    }

    /// many numbered graphs
    fn run_enum(&mut self, op: &Value) -> Vec<Value> {
        let (n, b) = (us(&op["n"]), us(&op["b"]) as u64);
        let mut evs = vec![];
        let orders: Vec<Option<Vec<usize>>> = match op["ords"].as_str() {
            Some("all") => crate::gen::permutations(n).into_iter().map(Some).collect(),
            _ => vec![None],
        };
        let step = std::cmp::max(1, op["step"].as_u64().unwrap_or(1));
        let mut i = op["lo"].as_u64().unwrap();
        while i < op["hi"].as_u64().unwrap() {
            let mut es = vec![];
            let mut x = i;
            for f in 0..n {
                for t in 0..n {
                    if f != t {
                        if x % b > 0 {
                            let w = if op["ws"].is_array() { op["ws"][(x % b) as usize].clone() } else { json!(x % b) };
                            es.push(json!([f, t, w]));
                        }
                        x /= b;
                    }
                }
            }
            let m = node_count(&es);
            for o in &orders {
                let mut e = json!({"o": "one", "ix": [n, b, i], "xes": es});
                for k in ["par", "c", "via", "hier", "mq", "ws"] {
                    if !op[k].is_null() {
                        e[k] = op[k].clone();
                    }
                }
                if let Some(o) = o {
                    e["ord"] = json!(o.iter().filter(|v| **v < m).collect::<Vec<_>>());
                }
                let mut ev = self.run(&e);
                ev.as_object_mut().unwrap().remove("xes");
                evs.push(ev);
            }
            i += step;
        }
        evs
    }

    /// the operation with its response; a panic is a response
    pub fn run(&mut self, op: &Value) -> Value {
        // an operation on the result of a call that may have been refused
        if let Some(h) = op["need"].as_i64() {
            if !self.fg.contains_key(&h) {
                return json!({"o": "skip", "need": h, "r": ok()});
            }
        }
        let mut ev = op.clone();
        if op["o"] == "prepr" {
            let o = catch_unwind(AssertUnwindSafe(|| self.graph_ref(op, "from").get_node_ordering()));
            ev["ord"] = json!(o.unwrap_or_default());
        }
        let r = catch_unwind(AssertUnwindSafe(|| self.exec(&ev)));
        ev["r"] = match r {
            Ok(r) => r,
            Err(_) => json!({"k": "panic"}),
        };
        ev
    }

    /// operations that consist of several: run elsewhere, recorded as a sequence
    pub fn run_block(&mut self, op: &Value) -> Vec<Value> {
        match op["o"].as_str().unwrap() {
            "enum" => self.run_enum(op),
            "proc" => self.run_process(op),
            "par" => self.run_parallel(op),
            _ => vec![self.run(op)],
        }
    }

    /// in another process, with another environment
    fn run_process(&mut self, op: &Value) -> Vec<Value> {
        use std::io::Write;
        let script = json!({"h": self.enc.header("sub"), "ops": op["ops"]});
        let exe = std::env::current_exe().unwrap();
        let mut c = std::process::Command::new(exe)
            .arg("sub")
            .arg(self.dir.to_str().unwrap())
            .env_clear()
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        c.stdin.take().unwrap().write_all(script.to_string().as_bytes()).unwrap();
        let out = c.wait_with_output().unwrap();
        let mut evs: Vec<Value> =
            String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
        let want = op["ops"].as_array().unwrap().len();
        if evs.len() < want {
            evs.push(json!({"o": "crash", "r": {"k": "crash"}}));
        }
        evs
    }

    #[cfg(not(feature = "conc"))]
    fn run_parallel(&mut self, _op: &Value) -> Vec<Value> {
        panic!("driver built without feature conc");
    }

    /// in several threads that start together and share the prepared graphs; the events are
    /// recorded in the order in which the calls returned
    #[cfg(feature = "conc")]
    fn run_parallel(&mut self, op: &Value) -> Vec<Value> {
        use std::sync::atomic::{AtomicUsize, Ordering};
        use std::sync::{Arc, Barrier};
        let threads = op["th"].as_array().unwrap();
        let barrier = Arc::new(Barrier::new(threads.len()));
        let ticket = Arc::new(AtomicUsize::new(0));
        let mut handles = vec![];
        for ops in threads {
            let mut w = World::new(self.enc.clone(), self.dir.clone());
            w.nenc = self.nenc.clone();
            w.ig = self.ig.clone();
            w.fg = self.fg.clone();
            let ops = ops.as_array().unwrap().clone();
            // a thread takes the calculators it uses with it
            for o in &ops {
                if let Some(c) = o["c"].as_i64() {
                    if let Some(calc) = self.calc.remove(&c) {
                        w.calc.insert(c, calc);
                    }
                }
            }
            let (barrier, ticket) = (barrier.clone(), ticket.clone());
            handles.push(std::thread::spawn(move || {
                barrier.wait();
                let mut evs = vec![];
                for o in &ops {
                    let e = w.run(o);
                    evs.push((ticket.fetch_add(1, Ordering::SeqCst), e));
                }
                (evs, w.fg, w.ig, w.calc)
            }));
        }
        let mut all = vec![];
        for h in handles {
            match h.join() {
                Ok((evs, fg, ig, calc)) => {
                    all.extend(evs);
                    self.fg.extend(fg);
                    self.ig.extend(ig);
                    self.calc.extend(calc);
                }
                Err(_) => all.push((usize::MAX, json!({"o": "crash", "r": {"k": "crash"}}))),
            }
        }
        all.sort_by_key(|x| x.0);
        all.into_iter().map(|x| x.1).collect()
    }
}
