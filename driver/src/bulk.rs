//! Very many small episodes (operation "one"), per property.
use crate::enc::*;
use crate::gen::{any_order, any_params};
use crate::rng::*;
use serde_json::{json, Value};

type E3 = (usize, usize, i64);

fn size(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=1 => 2 + r.below(2),
        2..=9 => 4 + r.below(2),
        10..=14 => 6 + r.below(2),
        15..=17 => 8 + r.below(4),
        18 => 12 + r.below(6),
        _ => 18 + r.below(8),
    }
}

/// weights that tie often, unless asked otherwise
fn weights(r: &mut Rng, enc: &Enc) -> Box<dyn Fn(&mut Rng) -> i64> {
    let wm = enc.wm;
    match enc.name.as_str() {
        "max64" => match r.below(7) {
            0 => Box::new(move |r| std::cmp::min(std::cmp::max(r.range(0, 15) * U + r.range(-3, 3), 1), wm)),
            1 => Box::new(move |r| if r.chance(30) { wm } else { r.range(1, 3) }),
            2 => Box::new(move |r| std::cmp::min(*r.pick(&[5, 10, 15]) * U, wm)),
            3 => Box::new(move |r| std::cmp::min(std::cmp::max(*r.pick(&[7, 8, 1, 0, 14]) * U + r.range(-2, 2), 1), wm)),
            // differences far below the precision of floating point numbers
            4 => Box::new(move |r| U * r.range(1, 2) + r.range(-5, 5)),
            5 => Box::new(move |r| if r.chance(50) { 3 * U + r.range(-5, 5) } else { r.range(1, 5) }),
            _ => Box::new(move |r| if r.chance(25) { wm - r.range(0, 4) } else { r.range(1, 3) }),
        },
        "id" => match r.below(10) {
            0..=1 => Box::new(|_| 1),
            2..=3 => Box::new(|r| r.range(1, 2)),
            4 => Box::new(|r| r.range(1, 3)),
            5 => Box::new(|r| r.range(1, 5)),
            6 => Box::new(|r| 1 << r.below(4)),
            7 => Box::new(|r| if r.chance(20) { 10 } else { 1 }),
            8 => Box::new(|r| if r.chance(50) { r.range(1, 30) } else { r.range(1, 2) }),
            _ => Box::new(|r| r.range(1, 1000)),
        },
        _ => match r.below(4) {
            0 => Box::new(|r| std::cmp::max(1, r.range(0, 10) * U + r.range(-3, 3))),
            1 => Box::new(|r| U * r.range(1, 2) + r.range(-2, 2)),
            2 => Box::new(|r| if r.chance(60) { r.range(1, 3) } else { r.range(4, 10) * U }),
            _ => Box::new(|r| U * r.range(7, 8) + r.range(-1, 1)),
        },
    }
}

fn edges(r: &mut Rng, enc: &Enc, n: usize) -> Vec<E3> {
    let w = weights(r, enc);
    let mut es = vec![];
    // dense graphs only while they are small
    let density = if n <= 7 { *r.pick(&[15, 25, 40, 60, 90]) } else { std::cmp::min(60, *r.pick(&[120, 200, 300, 400]) / n) };
    let sym = match r.below(3) {
        0 => 100,
        1 => 50,
        _ => 0,
    };
    let onew = r.chance(50);
    if n > 4 && r.chance(25) {
        // something with structure, plus a few chords
        match r.below(5) {
            0 => (1..n).for_each(|i| es.push((i - 1, i, 0))),
            1 => (0..n).for_each(|i| es.push((i, (i + 1) % n, 0))),
            2 => (1..n).for_each(|i| es.push((0, i, 0))),
            3 => (1..n).for_each(|i| es.push((r.below(i), i, 0))),
            _ => (2..n).for_each(|i| {
                es.push((i % 2, i, 0));
                es.push((i - 1, i, 0))
            }),
        }
        for _ in 0..r.below(n) {
            es.push((r.below(n), r.below(n), 0));
        }
        let mut back = vec![];
        for e in es.iter_mut() {
            e.2 = w(r);
            if r.chance(sym) {
                back.push((e.1, e.0, if onew { e.2 } else { w(r) }));
            } else if r.chance(50) {
                *e = (e.1, e.0, e.2);
            }
        }
        es.extend(back);
    } else {
        for i in 0..n {
            for j in 0..n {
                if i != j && r.chance(density) && !(sym == 100 && j < i) {
                    let x = w(r);
                    es.push((i, j, x));
                    if r.chance(sym) {
                        es.push((j, i, if onew { x } else { w(r) }));
                    }
                }
            }
        }
    }
    // a long way to go for some
    if r.chance(30) && !es.is_empty() {
        for _ in 0..1 + r.below(3) {
            let e = es[r.below(es.len())];
            es.push((e.0, e.1, w(r)));
        }
    }
    if r.chance(5) {
        es.push((0, 0, 1));
        es.push((0, n - 1, 0));
    }
    if r.chance(50) {
        let mut p: Vec<usize> = (0..n).collect();
        r.shuffle(&mut p);
        for e in es.iter_mut() {
            *e = (p[e.0], p[e.1], e.2);
        }
    }
    if r.chance(30) {
        r.shuffle(&mut es);
    }
    es
}

fn node_count(es: &[E3]) -> usize {
    es.iter().filter(|e| e.0 != e.1 && e.2 > 0).map(|e| e.0.max(e.1) + 1).max().unwrap_or(0)
}

fn entries(r: &mut Rng, enc: &Enc, n: usize) -> Value {
    let k = match r.below(10) {
        0 => 1,
        1..=6 => 2 + r.below(3),
        7..=8 => 3 + r.below(6),
        _ => 2 * n + 1,
    };
    let kind = r.below(6);
    let mut v = vec![];
    for _ in 0..k {
        let w = if enc.name == "max64" {
            match kind {
                0 => 0,
                1 => enc.wm,
                2 => std::cmp::max(0, enc.wm - r.range(0, 5)),
                3 => r.range(0, 3),
                _ => std::cmp::min(std::cmp::max(r.range(0, 15) * U + r.range(-3, 3), 0), enc.wm),
            }
        } else {
            match kind {
                0 => 0,
                1 => r.range(0, 2),
                2 => r.range(0, 5),
                3 => {
                    if r.chance(30) {
                        enc.wm
                    } else {
                        r.range(0, 4)
                    }
                }
                4 => r.range(0, 40),
                _ => *r.pick(&[0, 0, 1, 2, 3, 1000, enc.wm]),
            }
        };
        v.push(json!([r.below(n), w]));
    }
    Value::Array(v)
}

fn multi(r: &mut Rng, enc: &Enc, n: usize) -> Value {
    let (s, mut t) = (entries(r, enc, n), entries(r, enc, n));
    // several entries for one node, on both sides
    if r.chance(25) {
        let x = s[r.below(s.as_array().unwrap().len())][0].clone();
        let k = t.as_array().unwrap().len();
        t[r.below(k)][0] = x;
    }
    json!([s, t])
}

pub fn bulk(prop: &str, seed: u64, count: usize) -> Vec<Value> {
    let salt = prop.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
    let mut r = Rng::new(seed.wrapping_mul(7_000_003) ^ salt);
    let r = &mut r;
    let per = 40;
    let mut out = vec![];
    let mut done = 0;
    while done < count {
        let enc = match prop {
            "C16" => Enc::max64(),
            "C12" => match r.below(4) {
                0 => Enc::max32(),
                1 => Enc::k("k31", (1 << 31) - 1),
                2 => Enc::k("k32", 1 << 32),
                _ => Enc::id(),
            },
            "C03" | "C01" | "C02" | "C04" | "C05" | "C11" | "C18" if r.chance(12) => Enc::max64(),
            _ => Enc::id(),
        };
        let mut ops = vec![];
        for _ in 0..per {
            let n = if prop == "C15" { std::cmp::min(size(r), 12) } else { size(r) };
            let es = edges(r, &enc, n);
            let m = node_count(&es);
            let mut o = json!({"o": "one", "es": es.iter().map(|e| json!([e.0, e.1, e.2])).collect::<Vec<_>>()});
            // how it is prepared
            let how = match prop {
                "C04" => 90,
                "C05" => 30,
                "C14" => 40,
                "C11" | "C12" | "C13" | "C06" | "C03" | "C16" | "C18" | "C02" => 35,
                "C15" => 50,
                "C17" => 30,
                _ => 0,
            };
            if r.chance(how) {
                let mut ord = any_order(r, &es, m);
                if prop == "C04" && r.chance(8) && m > 0 {
                    match r.below(5) {
                        0 => {
                            ord.pop();
                        }
                        1 => ord.push(m),
                        2 => ord[0] = ord[m - 1],
                        3 => {
                            let i = r.below(m);
                            ord[i] = if r.chance(50) { m } else { usize::MAX / 4 }
                        }
                        _ => ord.push(0),
                    }
                    if ord.iter().any(|x| *x > 1000) {
                        let i = ord.iter().position(|x| *x > 1000).unwrap();
                        ord[i] = m + 5;
                    }
                }
                o["ord"] = json!(ord);
                if prop == "C05" || r.chance(25) {
                    o["par"] = json!(*r.pick(&["default", "0", "1", "2", "3", "5", "max"]));
                }
            } else if prop == "C05" || (prop != "C01" && prop != "C12" && r.chance(20)) {
                o["par"] = json!(any_params(r));
            }
            // how it is queried
            o["c"] = json!(match prop {
                "C06" => "pool",
                "C18" => *r.pick(&["pool", "one"]),
                "C17" => *r.pick(&["fresh", "fresh", "one", "pool"]),
                _ => *r.pick(&["one", "one", "pool", "fresh"]),
            });
            if o["c"] == "pool" && prop != "C06" && prop != "C18" && prop != "C17" {
                o["c"] = json!("one");
            }
            let k = match prop {
                "C03" => 12,
                "C16" => 4,
                "C02" | "C06" => 4,
                "C11" | "C12" | "C05" | "C04" => 1,
                _ => 0,
            };
            if k > 0 && m > 0 {
                o["mq"] = json!((0..k).map(|_| multi(r, &enc, m)).collect::<Vec<_>>());
            }
            if prop == "C15" {
                o["hier"] = json!(true);
            }
            let copies = ["clone", "bin", "json", "value", "file", "nested", "nestedjson"];
            let small = ["c32", "c32bin", "c32json", "helper", "helperjson"];
            let via: Vec<&str> = match prop {
                "C11" => (0..3).map(|_| *r.pick(&copies)).collect(),
                "C12" => (0..3).map(|i| if i == 1 { *r.pick(&copies) } else { *r.pick(&small) }).collect(),
                "C13" => vec!["again", "shuffled"],
                "C14" => vec![*r.pick(&copies), *r.pick(&small), "reord"],
                _ => vec![],
            };
            if !via.is_empty() {
                o["via"] = json!(via);
            }
            ops.push(o);
            done += 1;
        }
        let id = format!("{}-bulk-{}-{}-{}", prop, seed, out.len(), enc.name);
        if prop == "C17" {
            let th: Vec<Value> = ops.chunks(5).map(|c| json!(c)).collect();
            ops = vec![json!({"o": "par", "th": th})];
        }
        out.push(json!({"h": enc.header(&id), "ops": ops}));
    }
    out
}
