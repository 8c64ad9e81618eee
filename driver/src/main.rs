mod bulk;
mod enc;
mod exec;
mod gen;
#[cfg(feature = "hier")]
mod hier;
mod long;
mod rng;
mod room;

use enc::Enc;
use exec::World;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "gen" => {
            let scripts = match args[2].strip_prefix("bulk:") {
                Some(p) => bulk::bulk(p, args[3].parse().unwrap(), args[4].parse().unwrap()),
                None => gen::suite(&args[2], args[3].parse().unwrap(), args[4] == "thorough"),
            };
            let mut f = std::io::BufWriter::new(std::fs::File::create(&args[5]).unwrap());
            for s in scripts {
                writeln!(f, "{}", s).unwrap();
            }
            f.flush().unwrap();
        }
        "run" => run(&args[2], &args[3], &args[4], args[5].parse().unwrap(), args[6].parse().unwrap()),
        "child" => child(&args[2]),
        "sub" => sub(&args[2]),
        x => panic!("unknown command {}", x),
    }
}

fn script_thread(script: Value, dir: PathBuf, mut sink: impl FnMut(&Value) + Send + 'static) -> bool {
    // a thread with the default stack size, as most users would have
    std::thread::spawn(move || {
        let mut w = World::new(Enc::from_header(&script["h"]), dir);
        w.nenc = Enc::node_ids(&script["h"]);
        for op in script["ops"].as_array().unwrap() {
            for e in w.run_block(op) {
                sink(&e);
            }
        }
    })
    .join()
    .is_ok()
}

/// somebody who reads all log messages
struct Reader;
impl log::Log for Reader {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = write!(std::io::sink(), "{}", r.args());
    }
    fn flush(&self) {}
}

fn read_log() {
    if log::set_logger(&Reader).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
}

/// from now on on one of the processors only
fn one_processor() {
    extern "C" {
        fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
        fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    }
    let mut mask = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, mask.as_mut_ptr()) < 0 {
            return;
        }
        let mut found = false;
        for m in mask.iter_mut() {
            *m = if found { 0 } else { *m & m.wrapping_neg() };
            found = found || *m != 0;
        }
        sched_setaffinity(0, 128, mask.as_ptr());
    }
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// runs the scripts that come in on stdin
fn child(dir: &str) {
    quiet_panics();
    if std::env::var("FPV_LOG").is_ok() {
        read_log();
    }
    let home = Path::new(dir).canonicalize().unwrap();
    let dir = home.as_path();
    let stdin = std::io::stdin();
    for (i, line) in stdin.lock().lines().enumerate() {
        let script: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let d = dir.join(format!("s{}", i));
        std::fs::create_dir_all(&d).unwrap();
        let d = d.canonicalize().unwrap();
        std::env::set_current_dir(&d).unwrap();
        let fine = script_thread(script, d.clone(), |e| {
            let mut o = std::io::stdout().lock();
            writeln!(o, "{}", e).unwrap();
            o.flush().unwrap();
        });
        std::env::set_current_dir(&home).unwrap();
        let _ = std::fs::remove_dir_all(&d);
        println!("{}", if fine { "END" } else { "BROKEN" });
    }
}

fn sub(dir: &str) {
    quiet_panics();
    one_processor();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let script: Value = serde_json::from_str(&s).unwrap();
    let ok = script_thread(script, PathBuf::from(dir), |e| {
        let mut o = std::io::stdout().lock();
        writeln!(o, "{}", e).unwrap();
        o.flush().unwrap();
    });
    std::process::exit(if ok { 0 } else { 3 });
}

struct Worker {
    proc: Child,
    lines: Receiver<String>,
}

fn start(dir: &str, checked: bool) -> Worker {
    let mut exe = std::env::current_exe().unwrap();
    if let (true, Ok(x)) = (checked, std::env::var("FPV_CHECKED")) {
        exe = PathBuf::from(x);
    }
    let mut proc = Command::new("sh")
        .arg("-c")
        .arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" child \"$1\"")
        .arg(exe)
        .arg(dir)
        .envs(if checked { Some(("FPV_LOG", "1")) } else { None })
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(if std::env::var("FPV_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .unwrap();
    let out = proc.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Worker { proc, lines: rx }
}

fn end(w: Option<Worker>) {
    if let Some(mut w) = w {
        drop(w.proc.stdin.take());
        let _ = w.proc.wait();
    }
}

fn is_checked(script: &str) -> bool {
    let v: Value = serde_json::from_str(script).unwrap();
    v["h"]["prof"] == "checked"
}

fn run(scripts: &str, out: &str, work: &str, jobs: usize, timeout: u64) {
    let lines: Vec<String> =
        BufReader::new(std::fs::File::open(scripts).unwrap()).lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect();
    let n = lines.len();
    let lines = Arc::new(lines);
    // the scripts for either build of the crate
    let (b, a): (Vec<usize>, Vec<usize>) = (0..n).partition(|i| is_checked(&lines[*i]));
    let queues = Arc::new([(a, AtomicUsize::new(0)), (b, AtomicUsize::new(0))]);
    let broken = Arc::new(AtomicUsize::new(0));
    let crashes = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; n]));
    let mut hs = vec![];
    for j in 0..jobs {
        let (lines, queues, results, broken, crashes) =
            (lines.clone(), queues.clone(), results.clone(), broken.clone(), crashes.clone());
        let dir = format!("{}/w{}", work, j);
        std::fs::create_dir_all(&dir).unwrap();
        hs.push(std::thread::spawn(move || {
            let mut w: Option<Worker> = None;
            let (mut k, mut changed) = (if j % 3 == 2 { 1 } else { 0 }, false);
            loop {
                // after a number of crashes or hangs there is enough to report
                if crashes.load(Ordering::SeqCst) >= 8 {
                    break;
                }
                let at = queues[k].1.fetch_add(1, Ordering::SeqCst);
                if at >= queues[k].0.len() {
                    if changed {
                        break;
                    }
                    // help with the other ones
                    k = 1 - k;
                    changed = true;
                    end(w.take());
                    continue;
                }
                let i = queues[k].0[at];
                if w.is_none() {
                    w = Some(start(&dir, k == 1));
                }
                let worker = w.as_mut().unwrap();
                let stdin = worker.proc.stdin.as_mut().unwrap();
                let _ = stdin.write_all(lines[i].as_bytes());
                let _ = stdin.write_all(b"\n");
                let _ = stdin.flush();
                let mut evs: Vec<String> = vec![];
                let failed = loop {
                    match worker.lines.recv_timeout(Duration::from_secs(timeout)) {
                        Ok(l) if l == "END" => break None,
                        Ok(l) if l == "BROKEN" => {
                            broken.fetch_add(1, Ordering::SeqCst);
                            eprintln!("script {} could not be executed: {}", i, &lines[i][..lines[i].len().min(300)]);
                            break None;
                        }
                        Ok(l) => evs.push(l),
                        Err(RecvTimeoutError::Timeout) => break Some("hang"),
                        Err(RecvTimeoutError::Disconnected) => break Some("crash"),
                    }
                };
                let script: Value = serde_json::from_str(&lines[i]).unwrap();
                if let Some(kind) = failed {
                    crashes.fetch_add(1, Ordering::SeqCst);
                    let _ = worker.proc.kill();
                    let _ = worker.proc.wait();
                    w = None;
                    // blocks make several events; without them the event is that of the next operation
                    let op = script["ops"].as_array().unwrap().get(evs.len()).cloned().unwrap_or(json!({"o": "crash"}));
                    let mut e = if op["o"] == "par" || op["o"] == "proc" { json!({"o": "crash"}) } else { op };
                    e["r"] = json!({"k": kind});
                    evs.push(e.to_string());
                }
                let s = format!("{{\"h\":{},\"ev\":[{}]}}", script["h"], evs.join(","));
                results.lock().unwrap()[i] = Some(s);
            }
            end(w);
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for r in results.lock().unwrap().iter().flatten() {
        writeln!(f, "{}", r).unwrap();
    }
    f.flush().unwrap();
    if broken.load(Ordering::SeqCst) > 0 {
        std::process::exit(2);
    }
}
