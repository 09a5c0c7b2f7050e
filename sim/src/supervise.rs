//! Running simulations: worker processes, aggregation, minimisation, replay, evidence.
use crate::exec::{Violation, R};
use crate::io::World;
use crate::props::{props, Ctx, Prop};
use crate::tape::{hash_str, mix, Tape};
use crate::{alloc, exec};
use std::collections::{BTreeMap, HashSet};
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
const HANG_S: u64 = 90;
const THOROUGH: u64 = 40;

pub fn cli(args: &[String]) -> i32 {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", id, tier] => check(id, tier),
        ["worker", id, seed, start, step, end, ctl, out] => {
            worker(id, num(seed), num(start), num(step), num(end), ctl, out)
        }
        ["exec", file, record] => exec_file(file, record),
        ["shrink", file] => shrink(file, false),
        ["shrink", file, "isolated"] => shrink(file, true),
        ["trace", file] => trace_file(file),
        ["replay", file] => replay(file),
        ["show", id, seed, i] => show_run(id, num(seed), num(i)),
        ["list"] => {
            for p in props() {
                println!("{} {} {}", p.id, p.quick, p.rule);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check PROPERTY quick|thorough | replay FILE | show PROPERTY SEED RUN | list");
            2
        }
    }
}

fn num(s: &str) -> u64 {
    s.parse().expect("number")
}
fn prop(id: &str) -> Prop {
    props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

/// The two seeds of simulated run `i`.
fn seeds(id: &str, seed: u64, i: u64) -> (u64, u64) {
    let s = mix(mix(seed, hash_str(id)), i);
    (mix(s, 1), mix(s, 2))
}

struct RunOut {
    result: R<()>,
    ctx: Ctx,
}

fn run_once(p: &Prop, w: Tape, s: Tape, trace: bool) -> RunOut {
    let mut ctx = Ctx { w, world: World::new(s, trace) };
    alloc::reset();
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut ctx))).unwrap_or_else(|_| {
        Err(Violation { class: "harness".into(), msg: "the harness itself panicked".into() })
    });
    RunOut { result, ctx }
}

// ---- worker ----

fn worker(id: &str, seed: u64, start: u64, step: u64, end: u64, ctl: &str, out: &str) -> i32 {
    let p = prop(id);
    let ctl = OpenOptions::new().read(true).write(true).open(ctl).expect("control file");
    let slot = 8 + 8 * (start % step);
    let mut hashes = std::io::BufWriter::new(File::create(out).expect("hash file"));
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut clock, mut calls, mut runs) = (0u64, 0u64, 0u64);
    let mut samples = 0;
    let stdout = std::io::stdout();
    let mut i = start;
    while i < end {
        let mut b = [0u8; 8];
        let _ = ctl.read_exact_at(&mut b, 0);
        if i >= u64::from_le_bytes(b) {
            break;
        }
        let _ = ctl.write_all_at(&(i + 1).to_le_bytes(), slot);
        let (a, s) = seeds(id, seed, i);
        let want_sample = samples < 1 && i >= start + 3 * step;
        let r = run_once(&p, Tape::fresh(a), Tape::fresh(s), want_sample);
        runs += 1;
        r.ctx.world.with(|w| {
            // the measure of distinctness: every transport call and its outcome, plus the workload
            let mut h = w.hash;
            for x in &r.ctx.w.used {
                h = mix(h, *x);
            }
            let nt = (w.nontrivial && w.calls > 0) as u64;
            let _ = hashes.write_all(&i.to_le_bytes());
            let _ = hashes.write_all(&h.to_le_bytes());
            let _ = hashes.write_all(&nt.to_le_bytes());
            for (k, v) in &w.faults {
                *faults.entry(k).or_insert(0) += v;
            }
            for (k, v) in &w.probes {
                let e = probes.entry(k).or_insert(0);
                *e = if k.starts_with("max_") { (*e).max(*v) } else { *e + v };
            }
            clock += w.clock;
            calls += w.calls;
            if want_sample {
                if let Some(t) = &w.trace {
                    samples += 1;
                    let mut o = stdout.lock();
                    let _ = writeln!(o, "X run {}: {}", i, one_line(&t.join(" | "), 1500));
                }
            }
        });
        if let Err(v) = r.result {
            let mut o = stdout.lock();
            let _ = writeln!(o, "V {} {} {}", i, v.class, one_line(&v.msg, 4000));
            let _ = o.flush();
        }
        i += step;
    }
    let _ = ctl.write_all_at(&u64::MAX.to_le_bytes(), slot);
    let _ = hashes.flush();
    let mut o = stdout.lock();
    for (k, v) in &faults {
        let _ = writeln!(o, "F {} {}", k, v);
    }
    for (k, v) in &probes {
        let _ = writeln!(o, "B {} {}", k, v);
    }
    let _ = writeln!(o, "S {} {} {}", runs, clock, calls);
    let _ = o.flush();
    0
}

fn one_line(s: &str, max: usize) -> String {
    let mut s = s.replace('\n', " ");
    if s.len() > max {
        let mut k = max;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}

// ---- replay files ----

#[derive(Clone, Default)]
struct Case {
    prop: String,
    class: String,
    msg: String,
    origin: String,
    /// tapes, or the seeds to draw them from
    tapes: Option<(Vec<u64>, Vec<u64>)>,
    fresh: Option<(u64, u64)>,
    /// seed and numbers of the runs made before this one in the same process
    history: Option<(u64, Vec<u64>)>,
    trace: Vec<String>,
}

impl Case {
    fn save(&self, path: &str) {
        let mut s = String::new();
        let j = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        s += &format!("property {}\nclass {}\nmsg {}\norigin {}\n", self.prop, self.class, one_line(&self.msg, 4000), self.origin);
        if let Some((a, b)) = &self.tapes {
            s += &format!("workload {}\nschedule {}\n", j(a), j(b));
        }
        if let Some((a, b)) = self.fresh {
            s += &format!("fresh {} {}\n", a, b);
        }
        if let Some((seed, h)) = &self.history {
            s += &format!("history {} {}\n", seed, j(h));
        }
        for t in &self.trace {
            s += &format!("# {}\n", one_line(t, 600));
        }
        let tmp = format!("{}.tmp", path);
        std::fs::write(&tmp, s).expect("write replay");
        std::fs::rename(&tmp, path).expect("rename replay");
    }
    fn load(path: &str) -> Option<Case> {
        let s = std::fs::read_to_string(path).ok()?;
        let mut c = Case::default();
        let (mut a, mut b) = (None, None);
        let nums = |r: &str| r.split_whitespace().filter_map(|x| x.parse().ok()).collect::<Vec<u64>>();
        for l in s.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => c.prop = r.into(),
                "class" => c.class = r.into(),
                "msg" => c.msg = r.into(),
                "origin" => c.origin = r.into(),
                "workload" => a = Some(nums(r)),
                "schedule" => b = Some(nums(r)),
                "fresh" => {
                    let n = nums(r);
                    c.fresh = Some((n[0], n[1]));
                }
                "history" => {
                    let n = nums(r);
                    c.history = Some((n[0], n[1..].to_vec()));
                }
                _ => {}
            }
        }
        if let (Some(a), Some(b)) = (a, b) {
            c.tapes = Some((a, b));
        }
        Some(c)
    }
    /// Bring the process to the state that the runs before this one leave.
    fn prepare(&self) {
        if let Some((seed, h)) = &self.history {
            let p = prop(&self.prop);
            for i in h {
                let (a, s) = seeds(p.id, *seed, *i);
                let _ = run_once(&p, Tape::fresh(a), Tape::fresh(s), false);
            }
        }
    }
    fn make(&self) -> (Tape, Tape) {
        match (&self.tapes, self.fresh) {
            (Some((a, b)), _) => (Tape::replay(a.clone()), Tape::replay(b.clone())),
            (None, Some((a, b))) => (Tape::fresh(a), Tape::fresh(b)),
            _ => panic!("no tapes"),
        }
    }
}

/// Run the case of a file once; prints `RESULT ok` or `RESULT class msg`. With `record`, the drawn
/// values are streamed to a file as they are drawn, so that they survive an abort.
fn exec_file(file: &str, record: &str) -> i32 {
    let c = Case::load(file).expect("case");
    let p = prop(&c.prop);
    c.prepare();
    let (mut a, mut b) = c.make();
    if record != "-" {
        a.record(File::create(format!("{}.w", record)).unwrap());
        b.record(File::create(format!("{}.s", record)).unwrap());
    }
    let r = run_once(&p, a, b, false);
    match r.result {
        Ok(()) => println!("RESULT ok"),
        Err(v) => println!("RESULT {} {}", v.class, one_line(&v.msg, 4000)),
    }
    0
}

/// Print the readable trace of a case.
fn trace_file(file: &str) -> i32 {
    let c = Case::load(file).expect("case");
    c.prepare();
    let (a, b) = c.make();
    let r = run_once(&prop(&c.prop), a, b, true);
    r.ctx.world.with(|w| {
        for t in w.trace.iter().flatten().take(4000) {
            println!("{}", one_line(t, 600));
        }
    });
    0
}

/// Outcome of a case in a process of its own: None if it passes.
fn exec_isolated(file: &str, record: &str, timeout: Duration) -> Option<(String, String)> {
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe)
        .args(["exec", file, record])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let mut out = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut out, &mut s);
        s
    });
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                let s = rd.join().unwrap_or_default();
                if let Some(l) = s.lines().find(|l| l.starts_with("RESULT ")) {
                    let r = &l[7..];
                    if r == "ok" {
                        return None;
                    }
                    let (c, m) = r.split_once(' ').unwrap_or((r, ""));
                    return Some((c.into(), m.into()));
                }
                return Some(("abort".into(), format!("the process died: {}", death(&st))));
            }
            Ok(None) if t0.elapsed() > timeout => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Some(("hang".into(), format!("no end after {} s", timeout.as_secs())));
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}

fn death(st: &std::process::ExitStatus) -> String {
    match st.signal() {
        Some(6) => "aborted (SIGABRT: allocation failure, double panic or stack overflow)".into(),
        Some(11) => "segmentation fault (SIGSEGV)".into(),
        Some(s) => format!("signal {}", s),
        None => format!("exit code {:?}", st.code()),
    }
}

fn isolated_class(class: &str) -> bool {
    class == "abort" || class == "hang"
}

// ---- minimisation ----

fn candidate(tape: &[u64], k: usize) -> Option<Vec<u64>> {
    // enumerate edits in a fixed order: cuts, chunk deletions, chunk zeroings, value halvings
    let n = tape.len();
    if n == 0 {
        return None;
    }
    let mut k = k;
    for d in [2usize, 4, 8, 16] {
        // keep a prefix
        if k == 0 {
            return Some(tape[..n - (n + d - 1) / d].to_vec());
        }
        k -= 1;
    }
    let mut size = n / 2;
    while size >= 1 {
        let blocks = (n + size - 1) / size;
        // at most 64 positions per size
        let stride = (blocks + 63) / 64;
        let tries = (blocks + stride - 1) / stride;
        if k < 2 * tries {
            let at = (k / 2) * stride * size;
            let e = (at + size).min(n);
            let mut v = tape.to_vec();
            if k % 2 == 0 {
                v.drain(at..e);
            } else {
                if v[at..e].iter().all(|x| *x == 0) {
                    return Some(vec![u64::MAX]); // no change: rejected by the caller
                }
                v[at..e].iter_mut().for_each(|x| *x = 0);
            }
            return Some(v);
        }
        k -= 2 * tries;
        size /= 2;
    }
    // halve / decrement single values
    let tries = 2 * n.min(400);
    if k < tries {
        let i = k / 2;
        let mut v = tape.to_vec();
        if v[i] == 0 {
            return Some(vec![u64::MAX]);
        }
        v[i] = if k % 2 == 0 { v[i] / 2 } else { v[i] - 1 };
        return Some(v);
    }
    None
}

/// Minimise the tapes of a case in place (its own process; the file is updated at every step).
fn shrink(file: &str, force: bool) -> i32 {
    let mut c = Case::load(file).expect("case");
    let p = prop(&c.prop);
    let iso = force || isolated_class(&c.class);
    let t0 = Instant::now();
    let (wall, mut budget) = if iso { (60, 400u32) } else { (40, 6000u32) };
    let limit = Duration::from_secs(if c.class == "hang" { 20 } else { 60 });
    let tmp = format!("{}.try", file);
    let check = |w: &[u64], s: &[u64], class: &str| -> Option<(String, Vec<u64>, Vec<u64>)> {
        if iso {
            let k = Case { prop: c.prop.clone(), class: class.into(), tapes: Some((w.to_vec(), s.to_vec())), ..Case::default() };
            k.save(&tmp);
            match exec_isolated(&tmp, "-", limit) {
                Some((cl, m)) if cl == class => Some((m, w.to_vec(), s.to_vec())),
                _ => None,
            }
        } else {
            let r = run_once(&p, Tape::replay(w.to_vec()), Tape::replay(s.to_vec()), false);
            match r.result {
                Err(v) if v.class == class => {
                    let su = r.ctx.world.with(|x| x.s.used.clone());
                    Some((v.msg, r.ctx.w.used, su))
                }
                _ => None,
            }
        }
    };
    let (mut w, mut s) = c.tapes.clone().expect("tapes");
    let class = c.class.clone();
    let mut progress = true;
    while progress && budget > 0 && t0.elapsed().as_secs() < wall {
        progress = false;
        for which in 0..2 {
            let mut k = 0;
            while budget > 0 && t0.elapsed().as_secs() < wall {
                let cand = match candidate(if which == 0 { &w } else { &s }, k) {
                    None => break,
                    Some(x) => x,
                };
                k += 1;
                if cand.len() == 1 && cand[0] == u64::MAX {
                    continue;
                }
                budget -= 1;
                let (cw, cs): (&[u64], &[u64]) = if which == 0 { (&cand, &s) } else { (&w, &cand) };
                if let Some((msg, mut nw, mut ns)) = check(cw, cs, &class) {
                    while nw.last() == Some(&0) {
                        nw.pop();
                    }
                    while ns.last() == Some(&0) {
                        ns.pop();
                    }
                    // only strictly simpler tapes
                    let size = |a: &[u64], b: &[u64]| (a.len() + b.len(), a.iter().chain(b).filter(|x| **x != 0).count(), a.iter().chain(b).fold(0u128, |t, x| t + *x as u128));
                    if size(&nw, &ns) < size(&w, &s) {
                        w = nw;
                        s = ns;
                        c.msg = msg;
                        c.tapes = Some((w.clone(), s.clone()));
                        c.save(file);
                        progress = true;
                        k = k.saturating_sub(1);
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_file(&tmp);
    0
}

fn replay(file: &str) -> i32 {
    let c = match Case::load(file) {
        Some(c) => c,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    println!("replaying {} of property {}: expecting {}: {}", c.origin, c.prop, c.class, c.msg);
    if isolated_class(&c.class) {
        match exec_isolated(file, "-", Duration::from_secs(HANG_S)) {
            Some((class, msg)) => {
                println!("REPRODUCED class={} {}", class, msg);
                println!("VIOLATION property={} replay={}", c.prop, file);
                return 1;
            }
            None => {
                println!("NOT REPRODUCED");
                return 0;
            }
        }
    }
    let p = prop(&c.prop);
    if let Some((_, h)) = &c.history {
        println!("after {} other runs in the same process", h.len());
    }
    c.prepare();
    let (a, b) = c.make();
    let r = run_once(&p, a, b, true);
    r.ctx.world.with(|w| {
        for t in w.trace.as_ref().unwrap() {
            println!("{}", t);
        }
    });
    match r.result {
        Ok(()) => {
            println!("NOT REPRODUCED");
            0
        }
        Err(v) => {
            println!("{} class={} {}", if v.class == c.class { "REPRODUCED" } else { "DIFFERENT" }, v.class, v.msg);
            println!("VIOLATION property={} replay={}", c.prop, file);
            1
        }
    }
}

fn show_run(id: &str, seed: u64, i: u64) -> i32 {
    let p = prop(id);
    let (a, s) = seeds(id, seed, i);
    let r = run_once(&p, Tape::fresh(a), Tape::fresh(s), true);
    r.ctx.world.with(|w| {
        for t in w.trace.as_ref().unwrap() {
            println!("{}", t);
        }
    });
    println!("{:?}", r.result);
    0
}

// ---- supervisor ----

struct Lane {
    child: Child,
    reader: std::thread::JoinHandle<Vec<String>>,
    slot: u64,
    last: (u64, Instant),
    err: String,
}

fn spawn(id: &str, seed: u64, start: u64, step: u64, end: u64, ctl: &str, out: &str) -> Lane {
    let exe = std::env::current_exe().unwrap();
    let err = format!("{}.err", out);
    let mut child = Command::new(exe)
        .args(["worker", id, &seed.to_string(), &start.to_string(), &step.to_string(), &end.to_string(), ctl, out])
        .stdout(Stdio::piped())
        .stderr(File::create(&err).map(Stdio::from).unwrap_or_else(|_| Stdio::null()))
        .spawn()
        .expect("spawn worker");
    let o = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || BufReader::new(o).lines().map_while(|l| l.ok()).collect());
    Lane { child, reader, slot: start % step, last: (0, Instant::now()), err }
}

fn known_findings() -> Vec<(String, String, String)> {
    // lines: finding property=<id> class=<class> <what fails>
    let path = std::env::var("SIM_KNOWN").unwrap_or_else(|_| "/verif/KNOWN_FINDINGS.txt".into());
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(3, ' ');
                let (p, c, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if let Some(c) = c.strip_prefix("class=") {
                    v.push((p.to_string(), c.to_string(), t.to_string()));
                }
            }
        }
    }
    v
}

fn check(id: &str, tier: &str) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((p.quick * if thorough { THOROUGH } else { 1 }) as f64 * scale) as u64;
    let base = std::env::var("SIM_BASE").unwrap_or_else(|_| "/verif".into());
    let scratch = format!("{}/target/run-{}-{}", base, id, std::process::id());
    let _ = std::fs::create_dir_all(&scratch);
    let _ = std::fs::create_dir_all(format!("{}/replays", base));
    let _ = std::fs::create_dir_all(format!("{}/evidence", base));
    let ctl = format!("{}/ctl", scratch);
    {
        let f = File::create(&ctl).expect("control file");
        f.write_all_at(&total.to_le_bytes(), 0).unwrap();
        for i in 0..64 {
            f.write_all_at(&0u64.to_le_bytes(), 8 + 8 * i).unwrap();
        }
    }
    let ctlf = OpenOptions::new().read(true).write(true).open(&ctl).unwrap();
    let workers = WORKERS.min(total).max(1);
    let known = known_findings();
    let is_known = |class: &str| known.iter().any(|(a, b, _)| a == id && b == class);
    let mut lanes: Vec<Lane> = (0..workers).map(|k| spawn(id, seed, k, workers, total, &ctl, &format!("{}/h{}", scratch, k))).collect();
    // (run, class, msg), known or not
    let mut found: Vec<(u64, String, String)> = vec![];
    let mut stats: Vec<String> = vec![];
    let mut hash_files: Vec<String> = (0..workers).map(|k| format!("{}/h{}", scratch, k)).collect();
    let mut stop = total;
    let mut harness_error: Option<String> = None;
    let mut respawns = 0;
    let wall_cap = Duration::from_secs(if thorough { 3 * 3600 } else { 420 });
    let mut capped = false;
    while !lanes.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        if t0.elapsed() > wall_cap && !capped {
            capped = true;
            ctlf.write_all_at(&0u64.to_le_bytes(), 0).unwrap();
        }
        let mut next: Vec<Lane> = vec![];
        for mut l in lanes.drain(..) {
            let mut b = [0u8; 8];
            let _ = ctlf.read_exact_at(&mut b, 8 + 8 * l.slot);
            let cur = u64::from_le_bytes(b);
            if cur != l.last.0 {
                l.last = (cur, Instant::now());
            }
            let mut ended = l.child.try_wait().ok().flatten();
            let mut hang = false;
            if ended.is_none() && l.last.1.elapsed().as_secs() > HANG_S {
                hang = true;
                let _ = l.child.kill();
                ended = l.child.wait().ok();
            }
            let st = match ended {
                None => {
                    next.push(l);
                    continue;
                }
                Some(s) => s,
            };
            let lines = l.reader.join().unwrap_or_default();
            let clean = st.success() && lines.iter().any(|x| x.starts_with("S "));
            for line in &lines {
                if let Some(r) = line.strip_prefix("V ") {
                    let mut it = r.splitn(3, ' ');
                    let i = num(it.next().unwrap());
                    let (c, m) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
                    found.push((i, c, m));
                }
            }
            stats.extend(lines.into_iter().filter(|x| !x.starts_with("V ")));
            if !clean {
                if cur == 0 || cur == u64::MAX {
                    let e = std::fs::read_to_string(&l.err).unwrap_or_default();
                    harness_error = Some(format!("a worker failed outside a run: {} {}", death(&st), one_line(&e, 400)));
                } else {
                    let i = cur - 1;
                    let e = std::fs::read_to_string(&l.err).unwrap_or_default();
                    found.push((i, if hang { "hang".into() } else { "abort".into() }, format!("{}; {}", if hang { "the run did not end".to_string() } else { format!("the process died: {}", death(&st)) }, one_line(&e, 300))));
                    // the rest of the lane's runs
                    respawns += 1;
                    let from = i + workers;
                    if from < stop && respawns < 40 {
                        let out = format!("{}/h{}r{}", scratch, l.slot, respawns);
                        hash_files.push(out.clone());
                        ctlf.write_all_at(&0u64.to_le_bytes(), 8 + 8 * l.slot).unwrap();
                        next.push(spawn(id, seed, from, workers, total, &ctl, &out));
                    }
                }
            }
            let lowest = found.iter().filter(|f| !is_known(&f.1)).map(|f| f.0).min();
            if let Some(m) = lowest {
                if m + 1 < stop {
                    stop = m + 1;
                    ctlf.write_all_at(&stop.to_le_bytes(), 0).unwrap();
                }
            }
        }
        lanes = next;
    }
    found.sort();
    if let Some(h) = found.iter().find(|f| f.1 == "harness") {
        harness_error = Some(format!("run {}: {}", h.0, h.2));
    }
    let fresh: Vec<_> = found.iter().filter(|f| !is_known(&f.1)).cloned().collect();

    // determinism: the first runs again, one process, other sharding
    let det = determinism(id, seed, total, &scratch, &hash_files, stop);

    let mut code = 0;
    let mut replay_path = String::new();
    let mut violation: Option<(u64, String, String)> = None;
    if let Some(e) = &harness_error {
        eprintln!("error of the check: {}", e);
        code = 2;
    } else if let Some((i, class, msg)) = fresh.first() {
        let path = format!("{}/replays/{}-{}-{}.replay", base, id, seed, i);
        let case = minimise(id, seed, *i, class, msg, &path, &scratch);
        println!("property {}: run {} (seed {}): {}: {}", id, i, seed, case.class, case.msg);
        println!("VIOLATION property={} replay={}", id, path);
        violation = Some((*i, case.class, case.msg));
        replay_path = path;
        code = 1;
    }
    for (kp, kc, text) in &known {
        if kp == id {
            let n = found.iter().filter(|f| f.1 == *kc).count();
            println!("KNOWN-FINDING: property={} {} ({} of the runs, e.g. run {})", id, text, n, found.iter().find(|f| f.1 == *kc).map_or("none".into(), |f| f.0.to_string()));
        }
    }
    let ev = evidence(&p, tier, seed, &stats, &hash_files, &found, &violation, &replay_path, t0, &det, capped, &known);
    std::fs::write(format!("{}/evidence/{}.json", base, id), ev.0).expect("evidence");
    if code == 0 {
        println!("property {}: {} runs, {} distinct, {:.1} s", id, ev.1, ev.2, t0.elapsed().as_secs_f64());
    }
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn read_hashes(files: &[String]) -> BTreeMap<u64, (u64, u64)> {
    let mut m = BTreeMap::new();
    for f in files {
        if let Ok(b) = std::fs::read(f) {
            for c in b.chunks_exact(24) {
                let n = |k: usize| u64::from_le_bytes(c[k..k + 8].try_into().unwrap());
                m.insert(n(0), (n(8), n(16)));
            }
        }
    }
    m
}

fn determinism(id: &str, seed: u64, total: u64, scratch: &str, files: &[String], stop: u64) -> (u64, u64) {
    let n = (total / 20).clamp(10, 200).min(stop.saturating_sub(1));
    if n == 0 {
        return (0, 0);
    }
    let ctl = format!("{}/ctl2", scratch);
    {
        let f = File::create(&ctl).unwrap();
        f.write_all_at(&n.to_le_bytes(), 0).unwrap();
        for i in 0..64 {
            f.write_all_at(&0u64.to_le_bytes(), 8 + 8 * i).unwrap();
        }
    }
    let out = format!("{}/d0", scratch);
    let mut l = spawn(id, seed, 0, 1, n, &ctl, &out);
    let _ = l.child.wait();
    let _ = l.reader.join();
    let (a, b) = (read_hashes(files), read_hashes(&[out]));
    let mut cmp = (0, 0);
    for (i, h) in &b {
        if let Some(g) = a.get(i) {
            cmp.0 += 1;
            if g != h {
                cmp.1 += 1;
            }
        }
    }
    cmp
}

fn minimise(id: &str, seed: u64, i: u64, class: &str, msg: &str, path: &str, scratch: &str) -> Case {
    let (a, s) = seeds(id, seed, i);
    let mut c = Case {
        prop: id.into(),
        class: class.into(),
        msg: msg.into(),
        origin: format!("seed {} run {}", seed, i),
        fresh: Some((a, s)),
        ..Case::default()
    };
    c.save(path);
    // the drawn values
    let rec = format!("{}/rec", scratch);
    let timeout = Duration::from_secs(HANG_S);
    let first = exec_isolated(path, &rec, timeout);
    let rd = |ext: &str| -> Vec<u64> {
        let b = std::fs::read(format!("{}.{}", rec, ext)).unwrap_or_default();
        b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
    };
    match first {
        Some((cl, m)) => {
            c.class = cl;
            c.msg = m;
        }
        None => {
            // it takes what earlier runs left behind in the process
            needs_history(&mut c, seed, i, path, timeout);
            return c;
        }
    }
    c.tapes = Some((rd("w"), rd("s")));
    let work = format!("{}/min", scratch);
    let mut k = c.clone();
    k.fresh = None;
    k.save(&work);
    if c.class != "hang" && matches!(exec_isolated(&work, "-", timeout), Some((cl, _)) if cl == c.class) {
        let exe = std::env::current_exe().unwrap();
        for isolated in [false, true] {
            let mut args = vec!["shrink", &work];
            if isolated {
                k.save(&work);
                args.push("isolated");
            }
            let _ = Command::new(&exe).args(args).stdout(Stdio::null()).stderr(Stdio::null()).status();
            if let Some(best) = Case::load(&work) {
                if let Some((cl, m)) = exec_isolated(&work, "-", timeout) {
                    if cl == c.class {
                        c.tapes = best.tapes;
                        c.fresh = None;
                        c.msg = m;
                        break;
                    }
                }
            }
        }
    }
    if c.tapes.is_some() && !isolated_class(&c.class) {
        // the readable trace of the minimised run
        c.save(&work);
        let exe = std::env::current_exe().unwrap();
        if let Ok(o) = Command::new(exe).args(["trace", &work]).stderr(Stdio::null()).output() {
            c.trace = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
        }
    }
    c.save(path);
    c
}

/// Find a short list of earlier runs after which run `i` fails.
fn needs_history(c: &mut Case, seed: u64, i: u64, path: &str, timeout: Duration) {
    let t0 = Instant::now();
    let step = WORKERS;
    let same: Vec<u64> = (0..i / step).rev().map(|k| i % step + k * step).collect();
    let attempt = |c: &mut Case, h: &[u64]| -> Option<String> {
        c.history = Some((seed, h.to_vec()));
        c.save(path);
        match exec_isolated(path, "-", timeout) {
            Some((cl, m)) if cl == c.class => Some(m),
            _ => None,
        }
    };
    let mut n = 1;
    let mut best: Option<Vec<u64>> = None;
    loop {
        let n2 = n.min(same.len());
        let mut h = same[..n2].to_vec();
        h.reverse();
        if let Some(m) = attempt(c, &h) {
            c.msg = m;
            best = Some(h);
            break;
        }
        if n2 == same.len() || t0.elapsed().as_secs() > 200 {
            break;
        }
        n *= 4;
    }
    if let Some(mut h) = best {
        let mut chunk = h.len().div_ceil(2);
        while chunk > 0 && !h.is_empty() && t0.elapsed().as_secs() < 260 {
            let mut k = 0;
            while k < h.len() && t0.elapsed().as_secs() < 260 {
                let mut d = h.clone();
                d.drain(k..(k + chunk).min(h.len()));
                if let Some(m) = attempt(c, &d) {
                    c.msg = m;
                    h = d;
                } else {
                    k += chunk;
                }
            }
            chunk = if chunk == 1 { 0 } else { chunk.div_ceil(2) };
        }
        c.history = Some((seed, h));
    } else {
        c.history = None;
    }
    c.save(path);
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop,
    tier: &str,
    seed: u64,
    stats: &[String],
    files: &[String],
    found: &[(u64, String, String)],
    violation: &Option<(u64, String, String)>,
    replay: &str,
    t0: Instant,
    det: &(u64, u64),
    capped: bool,
    known: &[(String, String, String)],
) -> (String, u64, usize) {
    let h = read_hashes(files);
    let distinct: HashSet<u64> = h.values().filter(|x| x.1 == 1).map(|x| x.0).collect();
    let (mut clock, mut calls) = (0u64, 0u64);
    let mut maps: [BTreeMap<String, u64>; 2] = Default::default();
    let mut samples = vec![];
    for l in stats {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "S" => {
                clock += num(f[2]);
                calls += num(f[3]);
            }
            "F" | "B" => {
                let m = &mut maps[(f[0] == "B") as usize];
                let e = m.entry(f[1].to_string()).or_insert(0);
                *e = if f[1].starts_with("max_") { (*e).max(num(f[2])) } else { *e + num(f[2]) };
            }
            "X" => samples.push(l[2..].to_string()),
            _ => {}
        }
    }
    samples.truncate(4);
    let wall = t0.elapsed().as_secs_f64();
    let obj = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    let runs = h.len() as u64;
    let kn: Vec<String> = known.iter().filter(|k| k.0 == p.id).map(|k| format!("{{\"class\": {}, \"what\": {}, \"runs\": {}}}", esc(&k.1), esc(&k.2), found.iter().filter(|f| f.1 == k.1).count())).collect();
    let v = match violation {
        Some((i, c, m)) => format!("{{\"run\": {}, \"class\": {}, \"message\": {}, \"replay\": {}}}", i, esc(c), esc(m), esc(replay)),
        None => "null".into(),
    };
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"seeds\": \"run i of 0..{} has the seeds mix(mix(mix(VERIF_SEED, property), i), 1|2)\",\n  \"runs_and_seeds_per_hour\": {:.0},\n  \"simulated_time\": {{\"ticks\": {}, \"transport_calls\": {}, \"unit\": \"one tick per transport call, 1-50 ticks per stall\"}},\n  \"faults_injected\": {},\n  \"probes\": {},\n  \"distinct_measure\": \"64-bit hash of the workload draws and of the ordered log of every transport call, its result and every scheduling step\",\n  \"determinism\": {{\"runs_repeated_in_another_process\": {}, \"different\": {}}},\n  \"components\": {{\"real\": {}, \"stub\": {}}},\n  \"known_findings\": [{}],\n  \"violation\": {},\n  \"wall_capped\": {}\n }},\n \"assumptions\": [\"the simulated transports, executor and allocator honour the contracts of the traits they stand for\", \"single-process simulation; blocking threads are run one at a time, switched at transport calls\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        esc(p.id),
        esc(tier),
        seed,
        runs,
        distinct.len(),
        esc(&format!("{}; non-trivial: at least one fault or schedule deviation was injected and at least one transport call made", p.rule)),
        samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "),
        runs,
        runs as f64 / wall * 3600.0,
        clock,
        calls,
        obj(&maps[0]),
        obj(&maps[1]),
        det.0,
        det.1,
        esc(p.real),
        esc(p.stub),
        kn.join(", "),
        v,
        capped,
        wall,
        violation.is_some() as u32
    );
    let _ = exec::install_panic_hook;
    (s, runs, distinct.len())
}
