use super::reads::{chain, corrupt, elem_bytes, foreign, unknown_content};
use super::writes::{pick_how, program};
use super::Ctx;
use crate::alloc;
use crate::drive::*;
use crate::ensure;
use crate::exec::{fail, Baton, Exec, Pool, R};
use crate::io::*;
use crate::schema::*;
use crate::val::*;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone)]
enum Work {
    Write(Vec<(&'static Ops, Arc<DynVal>)>),
    Read(Vec<&'static Ops>, Vec<u8>, usize),
    WriteElems(Vec<El>),
    ReadElems(Vec<El>, Vec<u8>),
}

#[derive(Clone)]
struct Job {
    bad: Option<(usize, std::io::ErrorKind)>,
    work: Work,
    how: How,
    /// how the outcome of the job begins, where that is known from the content alone
    want: Vec<String>,
}

fn brief_val(v: &DynVal) -> String {
    sorted(&v.tree()).fingerprint()
}

/// `deep`: reads of deeply nested unknown content
fn gen_job(c: &mut Ctx, how: How, deep: bool) -> Job {
    let n = c.w.range(1, 2);
    // a transport that fails at a byte: the session ends there, alone or not
    let bad = if c.w.chance(1, 6) { Some((c.w.draw(120) as usize, c.world.kind(how != How::Async))) } else { None };
    let work = match if deep { 0 } else { c.w.draw(5) } {
        0 | 1 => Work::Read(
            vec![],
            vec![],
            if c.w.chance(1, 4) { c.w.draw(300) as usize } else { 1 << 24 },
        ),
        2 | 3 => Work::Write(vec![]),
        _ => {
            let mut p = program(&mut c.w, false);
            // long content, of its own in every session
            if c.w.chance(1, 4) {
                let n = c.w.pick(&[600usize, 1100, 2100, 4096, 5000, 9000]);
                let b = c.w.draw(256) as u8;
                p.push(El::Bytes(vec![b; n]));
                p.push(El::Bytes(vec![b ^ 0x55; n / 2]));
            }
            if c.w.chance(1, 2) {
                Work::WriteElems(p)
            } else {
                let mut b = elem_bytes(&p);
                if c.w.chance(1, 4) {
                    corrupt(&mut c.w, &mut b);
                }
                Work::ReadElems(p, b)
            }
        }
    };
    let mut want = vec![];
    let work = match work {
        Work::Read(mut ops, mut bytes, limit) => {
            let mut known = bad.is_none() && limit == 1 << 24 && !deep;
            for i in 0..n {
                let o = pick_ops(&mut c.w);
                let v = gen_value(&mut c.w, o, if i == 0 { Size::Medium } else { Size::Small });
                let mut tree = v.tree();
                if deep || c.w.chance(1, 4) {
                    let x = if deep {
                        let k = c.w.range(30, 66) as usize;
                        chain(&mut c.w, k)
                    } else {
                        unknown_content(&mut c.w)
                    };
                    known &= x.levels() < 16;
                    if let Val::Struct(fs) = &mut tree {
                        if !(o.def)().union {
                            let at = c.w.draw(fs.len() as u64 + 1) as usize;
                            fs.insert(at, (300, x));
                        }
                    }
                }
                bytes.extend(foreign(&mut c.w, &tree).0);
                want.push(show(&Ok(v), brief_val));
                ops.push(o);
            }
            if bytes.len() > 20_000 {
                bytes.truncate(20_000);
                known = false;
            }
            if c.w.chance(1, 4) {
                known = false;
                corrupt(&mut c.w, &mut bytes);
            }
            if !known {
                want.clear();
            }
            Work::Read(ops, bytes, limit)
        }
        Work::Write(mut vs) => {
            for i in 0..n {
                let o = pick_ops(&mut c.w);
                let v = gen_value(&mut c.w, o, if i == 0 { Size::Medium } else { Size::Small });
                vs.push((o, Arc::new(v)));
            }
            Work::Write(vs)
        }
        w => w,
    };
    Job { work, how, bad, want }
}

/// The transport of a job.
#[derive(Clone)]
enum Tr {
    R(SimReader),
    W(SimWriter),
}
fn transport(world: &World, id: u32, job: &Job, cfg: Cfg, hook: Option<Hook>) -> Tr {
    let cfg = if job.how == How::Async { cfg.no_eintr() } else { cfg };
    match &job.work {
        Work::Read(_, b, _) | Work::ReadElems(_, b) => {
            let mut r = SimReader::new(world, id, b.clone(), cfg);
            if let Some((at, k)) = job.bad {
                r = r.fail_at(at, k, true);
            }
            r.hook = hook;
            Tr::R(r)
        }
        _ => {
            let mut w = SimWriter::new(world, id, cfg);
            if let Some((at, k)) = job.bad {
                let mut g = w.get();
                g.fail = Some((at, WFail::Err(k)));
                g.sticky = true;
            }
            w.hook = hook;
            Tr::W(w)
        }
    }
}
fn end_state(t: &Tr) -> String {
    match t {
        Tr::R(r) => format!("position {}", r.pos()),
        Tr::W(w) => {
            let b = w.got();
            let s: String = b.iter().map(|x| format!("{:02x}", x)).collect();
            format!("{} bytes {:x} {}", b.len(), crate::tape::hash_str(&s), hex(&b))
        }
    }
}

/// A whole job on a blocking (or boxed) protocol, or an asynchronous one driven by its own loop.
fn run_blocking(job: &Job, t: &Tr) -> R<String> {
    let mut out = vec![];
    match (&job.work, t) {
        (Work::Write(vs), Tr::W(w)) => {
            let mut s = WriteSession::new(job.how, w);
            for (_, v) in vs {
                let r = s.value(&***v)?;
                out.push(format!("{:?}", r));
                if r.is_err() {
                    break;
                }
            }
            out.push(format!("{:?}", s.flush()?));
        }
        (Work::WriteElems(p), Tr::W(w)) => {
            let mut s = WriteSession::new(job.how, w);
            for op in p {
                let r = s.elem(op)?;
                out.push(format!("{:?}", r));
                if r.is_err() {
                    break;
                }
            }
        }
        (Work::Read(ops, _, limit), Tr::R(r)) => {
            let mut s = ReadSession::new(job.how, r, *limit);
            for o in ops {
                let r = s.value(o)?;
                out.push(show(&r, brief_val));
                if r.is_err() {
                    break;
                }
            }
        }
        (Work::ReadElems(p, _), Tr::R(r)) => {
            let mut s = ReadSession::new(job.how, r, 1 << 24);
            for op in p {
                let r = s.elem(op)?;
                out.push(format!("{:?}", r));
                if r.is_err() {
                    break;
                }
            }
        }
        _ => unreachable!(),
    }
    out.push(end_state(t));
    Ok(out.join("; "))
}

/// The same job as one future.
async fn run_async(job: Job, t: Tr) -> String {
    let mut out = vec![];
    match (&job.work, &t) {
        (Work::Write(vs), Tr::W(w)) => {
            let mut p = OutAsync::new(w.clone());
            for (_, v) in vs {
                let r = conv((***v).write_async(&mut p).await);
                out.push(format!("{:?}", r));
                if r.is_err() {
                    break;
                }
            }
            use parquet_format_safe::thrift::protocol::TOutputStreamProtocol;
            out.push(format!("{:?}", conv(p.flush().await)));
        }
        (Work::WriteElems(ops), Tr::W(w)) => {
            let mut p = OutAsync::new(w.clone());
            for op in ops {
                let r = conv(write_elem_async(&mut p, op).await);
                out.push(format!("{:?}", r));
                if r.is_err() {
                    break;
                }
            }
        }
        (Work::Read(ops, _, limit), Tr::R(r)) => {
            let mut p = InAsync::new(r.clone(), *limit);
            for o in ops {
                let r = conv((o.read_async)(&mut p).await);
                out.push(show(&r, brief_val));
                if r.is_err() {
                    break;
                }
            }
        }
        (Work::ReadElems(ops, _), Tr::R(r)) => {
            let mut p = InAsync::new(r.clone(), 1 << 24);
            for op in ops {
                let r = conv(read_elem_async(&mut p, op).await);
                out.push(format!("{:?}", r));
                if r.is_err() {
                    break;
                }
            }
        }
        _ => unreachable!(),
    }
    out.push(end_state(&t));
    out.join("; ")
}

fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| Pool::new(3))
}

fn compare(what: &str, i: usize, job: &Job, solo: &str, got: R<String>) -> R<()> {
    match got {
        Err(mut v) => {
            v.msg = format!("{} session {} ({:?}): {}", what, i, job.how, v.msg);
            Err(v)
        }
        Ok(g) if g == solo => Ok(()),
        Ok(g) => {
            // show the neighbourhood of the first difference
            let k = g.bytes().zip(solo.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(40);
            let cut = |s: &str| s.chars().skip(k).take(300).collect::<String>();
            fail("interference", format!("{} session {} ({:?}): alone ...{}; together ...{}", what, i, job.how, cut(solo), cut(&g)))
        }
    }
}

/// What is known of a job from its content alone: an outcome shared with an earlier session, or
/// an earlier run of this process, would be the same alone and together.
fn as_known(i: usize, job: &Job, t: &Tr, got: &str) -> R<()> {
    let want = job.want.join("; ");
    ensure!(got.starts_with(&want), "history", "session {} ({:?}) alone: {} instead of {}", i, job.how, got, want);
    if let (Work::Write(vs), Tr::W(w), None) = (&job.work, t, job.bad) {
        let b = w.got();
        let mut d = Dec::new(&b);
        for (k, (o, v)) in vs.iter().enumerate() {
            let back = d.val(T_STRUCT, 0).map(|x| sorted(&x).fingerprint());
            let want = brief_val(v);
            ensure!(back.as_ref().ok() == Some(&want), "history", "session {} ({:?}) alone: value {} ({}) was written as {:?} instead of {}; stream {}", i, job.how, k, o.name, back, want, hex(&b));
        }
    }
    Ok(())
}

pub fn c16(c: &mut Ctx) -> R<()> {
    let mode = c.w.weighted(&[4, 3, 3]);
    let n = c.w.range(2, if mode == 2 { 4 } else { 6 }) as usize;
    let deep = c.w.chance(1, 6);
    let jobs: Vec<Job> = (0..n)
        .map(|i| {
            let how = match mode {
                0 => How::Async,
                1 => c.w.pick(&[How::Sync, How::Boxed]),
                // the outer one blocks, the inner ones are of any kind
                _ if i == 0 => c.w.pick(&[How::Sync, How::Boxed, How::Async]),
                _ => pick_how(&mut c.w),
            };
            gen_job(c, how, deep)
        })
        .collect();
    let solo: Vec<String> = jobs
        .iter()
        .enumerate()
        .map(|(i, j)| {
            let t = transport(&c.world, i as u32, j, Cfg::PLAIN, None);
            let r = run_blocking(j, &t)?;
            as_known(i, j, &t, &r)?;
            Ok(r)
        })
        .collect::<R<_>>()?;
    // sessions that failed before these began must leave nothing behind
    if c.w.chance(1, 4) {
        let how = pick_how(&mut c.w);
        let mut j = gen_job(c, how, deep);
        let most = match &mut j.work {
            Work::Read(_, b, _) | Work::ReadElems(_, b) => {
                let keep = c.world.draw(b.len() as u64 + 1) as usize;
                b.truncate(keep);
                keep
            }
            Work::Write(_) | Work::WriteElems(_) => {
                let at = c.world.draw(200) as usize;
                j.bad = Some((at, std::io::ErrorKind::Other));
                at
            }
        };
        let k = if most < 400 { c.world.with(|w| w.s.pick(&[1, 1, 2, 20, 80])) } else { 1 };
        for _ in 0..k {
            run_blocking(&j, &transport(&c.world, 9, &j, Cfg::PLAIN, None))?;
        }
        c.world.probe("failed_sessions_before");
    }
    match mode {
        0 => {
            let migrate = c.w.chance(1, 2);
            let mut e: Exec<String> = Exec::new(&c.world, c.world.with(|w| w.s.pick(&[0, 2, 6])));
            for (i, j) in jobs.iter().enumerate() {
                let mut cfg = Cfg::draw(&c.world);
                cfg.pend = cfg.pend.max(1);
                let t = transport(&c.world, 10 + i as u32, j, cfg, None);
                e.add(run_async(j.clone(), t));
            }
            // others are cancelled while they run
            let mut doomed: Vec<(usize, u64)> = vec![];
            for k in 0..c.w.draw(3) {
                let j = gen_job(c, How::Async, deep);
                let mut cfg = Cfg::draw(&c.world);
                cfg.pend = cfg.pend.max(2);
                let t = transport(&c.world, 30 + k as u32, &j, cfg, None);
                doomed.push((e.add(run_async(j, t)), c.world.draw(60)));
            }
            let mut steps = 0;
            while e.step(if migrate { Some(pool()) } else { None })? {
                steps += 1;
                for (t, at) in &doomed {
                    if steps >= *at && e.live(*t) {
                        c.world.fault("cancelled_session");
                        e.drop_task(*t);
                    }
                }
            }
            for (i, j) in jobs.iter().enumerate() {
                compare("interleaved", i, j, &solo[i], e.take(i).unwrap())?;
            }
            c.world.probe("interleaved_tasks");
        }
        1 => {
            let baton = Baton::new(n);
            let results: Arc<Mutex<Vec<Option<R<String>>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
            let mut threads = vec![];
            for (i, j) in jobs.iter().enumerate() {
                let b = baton.clone();
                let hook: Hook = Arc::new(move || b.yield_now(i));
                let mut cfg = Cfg::draw(&c.world);
                if let Mode::All = cfg.mode {
                    cfg.mode = Mode::Mixed;
                }
                let t = transport(&c.world, 10 + i as u32, j, cfg, Some(hook));
                let (b, j, res) = (baton.clone(), j.clone(), results.clone());
                threads.push(std::thread::spawn(move || {
                    b.yield_now(i);
                    let r = run_blocking(&j, &t);
                    lock(&res)[i] = Some(r);
                    b.done(i);
                }));
            }
            // stay on one session for a while, or switch at every call
            let sticky = c.world.with(|w| w.s.pick(&[0, 0, 6, 14]));
            let mut cur = 0;
            loop {
                let live = baton.live();
                if live.is_empty() {
                    break;
                }
                if !live.contains(&cur) || !c.world.chance(sticky, 16) {
                    cur = live[c.world.draw(live.len() as u64) as usize];
                }
                baton.resume(cur);
            }
            for t in threads {
                let _ = t.join();
            }
            let mut r = lock(&results);
            for (i, j) in jobs.iter().enumerate() {
                let got = r[i].take().unwrap_or_else(|| fail("panic", "session thread died"));
                compare("threaded", i, j, &solo[i], got)?;
            }
            c.world.probe("threaded_sessions");
        }
        _ => {
            // session k+1 starts within a transport call of session k
            let got = nested(c, &jobs, 0);
            let got = got?;
            for (i, j) in jobs.iter().enumerate() {
                match &got[i] {
                    Some(g) => compare("nested", i, j, &solo[i], g.clone())?,
                    None => {}
                }
            }
            c.world.probe("nested_sessions");
        }
    }
    Ok(())
}

fn nested(c: &mut Ctx, jobs: &[Job], _: usize) -> R<Vec<Option<R<String>>>> {
    let n = jobs.len();
    let out: Arc<Mutex<Vec<Option<R<String>>>>> = Arc::new(Mutex::new(vec![None; n]));
    // hooks are built innermost first
    let mut hook: Option<Hook> = None;
    for i in (0..n).rev() {
        let job = jobs[i].clone();
        let cfg = Cfg::draw(&c.world);
        let t = transport(&c.world, 10 + i as u32, &job, cfg, hook.take());
        let res = out.clone();
        let run = move || {
            let r = run_blocking(&job, &t);
            lock(&res)[i] = Some(r);
        };
        if i == 0 {
            run();
            break;
        }
        let world = c.world.clone();
        let done = AtomicBool::new(false);
        let at = c.world.draw(30);
        let seen = std::sync::atomic::AtomicU64::new(0);
        hook = Some(Arc::new(move || {
            if done.load(Ordering::SeqCst) || seen.fetch_add(1, Ordering::SeqCst) < at {
                return;
            }
            done.store(true, Ordering::SeqCst);
            world.fault("nested_session");
            run();
        }));
    }
    let mut g = lock(&out);
    Ok(g.drain(..).collect())
}

/// One asynchronous operation (or a run of them through one protocol object).
enum Task17 {
    Write(DynVal),
    Read(&'static Ops),
    WriteElems(Vec<El>),
    ReadElems(Vec<El>),
    Skip(u8),
}

pub fn c17(c: &mut Ctx) -> R<()> {
    use parquet_format_safe::thrift::protocol::{TInputStreamProtocol, TOutputStreamProtocol};
    // the task, what it is called, the stream it reads, what it must yield and write
    let (task, name, full, want, wrote) = match c.w.draw(8) {
        0..=2 => {
            let ops = pick_ops(&mut c.w);
            let size = match c.w.weighted(&[80, 15, 1]) { 0 => Size::Small, 1 => Size::Medium, _ => Size::Mixed };
            let v = gen_value(&mut c.w, ops, size);
            // what an undisturbed operation leaves
            let s = SimWriter::new(&c.world, 0, Cfg::PLAIN);
            let n = WriteSession::new(How::Async, &s).value(&*v)?;
            (Task17::Write(v), format!("write of {}", ops.name), vec![], vec![format!("{:?}", n)], s.got())
        }
        3..=5 => {
            let ops = pick_ops(&mut c.w);
            let size = match c.w.weighted(&[80, 15, 1]) { 0 => Size::Small, 1 => Size::Medium, _ => Size::Mixed };
            let v = gen_value(&mut c.w, ops, size);
            (Task17::Read(ops), format!("read of {}", ops.name), plain_bytes(&*v), vec![brief_val(&v)], vec![])
        }
        6 => {
            let p = program(&mut c.w, false);
            let b = elem_bytes(&p);
            if c.w.chance(1, 2) {
                let s = SimWriter::new(&c.world, 0, Cfg::PLAIN);
                let mut ws = WriteSession::new(How::Async, &s);
                let mut want = vec![];
                for op in &p {
                    want.push(format!("{:?}", ws.elem(op)?));
                }
                want.push(format!("{:?}", ws.flush()?));
                (Task17::WriteElems(p), "write of elements".to_string(), vec![], want, s.got())
            } else {
                let want = p.iter().map(|op| format!("{:?}", Ok::<Got, Kind>(op.expect()))).collect();
                (Task17::ReadElems(p), "read of elements".to_string(), b, want, vec![])
            }
        }
        _ => {
            let mut g = AnyGen { depth: c.w.range(1, 6) as u32, budget: c.w.pick(&[6, 30, 150]), utf8: false };
            let ty = g.ty(&mut c.w, false);
            let v = g.val(&mut c.w, ty, 0);
            (Task17::Skip(ty), format!("skip of {}", v.brief()), encode(&v), vec!["Ok(())".to_string()], vec![])
        }
    };
    let writing = matches!(task, Task17::Write(_) | Task17::WriteElems(_));
    let spurious = c.world.with(|w| w.s.pick(&[0, 1, 4, 12]));
    let mut cfg = Cfg::draw(&c.world).no_eintr();
    cfg.pend = cfg.pend.max(1);
    let (sink, src) = (SimWriter::new(&c.world, 1, cfg), SimReader::new(&c.world, 2, full.clone(), cfg));
    let cancel = c.w.chance(1, 2);
    let migrate = !cancel && c.w.chance(1, 3);
    alloc::reset();
    let (mut wp, mut rp) = {
        let _t = alloc::track();
        (OutAsync::new(sink.clone()), InAsync::new(src.clone(), usize::MAX))
    };
    // results, noted by the harness outside the accounted memory
    let seen: Mutex<Vec<String>> = Mutex::new(vec![]);
    fn put(seen: &Mutex<Vec<String>>, f: impl FnOnce() -> String) {
        let _m = alloc::mute();
        lock(seen).push(f());
    }
    let mut done: Option<R<()>> = None;
    let polls;
    {
        let seen = &seen;
        let mut e: Exec<()> = Exec::new(&c.world, spurious);
        match &task {
            Task17::Write(v) => {
                let f = {
                    let _t = alloc::track();
                    v.write_async(&mut wp)
                };
                e.add(async move {
                    let r = conv(f.await);
                    put(seen, || format!("{:?}", r));
                })
            }
            Task17::Read(ops) => {
                let f = {
                    let _t = alloc::track();
                    (ops.read_async)(&mut rp)
                };
                e.add(async move {
                    let r = conv(f.await);
                    put(seen, || show(&r, brief_val));
                    drop(r);
                })
            }
            Task17::WriteElems(p) => {
                let wp = &mut wp;
                e.add(async move {
                    for op in p {
                        let r = conv(write_elem_async(wp, op).await);
                        put(seen, || format!("{:?}", r));
                    }
                    let r = conv(wp.flush().await);
                    put(seen, || format!("{:?}", r));
                })
            }
            Task17::ReadElems(p) => {
                let rp = &mut rp;
                e.add(async move {
                    for op in p {
                        let r = conv(read_elem_async(rp, op).await);
                        put(seen, || format!("{:?}", r));
                        drop(r);
                    }
                })
            }
            Task17::Skip(ty) => {
                let f = {
                    let _t = alloc::track();
                    rp.skip(ttype(*ty))
                };
                e.add(async move {
                    let r = conv(f.await);
                    put(seen, || format!("{:?}", r));
                })
            }
        };
        let stop = if cancel { c.world.draw(40) } else { u64::MAX };
        let mut stopped = false;
        loop {
            let st = if writing { sink.stats() } else { src.stats() };
            if cancel && st.pends >= stop {
                c.world.fault("cancel");
                c.world.probe("cancelled");
                e.drop_task(0);
                stopped = true;
                break;
            }
            if !e.step(if migrate { Some(pool()) } else { None })? {
                break;
            }
            // bounded progress: a poll is either spurious, or the first, or follows a wake-up
            let st = if writing { sink.stats() } else { src.stats() };
            let bound = 2 * st.pends + e.spurious_polls + 16;
            ensure!(
                e.polls <= bound,
                "no-progress",
                "{}: {} polls ({} spurious) for {} not-ready answers of the transport",
                name, e.polls, e.spurious_polls, st.pends
            );
        }
        polls = e.polls;
        if !stopped {
            done = e.take(0);
        }
    }
    let seen = seen.into_inner().unwrap_or_else(|e| e.into_inner());
    c.world.note(|| format!("{}: {} polls, done: {}, outcome {:?}", name, polls, done.is_some(), bounded(&seen, 600)));
    if let Some(r) = done {
        r?;
        let short = |x: &Vec<String>| bounded(x, 1000).unwrap_or_else(|s| s);
        ensure!(seen == want, "outcome", "suspended {}: {} instead of {}", name, short(&seen), short(&want));
        if writing {
            ensure!(sink.got() == wrote, "outcome", "suspended {}: the transport holds {}, undisturbed {}", name, hex(&sink.got()), hex(&wrote));
        } else {
            ensure!(src.pos() == full.len(), "outcome", "suspended {} ended at {} instead of {}", name, src.pos(), full.len());
        }
    } else {
        ensure!(seen.len() <= want.len() && seen[..] == want[..seen.len()], "outcome", "{}, dropped later, had given {:?} instead of {:?}", name, bounded(&seen, 1000), bounded(&want, 1000));
        if writing {
            let got = sink.got();
            ensure!(got.len() <= wrote.len() && got[..] == wrote[..got.len()], "not-a-prefix", "a {} was dropped: the transport holds {}, no prefix of {}", name, hex(&got), hex(&wrote));
        } else {
            ensure!(src.pos() <= full.len(), "overread", "a {} was dropped at {}, beyond its {} bytes", name, src.pos(), full.len());
        }
    }
    {
        let _t = alloc::track();
        drop(wp);
        drop(rp);
    }
    if !migrate {
        let left = alloc::current();
        ensure!(left == 0, "leak", "{} bytes are held after a {} was dropped", left, name);
    }
    Ok(())
}
