//! The scheduler. Simulated threads are OS threads of which exactly one runs at a time; at every
//! operation on a shared object the running thread hands the baton to the thread the schedule names.
use ::std::{
    any::Any,
    cell::RefCell,
    collections::BTreeMap,
    panic::{catch_unwind, panic_any, AssertUnwindSafe},
    path::{Path, PathBuf},
    string::String,
    sync::{atomic::AtomicU64, atomic::Ordering, Arc, Condvar, Mutex, MutexGuard},
    thread,
    vec::Vec,
};

/// Everything that decides one execution.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Consumed one byte per scheduling point with a choice: 0 keeps the running thread, k runs the
    /// (k-1)-th other runnable thread. When used up, threads run without pre-emption.
    pub schedule: Vec<u8>,
    /// (thread, from step, steps): not scheduled in that window unless nothing else can run.
    pub stalls: Vec<(usize, u64, u64)>,
    /// What `available_parallelism` answers; None is an error.
    pub parallelism: Option<usize>,
    /// Thread creations (counted from 0) that fail.
    pub spawn_fail: Vec<usize>,
    /// Reads that fail: path -> raw OS error.
    pub read_fail: BTreeMap<PathBuf, i32>,
    /// (step, nanoseconds): the clock jumps forward.
    pub jumps: Vec<(u64, u64)>,
    pub max_steps: u64,
    /// The simulated process's command line.
    pub args: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Spawn { child: usize },
    SpawnFailed,
    Read { thread: usize, path: PathBuf, ok: bool },
    Finish { thread: usize, panicked: bool },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fate {
    /// The root function returned.
    Returned,
    Exit(i32),
    Panicked(String),
    Deadlock,
    StepLimit,
}

#[derive(Debug)]
pub struct Report {
    pub fate: Fate,
    pub events: Vec<(u64, Event)>,
    pub out: Vec<String>,
    pub err: Vec<String>,
    pub steps: u64,
    pub switches: u64,
    pub choices: u64,
    pub clock_ns: u64,
    pub stalled: u64,
    pub jumped: u64,
    /// Hash of the sequence of (thread, operation).
    pub signature: u64,
    pub threads: usize,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub(crate) enum Key {
    Addr(usize),
    Join(usize),
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum State {
    Runnable,
    Blocked(Key),
    Finished,
}

struct Thread {
    state: State,
    cv: Arc<Condvar>,
}

struct Inner {
    plan: Plan,
    pos: usize,
    current: usize,
    threads: Vec<Thread>,
    spawned: usize,
    steps: u64,
    switches: u64,
    choices: u64,
    stalled: u64,
    jumped: u64,
    clock: u64,
    sig: u64,
    fate: Option<Fate>,
    events: Vec<(u64, Event)>,
    out: Vec<String>,
    err: Vec<String>,
    os: Vec<thread::JoinHandle<()>>,
    /// Consecutive points of the running thread with others waiting.
    streak: u64,
}

pub(crate) struct Ctx {
    pub(crate) run: u64,
    m: Mutex<Inner>,
}

struct Killed;
struct ExitWith(i32);

static RUNS: AtomicU64 = AtomicU64::new(1);

thread_local! {
    static CUR: RefCell<Option<(Arc<Ctx>, usize)>> = const { RefCell::new(None) };
}

pub(crate) fn current() -> Option<(Arc<Ctx>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

fn message(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| String::from(*s))
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_default()
}

impl Ctx {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Ends the run: every simulated thread unwinds at its next operation.
    fn die(&self, g: &mut Inner, fate: Fate) {
        if g.fate.is_none() {
            g.fate = Some(fate);
        }
        for t in &g.threads {
            t.cv.notify_all();
        }
    }

    /// Chooses who runs next. None: nobody can.
    fn choose(g: &mut Inner, me: usize, yielding: bool) -> Option<usize> {
        let runnable: Vec<usize> = (0..g.threads.len())
            .filter(|i| g.threads[*i].state == State::Runnable)
            .collect();
        if runnable.is_empty() {
            return None;
        }
        let awake: Vec<usize> = runnable
            .iter()
            .copied()
            .filter(|i| {
                !g.plan.stalls.iter().any(|(t, from, n)| t == i && g.steps >= *from && g.steps < from + n)
            })
            .collect();
        if awake.len() < runnable.len() {
            g.stalled += 1;
        }
        let pool = if awake.is_empty() { runnable } else { awake };
        let next = if pool.len() == 1 {
            pool[0]
        } else {
            g.choices += 1;
            let c = g.plan.schedule.get(g.pos).copied().unwrap_or(0) as usize;
            g.pos += 1;
            let others: Vec<usize> = pool.iter().copied().filter(|i| *i != me).collect();
            // Fairness: a thread that spins does not starve the others for ever.
            if c == 0 && pool.contains(&me) && !yielding && g.streak < 300 {
                g.streak += 1;
                me
            } else if c == 0 {
                g.streak = 0;
                *others.iter().find(|i| **i > me).unwrap_or(&others[0])
            } else {
                g.streak = 0;
                others[(c - 1) % others.len()]
            }
        };
        Some(next)
    }

    fn note(g: &mut Inner, me: usize, label: &str) {
        let mut h = g.sig ^ 0xcbf29ce484222325;
        for b in label.bytes().chain([me as u8]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        g.sig = h;
    }

    /// Hands over and waits for the baton; false when the run has ended.
    fn switch(&self, mut g: MutexGuard<'_, Inner>, me: usize, yielding: bool) -> bool {
        match Self::choose(&mut g, me, yielding) {
            None => {
                self.die(&mut g, Fate::Deadlock);
                return false;
            }
            Some(next) => {
                if next != me {
                    g.switches += 1;
                    g.current = next;
                    let cv = g.threads[next].cv.clone();
                    cv.notify_all();
                }
            }
        }
        self.wait(g, me)
    }

    fn wait(&self, mut g: MutexGuard<'_, Inner>, me: usize) -> bool {
        let cv = g.threads[me].cv.clone();
        while g.current != me && g.fate.is_none() {
            g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g.fate.is_none()
    }

    fn tick(&self, g: &mut Inner) -> bool {
        if g.fate.is_some() {
            return false;
        }
        g.steps += 1;
        g.clock += 1_000;
        let s = g.steps;
        let jump: u64 = g.plan.jumps.iter().filter(|j| j.0 == s).map(|j| j.1).sum();
        if jump > 0 {
            g.clock += jump;
            g.jumped += 1;
        }
        if g.steps > g.plan.max_steps {
            self.die(g, Fate::StepLimit);
            return false;
        }
        true
    }
}

fn killed() {
    if !thread::panicking() {
        panic_any(Killed);
    }
}

/// A point where another thread may run.
pub fn point(label: &'static str) {
    let Some((ctx, me)) = current() else { return };
    let mut g = ctx.lock();
    let alive = ctx.tick(&mut g);
    if alive {
        Ctx::note(&mut g, me, label);
    }
    let alive = if !alive { drop(g); false } else { ctx.switch(g, me, matches!(label, "yield" | "sleep" | "wait_timeout" | "fence")) };
    if !alive {
        killed();
    }
}

/// Waits until `wake(key)`. False: the run ended (or this is not a simulated thread).
pub(crate) fn block(key: Key) -> bool {
    let Some((ctx, me)) = current() else {
        thread::yield_now();
        return false;
    };
    let mut g = ctx.lock();
    if !ctx.tick(&mut g) {
        drop(g);
        killed();
        return false;
    }
    g.threads[me].state = State::Blocked(key);
    Ctx::note(&mut g, me, "block");
    if !ctx.switch(g, me, false) {
        killed();
        return false;
    }
    true
}

pub(crate) fn wake(key: Key, all: bool) {
    let Some((ctx, _)) = current() else { return };
    let mut g = ctx.lock();
    for t in g.threads.iter_mut() {
        if t.state == State::Blocked(key) {
            t.state = State::Runnable;
            if !all {
                break;
            }
        }
    }
}

pub(crate) fn exit(code: i32) -> ! {
    if current().is_some() {
        panic_any(ExitWith(code));
    }
    ::std::process::exit(code)
}

pub fn out(text: String, err: bool) {
    match current() {
        Some((ctx, _)) => {
            let mut g = ctx.lock();
            if err {
                g.err.push(text);
            } else {
                g.out.push(text);
            }
        }
        None if err => ::std::eprintln!("{text}"),
        None => ::std::println!("{text}"),
    }
}

pub(crate) fn clock() -> Option<u64> {
    let (ctx, _) = current()?;
    let mut g = ctx.lock();
    g.clock += 37;
    Some(g.clock)
}

pub(crate) fn advance(ns: u64) {
    if let Some((ctx, _)) = current() {
        ctx.lock().clock += ns;
    }
}

/// The simulated process's command line.
pub fn args() -> Vec<String> {
    current().map(|(ctx, _)| ctx.lock().plan.args.clone()).unwrap_or_default()
}

pub(crate) fn parallelism() -> Option<Option<usize>> {
    let (ctx, _) = current()?;
    let p = ctx.lock().plan.parallelism;
    Some(p)
}

pub(crate) fn read_fault(path: &Path) -> Option<i32> {
    let (ctx, me) = current()?;
    let mut g = ctx.lock();
    let f = g.plan.read_fail.get(path).copied();
    let s = g.steps;
    g.events.push((s, Event::Read { thread: me, path: path.to_path_buf(), ok: f.is_none() }));
    f
}

/// Registers a new simulated thread; Err is an injected failure.
pub(crate) fn register() -> Result<usize, ()> {
    let (ctx, _) = current().expect("simulated");
    let mut g = ctx.lock();
    let n = g.spawned;
    g.spawned += 1;
    let s = g.steps;
    if g.plan.spawn_fail.contains(&n) {
        g.events.push((s, Event::SpawnFailed));
        return Err(());
    }
    let id = g.threads.len();
    g.threads.push(Thread { state: State::Runnable, cv: Arc::new(Condvar::new()) });
    g.events.push((s, Event::Spawn { child: id }));
    Ok(id)
}

pub(crate) fn adopt(h: thread::JoinHandle<()>) {
    let (ctx, _) = current().expect("simulated");
    ctx.lock().os.push(h);
}

pub(crate) fn is_finished(id: usize) -> bool {
    current().is_some_and(|(ctx, _)| ctx.lock().threads[id].state == State::Finished)
}

/// Body of every simulated thread but the root.
pub(crate) fn body<T>(ctx: Arc<Ctx>, id: usize, f: impl FnOnce() -> T, store: impl FnOnce(thread::Result<T>)) {
    CUR.with(|c| *c.borrow_mut() = Some((ctx.clone(), id)));
    let g = ctx.lock();
    let alive = ctx.wait(g, id);
    if alive {
        let r = catch_unwind(AssertUnwindSafe(f));
        let end = r.as_ref().err().map(|p| p.downcast_ref::<ExitWith>().map(|e| e.0));
        let panicked = r.is_err();
        store(r);
        let mut g = ctx.lock();
        let s = g.steps;
        if let Some(Some(code)) = end {
            ctx.die(&mut g, Fate::Exit(code));
        }
        if g.fate.is_none() {
            g.events.push((s, Event::Finish { thread: id, panicked }));
            g.threads[id].state = State::Finished;
            for t in g.threads.iter_mut() {
                if t.state == State::Blocked(Key::Join(id)) {
                    t.state = State::Runnable;
                }
            }
            Ctx::note(&mut g, id, "finish");
            match Ctx::choose(&mut g, id, false) {
                None => ctx.die(&mut g, Fate::Deadlock),
                Some(next) => {
                    g.current = next;
                    let cv = g.threads[next].cv.clone();
                    cv.notify_all();
                }
            }
        }
    }
    CUR.with(|c| *c.borrow_mut() = None);
}

/// Runs `root` as simulated thread 0 under `plan`.
pub fn run<T: Send + 'static>(plan: Plan, root: impl FnOnce() -> T + Send + 'static) -> (Report, Option<T>) {
    let ctx = Arc::new(Ctx {
        run: RUNS.fetch_add(1, Ordering::SeqCst),
        m: Mutex::new(Inner {
            plan,
            pos: 0,
            current: 0,
            threads: ::std::vec![Thread { state: State::Runnable, cv: Arc::new(Condvar::new()) }],
            spawned: 0,
            steps: 0,
            switches: 0,
            choices: 0,
            stalled: 0,
            jumped: 0,
            clock: 1_000_000_000,
            sig: 0,
            fate: None,
            events: Vec::new(),
            out: Vec::new(),
            err: Vec::new(),
            os: Vec::new(),
            streak: 0,
        }),
    });
    let c = ctx.clone();
    let value = thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            CUR.with(|s| *s.borrow_mut() = Some((c.clone(), 0)));
            let r = catch_unwind(AssertUnwindSafe(root));
            let mut g = c.lock();
            let v = match r {
                Ok(v) => {
                    c.die(&mut g, Fate::Returned);
                    Some(v)
                }
                Err(p) => {
                    let fate = match p.downcast_ref::<ExitWith>() {
                        Some(e) => Fate::Exit(e.0),
                        None => Fate::Panicked(message(&*p)),
                    };
                    c.die(&mut g, fate);
                    None
                }
            };
            drop(g);
            CUR.with(|s| *s.borrow_mut() = None);
            v
        })
        .expect("spawn")
        .join()
        .ok()
        .flatten();
    loop {
        let hs = ::std::mem::take(&mut ctx.lock().os);
        if hs.is_empty() {
            break;
        }
        for h in hs {
            let _ = h.join();
        }
    }
    let mut g = ctx.lock();
    let fate = g.fate.take().unwrap_or(Fate::Deadlock);
    let value = if fate == Fate::Returned { value } else { None };
    let report = Report {
        fate,
        events: ::std::mem::take(&mut g.events),
        out: ::std::mem::take(&mut g.out),
        err: ::std::mem::take(&mut g.err),
        steps: g.steps,
        switches: g.switches,
        choices: g.choices,
        clock_ns: g.clock - 1_000_000_000,
        stalled: g.stalled,
        jumped: g.jumped,
        signature: g.sig,
        threads: g.threads.len(),
    };
    drop(g);
    (report, value)
}
