//! Threads under the scheduler.
pub use ::std::thread::*;
use ::std::{
    io,
    marker::PhantomData,
    num::NonZeroUsize,
    string::String,
    sync::{Arc, Mutex},
    thread as real,
    time::Duration,
};

use crate::sim::{self, Key};

type Packet<T> = Arc<Mutex<Option<real::Result<T>>>>;

enum Handle<T> {
    Sim { id: usize, packet: Packet<T>, thread: real::Thread },
    Real(real::JoinHandle<T>),
}

pub struct JoinHandle<T>(Handle<T>);

impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("JoinHandle")
    }
}

fn wait_for(id: usize) {
    sim::point("join");
    while !sim::is_finished(id) {
        if !sim::block(Key::Join(id)) {
            break;
        }
    }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> real::Result<T> {
        match self.0 {
            Handle::Real(h) => h.join(),
            Handle::Sim { id, packet, .. } => {
                wait_for(id);
                let r = packet.lock().unwrap_or_else(|e| e.into_inner()).take();
                r.unwrap_or_else(|| Err(::std::boxed::Box::new("ended")))
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            Handle::Real(h) => h.is_finished(),
            Handle::Sim { id, .. } => {
                sim::point("is_finished");
                sim::is_finished(*id)
            }
        }
    }
    pub fn thread(&self) -> &real::Thread {
        match &self.0 {
            Handle::Real(h) => h.thread(),
            Handle::Sim { thread, .. } => thread,
        }
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}

impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, name: String) -> Self {
        self.name = Some(name);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack = Some(n);
        self
    }
    fn real(self) -> real::Builder {
        let mut b = real::Builder::new().stack_size(self.stack.unwrap_or(2 << 20).max(8 << 20));
        if let Some(n) = self.name {
            b = b.name(n);
        }
        b
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let Some((ctx, _)) = sim::current() else {
            return self.real().spawn(f).map(|h| JoinHandle(Handle::Real(h)));
        };
        sim::point("spawn");
        let id = sim::register().map_err(|()| io::Error::from_raw_os_error(11))?;
        let packet: Packet<T> = Arc::new(Mutex::new(None));
        let slot = packet.clone();
        let h = self.real().spawn(move || {
            sim::body(ctx, id, f, move |r| {
                *slot.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
            })
        })?;
        let thread = h.thread().clone();
        sim::adopt(h);
        sim::point("spawned");
        Ok(JoinHandle(Handle::Sim { id, packet, thread }))
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        scope: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        scope.start(self, f)
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub fn available_parallelism() -> io::Result<NonZeroUsize> {
    match sim::parallelism() {
        None => real::available_parallelism(),
        Some(n) => n
            .and_then(NonZeroUsize::new)
            .ok_or_else(|| io::Error::from(io::ErrorKind::Unsupported)),
    }
}

pub fn yield_now() {
    if sim::current().is_some() {
        sim::point("yield");
    } else {
        real::yield_now();
    }
}

pub fn sleep(d: Duration) {
    if sim::current().is_some() {
        sim::advance(d.as_nanos() as u64);
        sim::point("sleep");
    } else {
        real::sleep(d);
    }
}

// ---------------------------------------------------------------------------------------------
// Scoped threads
// ---------------------------------------------------------------------------------------------

#[repr(transparent)]
pub struct Scope<'scope, 'env: 'scope>(real::Scope<'scope, 'env>);

::std::thread_local! {
    static SCOPED: ::std::cell::RefCell<::std::vec::Vec<(usize, usize)>> =
        const { ::std::cell::RefCell::new(::std::vec::Vec::new()) };
}

enum ScopedInner<'scope, T> {
    Sim { id: usize, packet: Packet<T>, _p: PhantomData<&'scope ()> },
    Real(real::ScopedJoinHandle<'scope, T>),
}
pub struct ScopedJoinHandle<'scope, T>(ScopedInner<'scope, T>);

impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> real::Result<T> {
        match self.0 {
            ScopedInner::Real(h) => h.join(),
            ScopedInner::Sim { id, packet, .. } => {
                wait_for(id);
                let r = packet.lock().unwrap_or_else(|e| e.into_inner()).take();
                r.unwrap_or_else(|| Err(::std::boxed::Box::new("ended")))
            }
        }
    }
}

impl<'scope, 'env> Scope<'scope, 'env> {
    fn start<F, T>(&'scope self, b: Builder, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let Some((ctx, _)) = sim::current() else {
            return b.real().spawn_scoped(&self.0, f).map(|h| ScopedJoinHandle(ScopedInner::Real(h)));
        };
        sim::point("spawn");
        let id = sim::register().map_err(|()| io::Error::from_raw_os_error(11))?;
        let packet: Packet<T> = Arc::new(Mutex::new(None));
        let slot = packet.clone();
        b.real().spawn_scoped(&self.0, move || {
            sim::body(ctx, id, f, move |r| {
                *slot.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
            })
        })?;
        SCOPED.with(|s| s.borrow_mut().push((self as *const _ as usize, id)));
        sim::point("spawned");
        Ok(ScopedJoinHandle(ScopedInner::Sim { id, packet, _p: PhantomData }))
    }
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.start(Builder::new(), f).expect("failed to spawn thread")
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    real::scope(|s| {
        // SAFETY: Scope is a transparent wrapper.
        let w: &Scope<'_, 'env> = unsafe { &*(s as *const real::Scope<'_, 'env> as *const Scope<'_, 'env>) };
        let key = w as *const _ as usize;
        let r = f(w);
        let ids: ::std::vec::Vec<usize> = SCOPED.with(|s| {
            let mut v = s.borrow_mut();
            let mine = v.iter().filter(|x| x.0 == key).map(|x| x.1).collect();
            v.retain(|x| x.0 != key);
            mine
        });
        for id in ids {
            wait_for(id);
        }
        r
    })
}
