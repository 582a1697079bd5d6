//! A scheduler that picks, at random, one of the tasks that can go on, and knows when none can.
use mon::Rng;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool, std::thread::Thread);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
        self.1.unpark();
    }
}
pub type Task<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;
struct Slot<'a> {
    name: &'static str,
    task: Option<Task<'a>>,
    flag: Arc<Flag>,
}
#[derive(Default)]
pub struct Exec<'a> {
    slots: Vec<Slot<'a>>,
    pub steps: u64,
}
#[derive(Debug, PartialEq)]
pub enum End {
    /// all tasks are done
    Done,
    /// these tasks wait for something that no other task will do
    Stuck(Vec<&'static str>),
    /// more steps than any history takes
    Endless(Vec<&'static str>),
}
impl<'a> Exec<'a> {
    pub fn add(&mut self, name: &'static str, f: impl Future<Output = ()> + 'a) {
        self.slots.push(Slot { name, task: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true), std::thread::current())) })
    }
    /// Runs until nothing can go on. While `outside` says so, other threads may still wake a task.
    pub fn run(&mut self, r: &mut Rng, outside: &dyn Fn() -> bool) -> End {
        loop {
            let ready: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].task.is_some() && self.slots[*i].flag.0.load(Ordering::SeqCst)).collect();
            if ready.is_empty() {
                let waiting: Vec<_> = self.slots.iter().filter(|s| s.task.is_some()).map(|s| s.name).collect();
                if waiting.is_empty() {
                    return End::Done;
                }
                if outside() {
                    std::thread::park_timeout(std::time::Duration::from_millis(5));
                    continue;
                }
                if self.slots.iter().any(|s| s.task.is_some() && s.flag.0.load(Ordering::SeqCst)) {
                    continue;
                }
                return End::Stuck(waiting);
            }
            if self.steps > 100_000 && !outside() {
                return End::Endless(self.slots.iter().filter(|s| s.task.is_some()).map(|s| s.name).collect());
            }
            let s = &mut self.slots[*r.pick(&ready)];
            s.flag.0.store(false, Ordering::SeqCst);
            self.steps += 1;
            let waker = Waker::from(s.flag.clone());
            if let Poll::Ready(()) = s.task.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker)) {
                s.task = None
            }
        }
    }
}
/// Lets others go first, so many times.
pub async fn pause(n: u64) {
    for _ in 0..n {
        let mut once = false;
        std::future::poll_fn(|c| {
            if std::mem::replace(&mut once, true) {
                return Poll::Ready(());
            }
            c.waker().wake_by_ref();
            Poll::Pending
        })
        .await
    }
}
/// The result of a future that never has to wait.
pub fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(Flag(AtomicBool::new(false), std::thread::current())));
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(t) => t,
        Poll::Pending => mon::violation("adding a block waits for something"),
    }
}
