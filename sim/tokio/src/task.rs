//! Tasks on the simulated executor.
use crate::sim::{self, AbortWhy};
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub use tokio_real::task::{coop, unconstrained};
pub mod futures {
    pub use tokio_real::task::futures::*;
}

pub struct JoinError {
    why: Why,
}
enum Why {
    Cancelled,
    Panic(Mutex<Box<dyn Any + Send + 'static>>),
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        matches!(self.why, Why::Cancelled)
    }
    pub fn is_panic(&self) -> bool {
        matches!(self.why, Why::Panic(_))
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.try_into_panic().ok().expect("not a panic")
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        match self.why {
            Why::Panic(p) => Ok(p.into_inner().unwrap()),
            w => Err(JoinError { why: w }),
        }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "JoinError::Panic" } else { "JoinError::Cancelled" })
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "task panicked" } else { "task was cancelled" })
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}

struct Shared<T> {
    result: Option<Result<T, JoinError>>,
    finished: bool,
    waker: Option<Waker>,
}

pub struct JoinHandle<T> {
    id: usize,
    sh: Arc<Mutex<Shared<T>>>,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle({})", self.id)
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        sim::abort_task(self.id)
    }
    pub fn is_finished(&self) -> bool {
        self.sh.lock().unwrap().finished
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { id: self.id }
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let coop = std::task::ready!(coop::poll_proceed(cx));
        let mut s = self.sh.lock().unwrap();
        if let Some(r) = s.result.take() {
            coop.made_progress();
            return Poll::Ready(r);
        }
        assert!(!s.finished, "JoinHandle polled after completion");
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

#[derive(Clone, Debug)]
pub struct AbortHandle {
    id: usize,
}
impl AbortHandle {
    pub fn abort(&self) {
        sim::abort_task(self.id)
    }
}

fn spawn_inner<F>(fut: F, label: Arc<str>, node: Option<u32>) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let sh = Arc::new(Mutex::new(Shared { result: None, finished: false, waker: None }));
    let s2 = sh.clone();
    let s3 = sh.clone();
    fn complete<T>(s: &Arc<Mutex<Shared<T>>>, r: Result<T, JoinError>) {
        let w = {
            let mut g = s.lock().unwrap();
            g.result = Some(r);
            g.finished = true;
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    let id = sim::spawn_task(
        Box::pin(async move {
            let v = fut.await;
            complete(&s2, Ok(v));
        }),
        label,
        node,
        Box::new(move |why| {
            let why = match why {
                AbortWhy::Cancelled => Why::Cancelled,
                AbortWhy::Panic(p) => Why::Panic(Mutex::new(p)),
            };
            complete(&s3, Err(JoinError { why }));
        }),
    );
    JoinHandle { id, sh }
}

#[track_caller]
fn here() -> Arc<str> {
    let l = std::panic::Location::caller();
    format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()).into()
}

#[track_caller]
pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_inner(future, here(), None)
}
#[track_caller]
pub fn spawn_local<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_inner(future, here(), None)
}
/// Simulator API: spawn on a named node.
pub fn spawn_node<F>(node: u32, label: &str, future: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_inner(future, label.into(), Some(node))
}
#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_inner(async move { f() }, here(), None)
}
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |_cx| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        sim::mark_yield();
        Poll::Pending
    })
    .await
}

pub struct JoinSet<T> {
    v: Vec<JoinHandle<T>>,
}
impl<T> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> fmt::Debug for JoinSet<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinSet({})", self.v.len())
    }
}
impl<T> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { v: vec![] }
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn abort_all(&mut self) {
        for h in &self.v {
            h.abort();
        }
    }
    pub fn detach_all(&mut self) {
        self.v.clear();
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.v.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.v.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) {
                self.v.remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        for i in 0..self.v.len() {
            if self.v[i].is_finished() {
                let h = self.v.remove(i);
                let r = h.sh.lock().unwrap().result.take();
                return r;
            }
        }
        None
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}
impl<T: Send + 'static> JoinSet<T> {
    #[track_caller]
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
    {
        let h = spawn_inner(f, here(), None);
        let a = h.abort_handle();
        self.v.push(h);
        a
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        self.abort_all();
    }
}

thread_local! { static _UNUSED: RefCell<()> = const { RefCell::new(()) }; }
