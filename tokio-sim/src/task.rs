use crate::sim;
use std::cell::UnsafeCell;
use std::fmt;
use std::future::Future;
use std::panic::Location;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub struct JoinError {
    cancelled: bool,
    payload: Option<Box<dyn std::any::Any + Send + 'static>>,
}

impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.cancelled
    }
    pub fn is_panic(&self) -> bool {
        !self.cancelled
    }
    pub fn into_panic(self) -> Box<dyn std::any::Any + Send + 'static> {
        self.payload.unwrap_or_else(|| Box::new("panic"))
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.cancelled {
            write!(f, "JoinError::Cancelled")
        } else {
            write!(f, "JoinError::Panic")
        }
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl std::error::Error for JoinError {}

struct JoinInner<T> {
    result: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
}
struct JoinCell<T>(UnsafeCell<JoinInner<T>>);
// One OS thread only.
unsafe impl<T> Send for JoinCell<T> {}
unsafe impl<T> Sync for JoinCell<T> {}

impl<T> JoinCell<T> {
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut JoinInner<T> {
        unsafe { &mut *self.0.get() }
    }
    fn finish(&self, r: Result<T, JoinError>) {
        let i = self.get();
        if i.done {
            return;
        }
        i.done = true;
        i.result = Some(r);
        if let Some(w) = i.waker.take() {
            w.wake();
        }
    }
}

pub struct JoinHandle<T> {
    id: sim::TaskId,
    cell: Arc<JoinCell<T>>,
}

impl<T> Unpin for JoinHandle<T> {}

#[derive(Clone)]
pub struct AbortHandle {
    id: sim::TaskId,
}

impl AbortHandle {
    pub fn abort(&self) {
        sim::abort(self.id)
    }
    pub fn is_finished(&self) -> bool {
        !sim::task_alive(self.id)
    }
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        sim::abort(self.id)
    }
    pub fn is_finished(&self) -> bool {
        self.cell.get().done
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { id: self.id }
    }
}

impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle")
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        sim::preempt();
        let i = self.cell.get();
        if let Some(r) = i.result.take() {
            return Poll::Ready(r);
        }
        i.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

struct Wrap<F: Future> {
    fut: Option<Pin<Box<F>>>,
    cell: Arc<JoinCell<F::Output>>,
}
impl<F: Future> Unpin for Wrap<F> {}
impl<F: Future> Future for Wrap<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = &mut *self;
        let f = me.fut.as_mut().unwrap();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => {
                me.drop_fut();
                me.cell.finish(Ok(v));
                Poll::Ready(())
            }
            Err(p) => {
                me.drop_fut();
                me.cell.finish(Err(JoinError { cancelled: false, payload: Some(p) }));
                Poll::Ready(())
            }
        }
    }
}
impl<F: Future> Wrap<F> {
    fn drop_fut(&mut self) {
        let f = self.fut.take();
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
    }
}
impl<F: Future> Drop for Wrap<F> {
    fn drop(&mut self) {
        if self.fut.is_some() {
            self.drop_fut();
        }
        self.cell.finish(Err(JoinError { cancelled: true, payload: None }));
    }
}

#[track_caller]
pub(crate) fn spawn_inner<F>(node: Option<sim::NodeId>, f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let cell = Arc::new(JoinCell(UnsafeCell::new(JoinInner { result: None, done: false, waker: None })));
    let w = Wrap { fut: Some(Box::pin(f)), cell: cell.clone() };
    let id = sim::add_task(node, Box::pin(w), Location::caller());
    sim::preempt();
    JoinHandle { id, cell }
}

#[track_caller]
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_inner(None, f)
}

#[track_caller]
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_inner(None, f)
}

#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_inner(None, async move { f() })
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                Poll::Ready(())
            } else {
                self.0 = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
    Y(false).await
}

pub async fn consume_budget() {}

pub mod coop {
    pub async fn consume_budget() {}
}

/// A small JoinSet (order of completion, abort on drop).
pub struct JoinSet<T> {
    handles: Vec<JoinHandle<T>>,
}
impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { handles: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.handles.len()
    }
    pub fn is_empty(&self) -> bool {
        self.handles.is_empty()
    }
    #[track_caller]
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub fn abort_all(&mut self) {
        for h in &self.handles {
            h.abort()
        }
    }
    pub fn detach_all(&mut self) {
        self.handles.clear()
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.handles.is_empty() {
            return None;
        }
        std::future::poll_fn(|cx| {
            for i in 0..self.handles.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
                    self.handles.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.handles {
            h.abort()
        }
    }
}
