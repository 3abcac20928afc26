//! Just enough of `tokio::runtime` for code that grabs a handle to spawn on.
use std::future::Future;

#[derive(Clone, Debug)]
pub struct Handle(());

#[derive(Debug)]
pub struct TryCurrentError(());

impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        if crate::sim::in_task() {
            Ok(Handle(()))
        } else {
            Err(TryCurrentError(()))
        }
    }
    #[track_caller]
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
}
