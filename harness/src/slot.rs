//! Futures of the code under test, polled by hand and only when they asked to be woken:
//! a wake-up the code forgets shows as an operation that stays pending.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub struct Slot<T> {
    fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    flag: Arc<Flag>,
    pub done: Option<T>,
    pub panicked: bool,
}

impl<T> Slot<T> {
    pub fn new(fut: impl Future<Output = T> + 'static) -> Self {
        Slot { fut: Some(Box::pin(fut)), flag: Arc::new(Flag(AtomicBool::new(true))), done: None, panicked: false }
    }
    pub fn pending(&self) -> bool {
        self.fut.is_some()
    }
    pub fn wants_poll(&self) -> bool {
        self.fut.is_some() && self.flag.0.load(Ordering::SeqCst)
    }
    /// Polls if woken; says whether it did.
    pub fn drive(&mut self) -> bool {
        if !self.wants_poll() {
            return false;
        }
        self.flag.0.store(false, Ordering::SeqCst);
        let waker: Waker = self.flag.clone().into();
        let mut cx = Context::from_waker(&waker);
        let fut = self.fut.as_mut().unwrap();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(v)) => {
                self.fut = None;
                self.done = Some(v);
            }
            Err(_) => {
                self.panicked = true;
                self.fut = None;
            }
        }
        true
    }
    pub fn cancel(&mut self) {
        let fut = self.fut.take();
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(fut))).is_err() {
            self.panicked = true;
        }
    }
}
