//! Stand-in for futures-timer: `Delay` fires when the model checker lets virtual time advance.
use std::{
    fmt,
    future::Future,
    pin::Pin,
    sync::{atomic::Ordering::SeqCst, Arc},
    task::{Context, Poll},
    time::Duration,
};

use mcrt::sched::{arm_delay, cancel_delay, new_delay, DelayState};

pub struct Delay {
    state: Arc<DelayState>,
}

impl Delay {
    pub fn new(dur: Duration) -> Delay {
        Delay {
            state: new_delay(dur),
        }
    }

    pub fn reset(&mut self, dur: Duration) {
        arm_delay(&self.state, dur);
    }
}

impl Future for Delay {
    type Output = ();

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.state.fired.load(SeqCst) {
            Poll::Ready(())
        } else {
            *self.state.waker.lock().unwrap() = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

impl Drop for Delay {
    fn drop(&mut self) {
        cancel_delay(&self.state);
    }
}

impl fmt::Debug for Delay {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Delay").finish()
    }
}
