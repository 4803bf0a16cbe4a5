//! tokio-util: cancellation is the real code, the abort-on-drop handle wraps the
//! simulated join handle.
pub use real_tokio_util::sync;

pub mod task {
    use sim_tokio::task::{AbortHandle, JoinError, JoinHandle};
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    #[must_use]
    pub struct AbortOnDropHandle<T>(JoinHandle<T>);
    impl<T> Drop for AbortOnDropHandle<T> {
        fn drop(&mut self) {
            self.0.abort()
        }
    }
    impl<T> AbortOnDropHandle<T> {
        pub fn new(h: JoinHandle<T>) -> Self {
            Self(h)
        }
        pub fn abort(&self) {
            self.0.abort()
        }
        pub fn is_finished(&self) -> bool {
            self.0.is_finished()
        }
        pub fn abort_handle(&self) -> AbortHandle {
            self.0.abort_handle()
        }
    }
    impl<T> Future for AbortOnDropHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut self.0).poll(cx)
        }
    }
    impl<T> std::fmt::Debug for AbortOnDropHandle<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("AbortOnDropHandle")
        }
    }
}
