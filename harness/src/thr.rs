//! Persistent helper threads (each with its own thread-local caches of the library).
use std::any::Any;
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Barrier};

type Job = Box<dyn FnOnce() + Send>;
pub struct Pool {
    tx: Vec<Sender<Job>>,
}
fn text(p: Box<dyn Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}
impl Pool {
    pub fn new(n: usize) -> Pool {
        let tx = (0..n)
            .map(|_| {
                let (tx, rx) = channel::<Job>();
                std::thread::spawn(move || {
                    for j in rx {
                        j();
                    }
                });
                tx
            })
            .collect();
        Pool { tx }
    }
    pub fn len(&self) -> usize {
        self.tx.len()
    }
    /// run on thread i and wait; a panic comes back as an error
    pub fn on<R: Send + 'static>(&self, i: usize, f: impl FnOnce() -> R + Send + 'static) -> Result<R, String> {
        self.start(i, f)()
    }
    pub fn start<R: Send + 'static>(&self, i: usize, f: impl FnOnce() -> R + Send + 'static) -> impl FnOnce() -> Result<R, String> {
        let (tx, rx) = channel();
        let job: Job = Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(text);
            let _ = tx.send(r);
        });
        self.tx[i].send(job).unwrap();
        move || rx.recv().unwrap()
    }
    /// run all at the same time on threads 0.., started together
    pub fn all<R: Send + 'static>(&self, fs: Vec<Box<dyn FnOnce() -> R + Send>>) -> Vec<Result<R, String>> {
        let bar = Arc::new(Barrier::new(fs.len()));
        let w: Vec<_> = fs
            .into_iter()
            .enumerate()
            .map(|(i, f)| {
                let bar = bar.clone();
                self.start(i, move || {
                    bar.wait();
                    f()
                })
            })
            .collect();
        w.into_iter().map(|g| g()).collect()
    }
}
thread_local! {
    static POOL: &'static Pool = Box::leak(Box::new(Pool::new(8)));
}
pub fn pool() -> &'static Pool {
    POOL.with(|p| *p)
}
