//! A scratch directory, removed at the end.
use std::path::PathBuf;
use std::sync::Mutex;
static DIR: Mutex<Option<PathBuf>> = Mutex::new(None);

pub fn dir() -> PathBuf {
    let mut g = DIR.lock().unwrap();
    if g.is_none() {
        let d = std::env::temp_dir().join(format!("vx-replay-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        *g = Some(d.canonicalize().unwrap());
    }
    g.clone().unwrap()
}
/// A fresh subdirectory.
pub fn fresh() -> PathBuf {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let k = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let d = dir().join(format!("s{}", k));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
pub fn remove() {
    if let Some(d) = DIR.lock().unwrap().take() {
        std::fs::remove_dir_all(&d).ok();
    }
}
pub struct Fresh(pub PathBuf);
impl Drop for Fresh {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}
pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
}
