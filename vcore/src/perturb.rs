//! Schedule perturbation: an injector thread sends SIGUSR1 to random threads
//! of this process (workload threads and the SDK's own workers alike) at
//! random instants; the handler sleeps a random short time, i.e. it pre-empts
//! the thread at an arbitrary instruction.
use crate::Rng;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Once};

static INSTALL: Once = Once::new();
pub static PREEMPTIONS: AtomicU64 = AtomicU64::new(0);
static STATE: AtomicU64 = AtomicU64::new(0x9E3779B97F4A7C15);

extern "C" fn on_signal(_: libc::c_int) {
    unsafe {
        let e = *libc::__errno_location();
        let mut x = STATE.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed);
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        x ^= x >> 27;
        let us = match x % 8 {
            0 => 0,
            1..=4 => x / 8 % 60,
            5 | 6 => x / 8 % 400,
            _ => x / 8 % 2500,
        };
        if us == 0 {
            libc::sched_yield();
        } else {
            let ts = libc::timespec { tv_sec: 0, tv_nsec: (us * 1000) as i64 };
            libc::nanosleep(&ts, std::ptr::null_mut());
        }
        PREEMPTIONS.fetch_add(1, Ordering::Relaxed);
        *libc::__errno_location() = e;
    }
}

fn install() {
    INSTALL.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_RESTART;
        libc::sigemptyset(&mut sa.sa_mask);
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    });
}

pub struct Injector {
    stop: Arc<AtomicBool>,
    join: Option<std::thread::JoinHandle<()>>,
}
impl Injector {
    /// `mean_gap_us`: mean time between two pre-emptions (process wide).
    pub fn start(seed: u64, mean_gap_us: u64) -> Injector {
        install();
        STATE.fetch_xor(seed, Ordering::Relaxed);
        let stop = Arc::new(AtomicBool::new(false));
        let st = stop.clone();
        let join = std::thread::Builder::new()
            .name("injector".into())
            .spawn(move || {
                let mut r = Rng::new(seed, 777);
                let me = unsafe { libc::syscall(libc::SYS_gettid) };
                let pid = std::process::id() as libc::c_long;
                let mut tids: Vec<i64> = vec![];
                let mut n = 0u64;
                while !st.load(Ordering::Relaxed) {
                    if n % 16 == 0 {
                        tids.clear();
                        if let Ok(d) = std::fs::read_dir("/proc/self/task") {
                            tids.extend(d.flatten().filter_map(|e| e.file_name().to_str()?.parse::<i64>().ok()).filter(|t| *t != me));
                        }
                    }
                    n += 1;
                    std::thread::sleep(std::time::Duration::from_micros(r.below(2 * mean_gap_us.max(1) + 1)));
                    if !tids.is_empty() {
                        // SAFETY: tgkill to a thread id of this very process; a finished thread gives ESRCH
                        unsafe { libc::syscall(libc::SYS_tgkill, pid, tids[r.idx(tids.len())], libc::SIGUSR1 as libc::c_long) };
                    }
                }
            })
            .unwrap();
        Injector { stop, join: Some(join) }
    }
}
impl Drop for Injector {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(j) = self.join.take() {
            let _ = j.join();
        }
    }
}
