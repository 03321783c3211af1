use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// How far the clocks of this process run ahead of the real ones.
static AHEAD: AtomicI64 = AtomicI64::new(0);

fn real(id: libc::clockid_t) -> libc::timespec {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, &mut t) };
    t
}
/// Takes the place of the C library's: what the code under test knows of the time.
/// # Safety
/// As for the C library's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    *t = real(id);
    if id == libc::CLOCK_MONOTONIC || id == libc::CLOCK_REALTIME || id == libc::CLOCK_BOOTTIME {
        (*t).tv_sec += AHEAD.load(Ordering::SeqCst);
    }
    0
}
/// A long time passes in which nothing happens.
pub fn long_pause() {
    AHEAD.fetch_add(3700, Ordering::SeqCst);
}

pub static PANICS: AtomicUsize = AtomicUsize::new(0);
static PANIC_TEXT: Mutex<String> = Mutex::new(String::new());

/// Panics of the code under test are data: count them and keep quiet.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        PANICS.fetch_add(1, Ordering::SeqCst);
        if let Ok(mut t) = PANIC_TEXT.lock() {
            *t = info.to_string();
        }
    }));
}
pub fn panics() -> usize {
    PANICS.load(Ordering::SeqCst)
}
pub fn panic_text() -> String {
    PANIC_TEXT.lock().map(|t| t.clone()).unwrap_or_default()
}

/// A subscriber that is interested in everything plusendi says, so that every
/// event's fields are evaluated and formatted.
pub struct Loud;
struct Fmt(String);
impl tracing::field::Visit for Fmt {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        use std::fmt::Write;
        self.0.clear();
        let _ = write!(self.0, "{}={:?}", f, v);
    }
}
impl tracing::Subscriber for Loud {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("plusendi")
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut Fmt(String::new()));
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut Fmt(String::new()));
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut Fmt(String::new()));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
pub fn trace_on() {
    let _ = tracing::subscriber::set_global_default(Loud);
}

/// Watches the work of the main thread from outside: a step that burns CPU (or sits
/// still) for far longer than any step can is recorded and the process is left.
pub struct Watchdog {
    cpu_limit: Duration,
    wall_limit: Duration,
}
static STEP: AtomicU64 = AtomicU64::new(0);
static HANG: Mutex<Option<Box<dyn FnOnce(&str) + Send>>> = Mutex::new(None);

fn clock(id: libc::clockid_t) -> Duration {
    let t = real(id);
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}
fn cpu() -> Duration {
    clock(libc::CLOCK_PROCESS_CPUTIME_ID)
}
pub fn thread_cpu() -> Duration {
    clock(libc::CLOCK_THREAD_CPUTIME_ID)
}

impl Watchdog {
    pub fn start(cpu_limit: Duration, wall_limit: Duration) {
        let t0 = Instant::now();
        long_pause();
        assert!(t0.elapsed() > Duration::from_secs(3000), "the clock is not ours");
        let w = Watchdog { cpu_limit, wall_limit };
        std::thread::spawn(move || w.run());
    }
    fn run(self) {
        let (mut step, mut c0, mut t0) = (STEP.load(Ordering::SeqCst), cpu(), clock(libc::CLOCK_MONOTONIC));
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let s = STEP.load(Ordering::SeqCst);
            if s != step {
                step = s;
                c0 = cpu();
                t0 = clock(libc::CLOCK_MONOTONIC);
                continue;
            }
            let why = if cpu() - c0 > self.cpu_limit {
                "spin"
            } else if clock(libc::CLOCK_MONOTONIC) - t0 > self.wall_limit {
                "stuck"
            } else {
                continue;
            };
            if let Some(f) = HANG.lock().unwrap().take() {
                f(why);
                std::process::exit(77);
            }
            step = u64::MAX;
        }
    }
}
pub fn step() {
    STEP.fetch_add(1, Ordering::SeqCst);
}
/// What to do if the current step never ends; `None` when no step is running.
pub fn on_hang(f: Option<Box<dyn FnOnce(&str) + Send>>) {
    step();
    *HANG.lock().unwrap() = f;
    step();
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|b| b.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
pub fn jb(b: &[u8]) -> Value {
    json!(b)
}
pub fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("utf8")
}

pub struct Out(std::io::BufWriter<std::fs::File>);
impl Out {
    pub fn append(path: &str) -> Out {
        Out(std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap()))
    }
    pub fn line(&mut self, v: &Value) {
        writeln!(self.0, "{}", v).unwrap();
        self.0.flush().unwrap();
    }
}
