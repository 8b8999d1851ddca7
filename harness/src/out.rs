//! Trace output, watchdog and panic capture shared by all machines.
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static TICKS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

pub struct Trace {
    log: std::io::BufWriter<std::fs::File>,
    script: std::io::BufWriter<std::fs::File>,
    pub events: u64,
}

pub enum Out {
    Ok,
    Err(String),
    Panic,
}

impl Out {
    pub fn status(&self) -> &'static str {
        match self {
            Out::Ok => "ok",
            Out::Err(_) => "err",
            Out::Panic => "panic",
        }
    }
    pub fn err(&self) -> &str {
        match self {
            Out::Err(e) => e,
            _ => "",
        }
    }
    pub fn json(&self) -> String {
        format!("\"s\":\"{}\",\"e\":\"{}\"", self.status(), self.err())
    }
}

impl Trace {
    pub fn new(path: &str) -> Self {
        let log = std::fs::File::create(path).expect("trace file");
        let script = std::fs::File::create(format!("{}.script", path)).expect("script file");
        Trace { log: std::io::BufWriter::new(log), script: std::io::BufWriter::new(script), events: 0 }
    }
    /// One executed call: the JSON body of the event and the script line that reproduces it.
    pub fn event(&mut self, body: &str, script: &str) {
        self.events += 1;
        writeln!(self.log, "{{{}}}", body).unwrap();
        writeln!(self.script, "{}", script).unwrap();
    }
    pub fn finish(&mut self) {
        self.log.flush().unwrap();
        self.script.flush().unwrap();
    }
}

/// Name the call about to run so that the watchdog can report it.
pub fn begin(desc: &str) {
    TICKS.fetch_add(1, Ordering::SeqCst);
    let mut c = CURRENT.lock().unwrap();
    c.clear();
    c.push_str(desc);
}

/// A call that does not return within `secs` ends the run with exit code 3 and a hang record.
pub fn watchdog(path: String, secs: u64) {
    std::thread::spawn(move || {
        let mut last = TICKS.load(Ordering::SeqCst);
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = TICKS.load(Ordering::SeqCst);
            if now != last {
                last = now;
                idle = 0;
            } else {
                idle += 1;
                if idle >= secs {
                    let c = CURRENT.lock().unwrap().clone();
                    std::fs::write(format!("{}.hang", path), c).ok();
                    std::process::exit(3);
                }
            }
        }
    });
}

/// Run a call, turning errors into their name and panics into data.
pub fn guard<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> Result<T, Out> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(Out::Err(crate::tok::errname(e))),
        Err(_) => Err(Out::Panic),
    }
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}

/// Run a call and return what it wrote to the standard output besides its result.
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, String) {
    let (mut end, start) = std::io::pipe().expect("pipe");
    let mut out = std::io::stdout();
    out.flush().unwrap();
    let kept = unsafe { dup(1) };
    assert!(kept >= 0 && unsafe { dup2(std::os::fd::AsRawFd::as_raw_fd(&start), 1) } == 1);
    let r = f();
    out.flush().unwrap();
    assert!(unsafe { dup2(kept, 1) } == 1);
    drop(unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(kept) });
    drop(start);
    let mut text = String::new();
    end.read_to_string(&mut text).expect("text");
    (r, text)
}

/// Numbers written, line by line: thousandths (clipped) and bits of the nearest f32 of each word.
pub fn shown(text: &str) -> String {
    let line = |l: &str| {
        let w: Vec<String> = l
            .split_whitespace()
            .map(|w| match w.parse::<f64>() {
                Ok(v) if v.is_finite() => {
                    format!("[{},{}]", (v * 1000.0).round().clamp(-1073741824.0, 1073741824.0) as i64, (v as f32).to_bits() as i32)
                }
                _ => "[]".into(),
            })
            .collect();
        format!("[{}]", w.join(","))
    };
    let l: Vec<String> = text.lines().filter(|l| !l.trim().is_empty()).map(line).collect();
    format!("[{}]", l.join(","))
}
