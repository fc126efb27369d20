//! Small JSON writer, panic capture and logging of traces.
use std::fmt;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum J {
    I(i64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            J::I(i) => write!(f, "{}", i),
            J::B(b) => write!(f, "{}", b),
            J::S(s) => {
                write!(f, "\"")?;
                for c in s.chars() {
                    match c {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        '\n' => write!(f, "\\n")?,
                        c if (c as u32) < 32 => write!(f, " ")?,
                        c => write!(f, "{}", c)?,
                    }
                }
                write!(f, "\"")
            }
            J::A(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{}", x)?;
                }
                write!(f, "]")
            }
            J::O(v) => {
                write!(f, "{{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "\"{}\":{}", k, x)?;
                }
                write!(f, "}}")
            }
        }
    }
}
macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for J { fn from(x: $t) -> J { J::I(x as i64) } })* } }
from_int!(i64, u64, i32, u32, usize, u8, u16);
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::B(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::S(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::S(x)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::A(x.into_iter().map(|i| i.into()).collect())
    }
}
impl<A: Into<J>, B: Into<J>> From<(A, B)> for J {
    fn from(x: (A, B)) -> J {
        J::A(vec![x.0.into(), x.1.into()])
    }
}
impl<A: Into<J>, B: Into<J>, C: Into<J>> From<(A, B, C)> for J {
    fn from(x: (A, B, C)) -> J {
        J::A(vec![x.0.into(), x.1.into(), x.2.into()])
    }
}
#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => { $crate::util::J::O(vec![$(($k, $crate::util::J::from($v))),*]) };
}

pub struct Log {
    out: BufWriter<File>,
    pub lines: usize,
}
impl Log {
    pub fn create(path: &str) -> Log {
        Log {
            out: BufWriter::with_capacity(1 << 20, File::create(path).expect("create trace file")),
            lines: 0,
        }
    }
    pub fn put(&mut self, j: J) {
        writeln!(self.out, "{}", j).expect("write trace");
        self.lines += 1;
    }
    pub fn finish(mut self) {
        self.out.flush().unwrap();
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{} at {}", msg, loc);
    }));
}

/// Run code under test; a panic there is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone())
}

pub fn flag(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
pub fn num(args: &[String], name: &str, default: u64) -> u64 {
    flag(args, name).map(|s| s.parse().expect("number")).unwrap_or(default)
}

pub fn pick<'a, T>(rng: &fastrand::Rng, v: &'a [T]) -> &'a T {
    &v[rng.usize(..v.len())]
}
pub fn chance(rng: &fastrand::Rng, pct: u32) -> bool {
    rng.u32(..100) < pct
}

/// Scratch directory removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
        let p = std::path::Path::new(&base).join(format!("nkh-{}-{}", tag, std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
