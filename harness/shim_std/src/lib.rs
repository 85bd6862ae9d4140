//! The standard library, except that arguments, standard input and output and the
//! end of the program are the harness's.
pub use ::std::*;

/// No more than this is read in one go.
const SHORT: usize = 64;

/// What the program gets and what it has printed.
pub struct World {
    pub args: Vec<String>,
    pub input: Vec<u8>,
    pub at: usize,
    pub out: Vec<u8>,
    pub end: Option<Box<dyn FnOnce(i32, Vec<u8>)>>,
}
pub static mut WORLD: World = World { args: Vec::new(), input: Vec::new(), at: 0, out: Vec::new(), end: None };
pub fn world() -> &'static mut World {
    unsafe { &mut *(&raw mut WORLD) }
}
extern "C" {
    fn sym_done() -> !;
}
pub fn finish(code: i32) -> ! {
    let w = world();
    let out = ::std::mem::take(&mut w.out);
    w.end.take().unwrap()(code, out);
    unsafe { sym_done() }
}

pub mod env {
    pub use ::std::env::*;
    pub fn args() -> ::std::vec::IntoIter<String> {
        super::world().args.clone().into_iter()
    }
    pub fn args_os() -> ::std::vec::IntoIter<::std::ffi::OsString> {
        let v: Vec<::std::ffi::OsString> = super::world().args.iter().map(|x| x.into()).collect();
        v.into_iter()
    }
}
pub mod process {
    pub use ::std::process::*;
    pub fn exit(code: i32) -> ! {
        super::finish(code)
    }
}
pub mod io {
    pub use ::std::io::*;
    pub struct Stdin;
    pub fn stdin() -> Stdin {
        Stdin
    }
    impl Stdin {
        pub fn lock(&self) -> Stdin {
            Stdin
        }
        pub fn read_line(&self, s: &mut String) -> Result<usize> {
            BufRead::read_line(&mut Stdin, s)
        }
        pub fn lines(self) -> Lines<Stdin> {
            BufRead::lines(self)
        }
    }
    impl Read for Stdin {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            let w = super::world();
            // (like a pipe that is written to little by little)
            let n = b.len().min(w.input.len() - w.at).min(super::SHORT);
            b[..n].copy_from_slice(&w.input[w.at..w.at + n]);
            w.at += n;
            Ok(n)
        }
    }
    impl BufRead for Stdin {
        fn fill_buf(&mut self) -> Result<&[u8]> {
            let w = super::world();
            Ok(&w.input[w.at..w.input.len().min(w.at + super::SHORT)])
        }
        fn consume(&mut self, n: usize) {
            super::world().at += n;
        }
    }
    pub struct Stdout;
    pub fn stdout() -> Stdout {
        Stdout
    }
    impl Stdout {
        pub fn lock(&self) -> Stdout {
            Stdout
        }
    }
    impl Write for Stdout {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            super::world().out.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    pub struct Stderr;
    pub fn stderr() -> Stderr {
        Stderr
    }
    impl Stderr {
        pub fn lock(&self) -> Stderr {
            Stderr
        }
    }
    impl Write for Stderr {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            Ok(b.len())
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    pub type StdinLock<'a> = Stdin;
    pub type StdoutLock<'a> = Stdout;
    pub type StderrLock<'a> = Stderr;
    impl Stdin {
        pub fn is_terminal(&self) -> bool {
            false
        }
    }
}
pub fn print_to(a: ::std::fmt::Arguments, nl: bool) {
    use ::std::io::Write;
    let mut o = io::stdout();
    o.write_fmt(a).unwrap();
    if nl {
        o.write_all(b"\n").unwrap();
    }
}
pub fn print_err(a: ::std::fmt::Arguments) {
    let _ = ::std::string::ToString::to_string(&a);
}
#[macro_export]
macro_rules! print {
    ($($x:tt)*) => { $crate::print_to($crate::format_args!($($x)*), false) };
}
#[macro_export]
macro_rules! println {
    () => { $crate::print_to($crate::format_args!(""), true) };
    ($($x:tt)*) => { $crate::print_to($crate::format_args!($($x)*), true) };
}
#[macro_export]
macro_rules! eprint {
    ($($x:tt)*) => { $crate::print_err($crate::format_args!($($x)*)) };
}
#[macro_export]
macro_rules! eprintln {
    () => {};
    ($($x:tt)*) => { $crate::print_err($crate::format_args!($($x)*)) };
}
