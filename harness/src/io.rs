//! Files and arguments: the operating system's, or (on wasm32, where there is
//! none) those of tools/wasm_run.mjs.
pub use imp::*;

#[cfg(not(target_arch = "wasm32"))]
mod imp {
    pub fn args() -> Vec<String> {
        std::env::args().collect()
    }
    pub fn has_var(name: &str) -> bool {
        std::env::var(name).is_ok()
    }
    pub fn read(path: &str) -> Vec<u8> {
        std::fs::read(path).expect("script file")
    }
    pub type Output = std::fs::File;
    pub fn create(path: &str) -> Output {
        std::fs::File::create(path).expect("output file")
    }
    pub fn progress(_: u64) {}
    pub fn complain(s: &str) {
        eprintln!("{s}");
    }
}

#[cfg(target_arch = "wasm32")]
mod imp {
    #[link(wasm_import_module = "host")]
    extern "C" {
        /// length of the i-th argument, -1 if there is none
        fn arg_len(i: usize) -> isize;
        fn arg_get(i: usize, to: *mut u8);
        fn var(name: *const u8, len: usize) -> usize;
        fn read_len(name: *const u8, len: usize) -> isize;
        fn read_get(to: *mut u8);
        fn create_file(name: *const u8, len: usize);
        fn write_file(from: *const u8, len: usize);
        fn ticked(id: usize);
        fn say(from: *const u8, len: usize);
    }
    fn fill(len: isize, get: impl FnOnce(*mut u8)) -> Vec<u8> {
        let mut v = vec![0; len.try_into().expect("host")];
        get(v.as_mut_ptr());
        v
    }
    pub fn args() -> Vec<String> {
        let mut r = vec![];
        loop {
            let i = r.len();
            let n = unsafe { arg_len(i) };
            if n < 0 {
                return r;
            }
            r.push(String::from_utf8(fill(n, |p| unsafe { arg_get(i, p) })).unwrap());
        }
    }
    pub fn has_var(name: &str) -> bool {
        unsafe { var(name.as_ptr(), name.len()) != 0 }
    }
    pub fn read(path: &str) -> Vec<u8> {
        fill(unsafe { read_len(path.as_ptr(), path.len()) }, |p| unsafe { read_get(p) })
    }
    pub struct Output;
    pub fn create(path: &str) -> Output {
        unsafe { create_file(path.as_ptr(), path.len()) };
        Output
    }
    impl std::io::Write for Output {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            unsafe { write_file(b.as_ptr(), b.len()) };
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    pub fn complain(s: &str) {
        unsafe { say(s.as_ptr(), s.len()) }
    }
    pub fn progress(id: u64) {
        unsafe { ticked(id as usize) }
    }
}

/// Panics of calls under observation are replies; say only what else goes wrong.
pub fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        if !crate::in_call() {
            complain(&i.to_string())
        }
    }));
}
