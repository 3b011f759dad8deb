//! Running one execution in a process of its own, so that it starts from the
//! state the library has before its first use, whatever was explored before.
//! The values handed back are plain bytes over a pipe.
use std::io::Read;
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// What `f` returned in a forked process; or how that process ended.
pub fn isolated(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "harness: pipe");
        let pid = fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0); // die with the parent
            close(fds[0]);
            let out = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(o) => o,
                Err(_) => _exit(99),
            };
            let mut at = 0;
            while at < out.len() {
                let n = write(fds[1], out[at..].as_ptr(), out.len() - at);
                if n <= 0 {
                    _exit(98);
                }
                at += n as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut out = vec![];
        let read = r.read_to_end(&mut out);
        let mut status = 0i32;
        waitpid(pid, &mut status, 0);
        if status != 0 {
            return Err(if status & 0x7f != 0 {
                format!("the process died of signal {} (memory corruption or abort)", status & 0x7f)
            } else {
                format!("the process exited with code {}", (status >> 8) & 0xff)
            });
        }
        read.map_err(|e| e.to_string())?;
        Ok(out)
    }
}

/// A byte string with just enough structure.
#[derive(Default)]
pub struct Pack {
    pub bytes: Vec<u8>,
    at: usize,
}

impl Pack {
    pub fn of(bytes: Vec<u8>) -> Pack {
        Pack { bytes, at: 0 }
    }
    pub fn u64(&mut self, x: u64) {
        self.bytes.extend_from_slice(&x.to_le_bytes());
    }
    pub fn str(&mut self, s: &str) {
        self.u64(s.len() as u64);
        self.bytes.extend_from_slice(s.as_bytes());
    }
    pub fn u32s(&mut self, v: &[u32]) {
        self.u64(v.len() as u64);
        for x in v {
            self.bytes.extend_from_slice(&x.to_le_bytes());
        }
    }
    pub fn f64s(&mut self, v: &[f64]) {
        self.u64(v.len() as u64);
        for x in v {
            self.u64(x.to_bits());
        }
    }
    fn take(&mut self, n: usize) -> &[u8] {
        self.at += n;
        &self.bytes[self.at - n..self.at]
    }
    pub fn get_u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn get_str(&mut self) -> String {
        let n = self.get_u64() as usize;
        String::from_utf8_lossy(self.take(n)).into_owned()
    }
    pub fn get_u32s(&mut self) -> Vec<u32> {
        let n = self.get_u64() as usize;
        (0..n).map(|_| u32::from_le_bytes(self.take(4).try_into().unwrap())).collect()
    }
    pub fn get_f64s(&mut self) -> Vec<f64> {
        let n = self.get_u64() as usize;
        (0..n).map(|_| f64::from_bits(self.get_u64())).collect()
    }
}

/// A numeric answer computed in a process of its own.
pub fn isolated_answer(f: impl FnOnce() -> Result<Vec<f64>, String>) -> Result<Vec<f64>, String> {
    let mut p = Pack::of(isolated(|| {
        let mut p = Pack::default();
        match f() {
            Ok(v) => {
                p.u64(0);
                p.f64s(&v);
            }
            Err(e) => {
                p.u64(1);
                p.str(&e);
            }
        }
        p.bytes
    })?);
    match p.get_u64() {
        0 => Ok(p.get_f64s()),
        _ => Err(p.get_str()),
    }
}
