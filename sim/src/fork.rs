//! Run a closure in a forked copy of this process and hand back its bytes.

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// None when the copy ended without an answer
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    let mut p = [0i32; 2];
    unsafe {
        if pipe(p.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            close(p[0]);
            let v = f();
            let mut i = 0;
            while i < v.len() {
                let k = write(p[1], v[i..].as_ptr().cast(), v.len() - i);
                if k <= 0 {
                    _exit(1);
                }
                i += k as usize;
            }
            _exit(0);
        }
        close(p[1]);
        let mut v = Vec::new();
        let mut b = [0u8; 8192];
        loop {
            let k = read(p[0], b.as_mut_ptr().cast(), b.len());
            if k <= 0 {
                break;
            }
            v.extend_from_slice(&b[..k as usize]);
        }
        close(p[0]);
        let mut st = 0;
        let w = waitpid(pid, &mut st, 0);
        (w == pid && st == 0).then_some(v)
    }
}

/// Writer and reader of what is handed back
#[derive(Default)]
pub struct Out(pub Vec<u8>);
impl Out {
    pub fn n(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    pub fn s(&mut self, v: &str) {
        self.n(v.len() as u64);
        self.0.extend_from_slice(v.as_bytes());
    }
}
pub struct In<'a>(pub &'a [u8]);
impl In<'_> {
    pub fn n(&mut self) -> u64 {
        let mut b = [0; 8];
        let k = self.0.len().min(8);
        b[..k].copy_from_slice(&self.0[..k]);
        self.0 = &self.0[k..];
        u64::from_le_bytes(b)
    }
    pub fn s(&mut self) -> String {
        let n = (self.n() as usize).min(self.0.len());
        let s = String::from_utf8_lossy(&self.0[..n]).into_owned();
        self.0 = &self.0[n..];
        s
    }
}
