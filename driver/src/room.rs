//! A limit on the size of files written by this process: writes beyond it are cut short or fail, as they do
//! on a disk that has no more room. Only the soft limit is changed, and restored on drop.

#[repr(C)]
#[derive(Clone, Copy)]
struct Limits {
    soft: u64,
    hard: u64,
}

extern "C" {
    fn getrlimit(resource: i32, limits: *mut Limits) -> i32;
    fn setrlimit(resource: i32, limits: *const Limits) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}

const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;

pub struct Room(Limits);

impl Room {
    pub fn limit(bytes: u64) -> Room {
        let mut old = Limits { soft: 0, hard: 0 };
        unsafe {
            signal(SIGXFSZ, SIG_IGN);
            assert!(getrlimit(RLIMIT_FSIZE, &mut old) == 0);
            assert!(setrlimit(RLIMIT_FSIZE, &Limits { soft: bytes, hard: old.hard }) == 0);
        }
        Room(old)
    }
}

impl Drop for Room {
    fn drop(&mut self) {
        unsafe {
            setrlimit(RLIMIT_FSIZE, &self.0);
        }
    }
}
