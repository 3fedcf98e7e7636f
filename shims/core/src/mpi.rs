//! Stand-in for rsmpi: ranks are processes, messages are files in VP_MPI_DIR, windows are shared mappings.
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[allow(non_camel_case_types)]
pub struct ompi_win_t {
    pub base: *mut u8,
    pub len: usize,
}
pub struct Universe {
    rank: usize,
    size: usize,
    dir: String,
}
impl std::fmt::Debug for Universe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Universe({}/{})", self.rank, self.size)
    }
}
pub fn initialize() -> Option<Universe> {
    let g = |k: &str| std::env::var(k).ok();
    let dir = g("VP_MPI_DIR")?;
    Some(Universe { rank: g("VP_MPI_RANK")?.parse().ok()?, size: g("VP_MPI_SIZE")?.parse().ok()?, dir })
}
impl Universe {
    pub fn world(&self) -> SimpleCommunicator {
        SimpleCommunicator {
            dir: self.dir.clone(),
            ctx: "w".into(),
            ranks: (0..self.size).collect(),
            my: self.rank,
            seq: AtomicU64::new(0),
        }
    }
}
#[derive(Debug)]
pub struct SimpleCommunicator {
    dir: String,
    ctx: String,
    pub ranks: Vec<usize>,
    pub my: usize,
    seq: AtomicU64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Color(pub i32);
impl Color {
    pub fn with_value(v: i32) -> Self {
        Color(v)
    }
}
fn jitter() {
    // injected scheduling noise: lets one rank run ahead of the others
    if let Ok(s) = std::env::var("VP_MPI_JITTER_US") {
        if let Ok(n) = s.parse::<u64>() {
            if n > 0 {
                let mut b = [0u8; 8];
                use std::io::Read;
                if let Ok(mut f) = std::fs::File::open("/dev/urandom") {
                    let _ = f.read_exact(&mut b);
                }
                std::thread::sleep(Duration::from_micros(u64::from_le_bytes(b) % n));
            }
        }
    }
}
impl SimpleCommunicator {
    fn put(&self, name: &str, b: &[u8]) {
        jitter();
        let t = format!("{}/.t.{}.{}.{}", self.dir, self.ctx, name, self.my);
        std::fs::write(&t, b).expect("mpi put");
        std::fs::rename(&t, format!("{}/{}.{}", self.dir, self.ctx, name)).expect("mpi put");
    }
    fn get(&self, name: &str) -> Vec<u8> {
        let p = format!("{}/{}.{}", self.dir, self.ctx, name);
        let t0 = Instant::now();
        let lim = std::env::var("VP_MPI_TIMEOUT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120u64);
        loop {
            if let Ok(b) = std::fs::read(&p) {
                return b;
            }
            if t0.elapsed() > Duration::from_secs(lim) || !std::path::Path::new(&self.dir).exists() {
                eprintln!("mpi: timed out waiting for {p}");
                std::process::exit(77);
            }
            std::thread::sleep(Duration::from_micros(150));
        }
    }
    fn next(&self, op: &str) -> String {
        // the operation name is part of the message name: ranks that disagree on the next collective hang
        format!("{}.{}", self.seq.fetch_add(1, SeqCst), op)
    }
    pub fn bcast(&self, b: &[u8]) -> Vec<u8> {
        let n = self.next("bcast");
        if self.ranks.len() == 1 {
            return b.to_vec();
        }
        if self.my == 0 {
            self.put(&n, b);
            b.to_vec()
        } else {
            self.get(&n)
        }
    }
    pub fn gather(&self, b: &[u8]) -> Option<Vec<Vec<u8>>> {
        let n = self.next("gather");
        if self.my != 0 {
            self.put(&format!("{n}.{}", self.my), b);
            return None;
        }
        let mut o = vec![b.to_vec()];
        for r in 1..self.ranks.len() {
            o.push(self.get(&format!("{n}.{r}")));
        }
        Some(o)
    }
    pub fn allgather(&self, b: &[u8]) -> Vec<Vec<u8>> {
        let n = self.next("allgather");
        if self.ranks.len() == 1 {
            return vec![b.to_vec()];
        }
        self.put(&format!("{n}.{}", self.my), b);
        (0..self.ranks.len()).map(|r| self.get(&format!("{n}.{r}"))).collect()
    }
    pub fn barrier(&self) {
        self.allgather(&[]);
    }
    fn split(&self, color: i32, key: i32) -> SimpleCommunicator {
        let mut m = vec![];
        m.extend_from_slice(&color.to_le_bytes());
        m.extend_from_slice(&key.to_le_bytes());
        let s = self.seq.load(SeqCst);
        let all = self.allgather(&m);
        let mut mem: Vec<(i32, usize)> = vec![];
        for (r, b) in all.iter().enumerate() {
            if i32::from_le_bytes(b[..4].try_into().unwrap()) == color {
                mem.push((i32::from_le_bytes(b[4..].try_into().unwrap()), r));
            }
        }
        mem.sort();
        SimpleCommunicator {
            dir: self.dir.clone(),
            ctx: format!("{}_{}c{}", self.ctx, s, color),
            my: mem.iter().position(|x| x.1 == self.my).unwrap(),
            ranks: mem.iter().map(|x| self.ranks[x.1]).collect(),
            seq: AtomicU64::new(0),
        }
    }
}
pub mod environment {
    pub use super::Universe;
}
pub mod topology {
    pub use super::{Color, SimpleCommunicator};
}
pub mod traits {
    pub trait Communicator {
        fn size(&self) -> i32;
        fn rank(&self) -> i32;
        fn split_by_color_with_key(&self, c: super::Color, key: i32) -> Option<super::SimpleCommunicator>;
    }
    impl Communicator for super::SimpleCommunicator {
        fn size(&self) -> i32 {
            self.ranks.len() as i32
        }
        fn rank(&self) -> i32 {
            self.my as i32
        }
        fn split_by_color_with_key(&self, c: super::Color, key: i32) -> Option<super::SimpleCommunicator> {
            Some(self.split(c.0, key))
        }
    }
}
pub mod ffi {
    pub use super::ompi_win_t;
    /// # Safety
    /// Mirrors the C signature.
    #[allow(non_snake_case)]
    pub unsafe fn MPI_Finalize() -> i32 {
        crate::monitor::report_process();
        0
    }
}

pub fn create_window(world: Option<&SimpleCommunicator>, n: usize) -> (*mut u8, *mut ompi_win_t) {
    unsafe {
        let (base, len) = match world {
            None => {
                let len = n.max(1);
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    len,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                if p != libc::MAP_FAILED {
                    std::ptr::write_bytes(p as *mut u8, 0xA5, len);
                }
                (p, len)
            }
            Some(w) => {
                let id = w.seq.load(SeqCst);
                let path = format!("{}/win.{}.{}", w.dir, w.ctx, id);
                if w.my == 0 {
                    let f = std::fs::File::create(&path).unwrap();
                    std::io::Write::write_all(&mut &f, &vec![0xA5u8; n.max(1)]).unwrap();
                }
                let len = u64::from_le_bytes(w.bcast(&(n.max(1) as u64).to_le_bytes()).try_into().unwrap()) as usize;
                let f = std::fs::OpenOptions::new().read(true).write(true).open(&path).unwrap();
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    len,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED,
                    f.as_raw_fd(),
                    0,
                );
                (p, len)
            }
        };
        assert!(base != libc::MAP_FAILED);
        crate::monitor::register(base as *mut u8, len);
        crate::monitor::fence_tail(base as *mut u8, len, true);
        (base as *mut u8, Box::into_raw(Box::new(ompi_win_t { base: base as *mut u8, len })))
    }
}
pub fn free_window(win: *mut ompi_win_t) {
    if win.is_null() {
        return;
    }
    unsafe {
        let w = Box::from_raw(win);
        crate::monitor::fence_tail(w.base, w.len, false);
        crate::monitor::check_tail(w.base, w.len);
        // unmapped, so any later access through a vector that still aliases the window faults
        libc::munmap(w.base as *mut _, w.len);
        crate::monitor::unregister(w.base);
    }
}
