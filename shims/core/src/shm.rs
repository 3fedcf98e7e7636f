//! Stand-in for `shared_memory`: named regions backed by files in VP_SHM_DIR.
use std::os::fd::AsRawFd;

fn path(n: &str) -> String {
    let d = std::env::var("VP_SHM_DIR").expect("VP_SHM_DIR not set");
    format!("{d}/shm.{n}")
}
#[derive(Debug)]
pub enum ShmemError {
    LinkExists,
    LinkDoesNotExist,
    Other,
}
pub struct Shmem {
    base: *mut u8,
    len: usize,
    owner: Option<String>,
}
unsafe impl Send for Shmem {}
unsafe impl Sync for Shmem {}
impl Shmem {
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn as_ptr(&self) -> *mut u8 {
        self.base
    }
}
impl Drop for Shmem {
    fn drop(&mut self) {
        crate::monitor::unregister(self.base);
        crate::monitor::fence_tail(self.base, self.len, false);
        crate::monitor::check_tail(self.base, self.len);
        unsafe { libc::munmap(self.base as *mut _, self.len.max(1)) };
        if let Some(p) = &self.owner {
            let _ = std::fs::remove_file(p);
        }
    }
}
#[derive(Default)]
pub struct ShmemConf {
    size: usize,
    name: String,
    force: bool,
}
impl ShmemConf {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn size(mut self, n: usize) -> Self {
        self.size = n;
        self
    }
    pub fn flink(mut self, n: &str) -> Self {
        self.name = n.to_string();
        self
    }
    pub fn force_create_flink(mut self) -> Self {
        self.force = true;
        self
    }
    fn map(f: &std::fs::File, len: usize, owner: Option<String>) -> Shmem {
        let base = unsafe {
            libc::mmap(std::ptr::null_mut(), len.max(1), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(base != libc::MAP_FAILED);
        crate::monitor::register(base as *mut u8, len);
        crate::monitor::fence_tail(base as *mut u8, len, true);
        Shmem { base: base as *mut u8, len, owner }
    }
    pub fn create(self) -> Result<Shmem, ShmemError> {
        let p = path(&self.name);
        if std::path::Path::new(&p).exists() {
            if !self.force {
                return Err(ShmemError::LinkExists);
            }
            let _ = std::fs::remove_file(&p);
        }
        // fresh inode filled with noise: readers must not rely on zeroed memory
        let t = format!("{p}.tmp");
        std::fs::write(&t, vec![0xA5u8; self.size.max(1)]).map_err(|_| ShmemError::Other)?;
        std::fs::rename(&t, &p).map_err(|_| ShmemError::Other)?;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&p).map_err(|_| ShmemError::Other)?;
        Ok(Self::map(&f, self.size, Some(p)))
    }
    pub fn open(self) -> Result<Shmem, ShmemError> {
        let p = path(&self.name);
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&p).map_err(|_| ShmemError::LinkDoesNotExist)?;
        let len = f.metadata().map_err(|_| ShmemError::Other)?.len() as usize;
        Ok(Self::map(&f, len, None))
    }
}
