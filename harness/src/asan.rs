//! The monitors of the M properties: binaries built with AddressSanitizer and `--cfg vp_asan`.
use shimcore::monitor;
use vpc::{ensure, viol, Driver};

/// Shows that AddressSanitizer watches this process before anything is concluded from its silence.
pub fn awake(d: &mut Driver) {
    d.scenario("the monitor is awake", |_, o| {
        assert!(cfg!(vp_asan), "built without AddressSanitizer");
        let v = vec![7u8; 24];
        ensure!(monitor::fenced(v.as_ptr(), 40) == Some(24), "monitor", "memory behind an allocation is open");
        let p = v.as_ptr() as usize;
        drop(v);
        ensure!(monitor::fenced(p as *const u8, 24).is_some(), "monitor", "released memory is open");
        // what each kind of error does to a process
        for (kind, what) in ["read past an allocation", "use of released memory", "release of released memory", "copy past a fenced region", "write past an allocation"].iter().enumerate() {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe {
                    let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    libc::dup2(null, 2);
                    let p = libc::malloc(40) as *mut u8;
                    p.write_bytes(1, 40);
                    let n = std::hint::black_box(40usize);
                    let x = match kind {
                        0 => p.add(n).read(),
                        1 => {
                            libc::free(p as *mut _);
                            p.add(n - 1).read()
                        }
                        2 => {
                            libc::free(p as *mut _);
                            libc::free(std::hint::black_box(p) as *mut _);
                            0
                        }
                        3 => {
                            monitor::fence(p.add(8), 32, true);
                            let mut b = [0u8; 64];
                            std::ptr::copy_nonoverlapping(p, b.as_mut_ptr(), std::hint::black_box(9));
                            b[8]
                        }
                        _ => {
                            p.add(n + 2).write(3);
                            0
                        }
                    };
                    libc::_exit(std::hint::black_box(x) as i32 & 0);
                }
            }
            let mut st = 0;
            ensure!(pid > 0 && unsafe { libc::waitpid(pid, &mut st, 0) } == pid, "monitor", "no process for the trial");
            let said = vpc::asan_report(pid as u32, std::env::var_os("VP_ASAN_LOG").map(Into::into));
            ensure!(st != 0 && said.as_deref().is_some_and(|s| s.len() > 4), "monitor", "AddressSanitizer overlooks a {what}: status {st}, {said:?}");
            o.count("errors planted and reported", 1);
        }
        Ok(())
    });
}
