//! Decides how much each read() of the current thread transfers.
use std::cell::Cell;

/// What read() number `at` does.
pub const ONE: u8 = 1;
pub const HALF: u8 = 2;
pub const ALL_BUT_ONE: u8 = 3;
pub const INTERRUPT: u8 = 4;
pub const DEVIATIONS: [u8; 4] = [ONE, HALF, ALL_BUT_ONE, INTERRUPT];

#[derive(Clone, Copy)]
struct State {
    on: bool,
    max: usize,
    n: u32,
    plan: [(u32, u8); 4],
}

const OFF: State = State { on: false, max: usize::MAX, n: 0, plan: [(u32::MAX, 0); 4] };

thread_local! {
    static STATE: Cell<State> = const { Cell::new(OFF) };
}

/// Runs `f` with reads of at most `max` bytes that deviate as planned, and
/// returns how many reads there were.
pub fn with_reads<T>(max: usize, plan: &[(u32, u8)], f: impl FnOnce() -> T) -> (T, u32) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            STATE.with(|s| s.set(OFF));
        }
    }
    let mut st = State { on: true, max, ..OFF };
    for (i, p) in plan.iter().enumerate() {
        st.plan[i] = *p;
    }
    let _r = Reset;
    STATE.with(|s| s.set(st));
    let r = f();
    let n = STATE.with(|s| s.get().n);
    (r, n)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let mut n = n;
    let _ = STATE.try_with(|s| {
        let mut st = s.get();
        if st.on {
            let a = st.plan.iter().find(|p| p.0 == st.n).map_or(0, |p| p.1);
            st.n += 1;
            s.set(st);
            n = n.min(st.max);
            match a {
                ONE => n = n.min(1),
                HALF => n = if n > 1 { n / 2 } else { n },
                ALL_BUT_ONE => n = if n > 1 { n - 1 } else { n },
                INTERRUPT => n = usize::MAX,
                _ => {}
            }
        }
    });
    if n == usize::MAX {
        *libc::__errno_location() = libc::EINTR;
        return -1;
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t
}

/// All plans with at most `k` deviations in `n` reads.
pub fn plans(n: u32, k: usize) -> Vec<Vec<(u32, u8)>> {
    let mut out: Vec<Vec<(u32, u8)>> = vec![vec![]];
    let mut layer = out.clone();
    for _ in 0..k {
        let mut nl = vec![];
        for p in &layer {
            let from = p.last().map_or(0, |x| x.0 + 1);
            for i in from..n {
                for d in DEVIATIONS {
                    let mut q = p.clone();
                    q.push((i, d));
                    nl.push(q);
                }
            }
        }
        out.extend(nl.iter().cloned());
        layer = nl;
    }
    out
}
