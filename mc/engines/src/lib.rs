//! Reference models and case generators shared by the engines.
pub mod gen;
pub mod procref;
pub mod dp;
pub mod texts;
pub mod sets;
pub mod profiles;
pub mod toksets;
pub mod opt;
pub mod optfam;

/// Sends everything the code under test prints to /dev/null.
pub fn silence() {
    unsafe {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(fd, 1);
        if std::env::var("MC_STDERR").is_err() {
            // The harness keeps its own copy of stderr for engine errors.
            let keep = libc::dup(2);
            SAVED_STDERR.store(keep, std::sync::atomic::Ordering::Relaxed);
        }
        libc::close(fd);
    }
}

static QUIET: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// As `silence`, and standard error too (the optimizer prints whole count
/// tables to it, piece by piece).
pub fn silence_all() {
    silence();
    if std::env::var("MC_STDERR").is_err() {
        QUIET.store(true, std::sync::atomic::Ordering::Relaxed);
    }
}

/// Replaces libc's write in the engines: nothing goes to standard output and
/// error once `silence_all` has been called.
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if (fd == 1 || fd == 2) && QUIET.load(std::sync::atomic::Ordering::Relaxed) {
        return n as libc::ssize_t;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as libc::ssize_t
}

pub static SAVED_STDERR: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(2);

pub mod sysread;
