//! Running the tool.
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const CLOCK: i64 = 1_078_012_799; // 2004-02-28 23:59:59 UTC; the zone is UTC+05:45.
pub const OFFSET: i64 = 20_700;

#[derive(Debug)]
pub struct Out { pub status: String, pub out: Vec<u8>, pub err: Vec<u8> }
impl Out {
    pub fn out(&self) -> String { String::from_utf8_lossy(&self.out).into_owned() }
    pub fn err(&self) -> String { String::from_utf8_lossy(&self.err).into_owned() }
}

/// CPU time used by a child, in seconds.
fn used(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let ticks: u64 = s.rsplit(')').next().unwrap_or("").split_whitespace().skip(11).take(2).filter_map(|v| v.parse::<u64>().ok()).sum();
    ticks as f64 / 100.0
}

pub fn fyi(args: &[OsString], stdin: &[u8]) -> Out {
    let bin = std::env::var_os("CLI_BIN").expect("CLI_BIN");
    let mut cmd = Command::new(bin);
    cmd.args(args).env_clear()
        .env("LD_PRELOAD", std::env::var_os("CLI_SHIM").expect("CLI_SHIM"))
        .env("CLI_CLOCK", CLOCK.to_string())
        .env("CLI_ZONE", std::env::var_os("CLI_ZONE").expect("CLI_ZONE"))
        .stdin(if stdin.is_empty() { Stdio::null() } else { Stdio::piped() })
        .stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut kid = cmd.spawn().expect("spawn");
    if let Some(mut i) = kid.stdin.take() { let _ = i.write_all(stdin); }
    let mut ro = kid.stdout.take().expect("stdout");
    let mut re = kid.stderr.take().expect("stderr");
    // Read both; neither may block the other.
    let (mut out, mut err) = (Vec::new(), Vec::new());
    use std::os::fd::AsRawFd;
    let mut fds = [
        libc::pollfd { fd: ro.as_raw_fd(), events: libc::POLLIN, revents: 0 },
        libc::pollfd { fd: re.as_raw_fd(), events: libc::POLLIN, revents: 0 },
    ];
    let begin = Instant::now();
    let mut stuck = false;
    let mut buf = vec![0_u8; 1 << 16];
    while fds.iter().any(|f| f.fd >= 0) {
        unsafe { libc::poll(fds.as_mut_ptr(), 2, 1000); }
        // (By its own CPU time: the machine may be busy with other things.)
        let late = begin.elapsed() > Duration::from_secs(10) && (begin.elapsed() > Duration::from_secs(120) || used(kid.id()) > 8.0);
        if late || out.len() > 1 << 24 || err.len() > 1 << 24 { stuck = true; let _ = kid.kill(); break; }
        if fds[0].fd >= 0 && fds[0].revents != 0 {
            let n = ro.read(&mut buf).unwrap_or(0);
            if n == 0 { fds[0].fd = -1; } else { out.extend_from_slice(&buf[..n]); }
        }
        if fds[1].fd >= 0 && fds[1].revents != 0 {
            let n = re.read(&mut buf).unwrap_or(0);
            if n == 0 { fds[1].fd = -1; } else { err.extend_from_slice(&buf[..n]); }
        }
    }
    let st = kid.wait().expect("wait");
    let status = if stuck { "did not end".to_owned() }
        else { st.code().map_or_else(|| format!("signal {}", st.signal().unwrap_or(0)), |c| c.to_string()) };
    Out { status, out, err }
}
