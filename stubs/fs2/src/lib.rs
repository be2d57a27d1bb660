//! Offline stand-in for fs2: advisory locks through flock(2), as fs2 does on unix.
use std::fs::File;
use std::io;

pub trait FileExt {
  fn lock_shared(&self) -> io::Result<()>;
  fn lock_exclusive(&self) -> io::Result<()>;
  fn try_lock_shared(&self) -> io::Result<()>;
  fn try_lock_exclusive(&self) -> io::Result<()>;
  fn unlock(&self) -> io::Result<()>;
}

#[cfg(unix)]
fn flock(f: &File, op: i32) -> io::Result<()> {
  use std::os::fd::AsRawFd;
  if unsafe { libc::flock(f.as_raw_fd(), op) } < 0 { Err(io::Error::last_os_error()) } else { Ok(()) }
}

#[cfg(unix)]
impl FileExt for File {
  fn lock_shared(&self) -> io::Result<()> { flock(self, libc::LOCK_SH) }
  fn lock_exclusive(&self) -> io::Result<()> { flock(self, libc::LOCK_EX) }
  fn try_lock_shared(&self) -> io::Result<()> { flock(self, libc::LOCK_SH | libc::LOCK_NB) }
  fn try_lock_exclusive(&self) -> io::Result<()> { flock(self, libc::LOCK_EX | libc::LOCK_NB) }
  fn unlock(&self) -> io::Result<()> { flock(self, libc::LOCK_UN) }
}
