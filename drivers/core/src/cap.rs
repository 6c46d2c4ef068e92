//! Captures what the process writes to file descriptor 2.
use std::fs::File;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::{AsRawFd, RawFd};

extern "C" {
  fn dup(fd: RawFd) -> RawFd;
  fn dup2(old: RawFd, new: RawFd) -> RawFd;
  fn close(fd: RawFd) -> i32;
}

/// A scratch directory, removed when dropped.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
  pub fn new(tag: &str) -> Self {
    let p = std::env::temp_dir().join(format!("verif-{tag}-{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    Scratch(p)
  }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

pub struct Capture {
  file: File,
}

impl Capture {
  pub fn new(dir: &Scratch) -> Self {
    let p = dir.0.join("stderr");
    Capture { file: File::options().create(true).truncate(true).read(true).write(true).open(p).unwrap() }
  }
  /// Runs `f` with standard error going to the file; returns what was written.
  pub fn run<R>(&mut self, f: impl FnOnce() -> R) -> (R, String) {
    self.file.set_len(0).unwrap();
    self.file.seek(SeekFrom::Start(0)).unwrap();
    struct Restore(RawFd);
    impl Drop for Restore {
      fn drop(&mut self) {
        unsafe {
          dup2(self.0, 2);
          close(self.0);
        }
      }
    }
    let r = {
      let _restore = unsafe {
        let saved = dup(2);
        dup2(self.file.as_raw_fd(), 2);
        Restore(saved)
      };
      f()
    };
    self.file.seek(SeekFrom::Start(0)).unwrap();
    let mut v = vec![];
    self.file.read_to_end(&mut v).unwrap();
    (r, String::from_utf8_lossy(&v).into_owned())
  }
}
