//! An exclusive lock on a file, held until the guard is dropped (or the process ends).
use std::fs::File;
use std::io;
use std::ops::{Deref, DerefMut};
use std::os::fd::AsRawFd;

extern "C" {
    fn flock(fd: i32, op: i32) -> i32;
}

fn lock(f: &impl AsRawFd, op: i32) -> io::Result<()> {
    loop {
        if unsafe { flock(f.as_raw_fd(), op) } == 0 {
            return Ok(());
        }
        let e = io::Error::last_os_error();
        if e.kind() != io::ErrorKind::Interrupted {
            return Err(e);
        }
    }
}

#[derive(Debug)]
pub struct RwLock<T> {
    inner: T,
}

impl<T: AsRawFd> RwLock<T> {
    pub fn new(inner: T) -> Self {
        Self { inner }
    }
    pub fn write(&mut self) -> io::Result<RwLockWriteGuard<'_, T>> {
        lock(&self.inner, 2)?;
        Ok(RwLockWriteGuard { inner: &mut self.inner })
    }
    pub fn try_write(&mut self) -> io::Result<RwLockWriteGuard<'_, T>> {
        lock(&self.inner, 2 | 4)?;
        Ok(RwLockWriteGuard { inner: &mut self.inner })
    }
    pub fn read(&self) -> io::Result<RwLockReadGuard<'_, T>> {
        lock(&self.inner, 1)?;
        Ok(RwLockReadGuard { inner: &self.inner })
    }
    pub fn into_inner(self) -> T {
        self.inner
    }
}

pub struct RwLockWriteGuard<'a, T: AsRawFd> {
    inner: &'a mut T,
}
impl<T: AsRawFd> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner
    }
}
impl<T: AsRawFd> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner
    }
}
impl<T: AsRawFd> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        let _ = lock(&*self.inner, 8);
    }
}

pub struct RwLockReadGuard<'a, T: AsRawFd> {
    inner: &'a T,
}
impl<T: AsRawFd> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner
    }
}
impl<T: AsRawFd> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        let _ = lock(self.inner, 8);
    }
}

#[allow(dead_code)]
fn _file(f: File) -> RwLock<File> {
    RwLock::new(f)
}
