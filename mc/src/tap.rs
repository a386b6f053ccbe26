//! A sink whose identity is a thread-local buffer, so that a writer over it is
//! cloneable and its derived `Debug` shows only the writer's own state.
use std::cell::RefCell;

thread_local! { static BUF: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) } }

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Tap;

impl std::fmt::Write for Tap {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        BUF.with(|b| b.borrow_mut().extend_from_slice(s.as_bytes()));
        Ok(())
    }
}

impl std::io::Write for Tap {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
        BUF.with(|b| b.borrow_mut().extend_from_slice(s));
        Ok(s.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Runs `f` on what was written since the last call, and empties the buffer.
pub fn drain<R>(f: impl FnOnce(&[u8]) -> R) -> R {
    BUF.with(|b| {
        let mut v = std::mem::take(&mut *b.borrow_mut());
        let r = f(&v);
        v.clear();
        *b.borrow_mut() = v;
        r
    })
}

pub fn take() -> Vec<u8> {
    drain(|b| b.to_vec())
}

pub fn clear() {
    drain(|_| ())
}
