//! Simulated CKB runtime: stands in for the real `ckb-std` so that the shipped verifier source
//! compiles natively. Only the syscall surface the verifier uses is provided; every syscall is
//! answered by the simulator (thread-local, set with `sim::install`).

pub mod ckb_constants {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[repr(u64)]
    pub enum Source {
        Input = 1,
        Output = 2,
        CellDep = 3,
        HeaderDep = 4,
        GroupInput = 0x0100000000000001,
        GroupOutput = 0x0100000000000002,
    }
}

pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SysError {
        IndexOutOfBound,
        ItemMissing,
        LengthNotEnough(usize),
        Encoding,
        Unknown(u64),
    }
}

pub mod sim {
    use crate::ckb_constants::Source;
    use crate::error::SysError;
    use std::cell::RefCell;

    /// What the simulator answers for one `load_witness` call.
    #[derive(Clone, Debug)]
    pub enum Answer {
        /// The witness bytes; ordinary CKB semantics apply (length check against the buffer).
        Bytes(Vec<u8>),
        Fail(SysError),
    }

    pub struct Runtime {
        pub witness: Box<dyn FnMut(usize, Source) -> Answer>,
        pub log: Vec<String>,
        /// Per witness index: did the latest load of it end in an error?
        pub failed: std::collections::BTreeMap<usize, bool>,
    }

    thread_local! {
        pub static RT: RefCell<Option<Runtime>> = RefCell::new(None);
    }

    pub fn install(f: Box<dyn FnMut(usize, Source) -> Answer>) {
        RT.with(|r| *r.borrow_mut() = Some(Runtime { witness: f, log: vec![], failed: Default::default() }));
    }

    pub fn take() -> Option<Runtime> {
        RT.with(|r| r.borrow_mut().take())
    }
}

pub mod syscalls {
    use crate::ckb_constants::Source;
    use crate::error::SysError;
    use crate::sim::{Answer, RT};

    pub fn debug(s: String) {
        RT.with(|r| {
            if let Some(rt) = r.borrow_mut().as_mut() {
                rt.log.push(s);
            }
        });
    }

    /// ckb-std's load_witness: copies the witness from `offset`, returns the number of bytes loaded,
    /// or LengthNotEnough(total) when the buffer is too small for what remains.
    pub fn load_witness(buf: &mut [u8], offset: usize, index: usize, source: Source) -> Result<usize, SysError> {
        let ans = RT.with(|r| match r.borrow_mut().as_mut() {
            Some(rt) => (rt.witness)(index, source),
            None => Answer::Fail(SysError::Unknown(u64::MAX)),
        });
        let r = match ans {
            Answer::Fail(e) => Err(e),
            Answer::Bytes(b) => {
                let rest: &[u8] = if offset <= b.len() { &b[offset..] } else { &[] };
                let n = rest.len().min(buf.len());
                buf[..n].copy_from_slice(&rest[..n]);
                if rest.len() > buf.len() {
                    Err(SysError::LengthNotEnough(rest.len()))
                } else {
                    Ok(rest.len())
                }
            }
        };
        RT.with(|x| {
            if let Some(rt) = x.borrow_mut().as_mut() {
                rt.failed.insert(index, r.is_err());
            }
        });
        r
    }
}

pub mod high_level {
    use crate::ckb_constants::Source;
    use crate::error::SysError;

    /// ckb-std's load_data: a first try with a small buffer, then one with the right size.
    pub fn load_data<F: Fn(&mut [u8], usize) -> Result<usize, SysError>>(syscall: F) -> Result<Vec<u8>, SysError> {
        let mut buf = [0u8; 1024];
        match syscall(&mut buf, 0) {
            Ok(len) => Ok(buf[..len].to_vec()),
            Err(SysError::LengthNotEnough(actual)) => {
                let mut data = vec![0u8; actual];
                let loaded = buf.len();
                data[..loaded].copy_from_slice(&buf);
                let len = syscall(&mut data[loaded..], loaded)?;
                debug_assert_eq!(len + loaded, actual);
                Ok(data)
            }
            Err(e) => Err(e),
        }
    }

    pub fn load_witness(index: usize, source: Source) -> Result<Vec<u8>, SysError> {
        load_data(|buf, offset| crate::syscalls::load_witness(buf, offset, index, source))
    }
}

#[macro_export]
macro_rules! debug {
    ($($a:tt)*) => { $crate::syscalls::debug(format!($($a)*)) };
}

#[macro_export]
macro_rules! entry {
    ($main:path) => {};
}

#[macro_export]
macro_rules! default_alloc {
    () => {
        extern crate alloc;
    };
    ($($t:tt)*) => {
        extern crate alloc;
    };
}
