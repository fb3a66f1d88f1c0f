//! The simulated byte sources and sinks ("network and disk" of a library): every read and write the
//! code under test makes is answered here, by a plan drawn from the tape.
use crate::ctx::Ctx;
use crate::tape::Rng;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex, MutexGuard};

/// Unwinds out of the code under test when it asks for something it must not ask for.
#[derive(Debug, Clone, PartialEq)]
pub enum SimStop {
    /// a live source has no more bytes at the moment, a real read would block
    Stall,
    /// reading on and on without progress
    Spin,
}

pub fn sim_stop(s: SimStop) -> ! {
    std::panic::resume_unwind(Box::new(s))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Chunk {
    Full,
    One,
    Fixed(usize),
    Small(usize),
    Mixed,
    Buf8k,
}

impl Chunk {
    pub fn draw(ctx: &Ctx) -> Chunk {
        match ctx.weighted(&[3, 3, 2, 4, 3, 2]) {
            0 => Chunk::Full,
            1 => Chunk::One,
            2 => Chunk::Fixed(*ctx.pick(&[2usize, 3, 4, 5, 7, 13, 64, 100, 512, 4095, 4096, 4097])),
            3 => Chunk::Small(*ctx.pick(&[3usize, 8, 30, 200])),
            4 => Chunk::Mixed,
            _ => Chunk::Buf8k,
        }
    }
    pub fn size(&self, rng: &mut Rng) -> usize {
        match self {
            Chunk::Full => usize::MAX,
            Chunk::One => 1,
            Chunk::Fixed(n) => *n,
            Chunk::Small(n) => 1 + rng.below(*n as u64) as usize,
            Chunk::Mixed => match rng.below(4) {
                0 => 1,
                1 => 1 + rng.below(10) as usize,
                2 => 1 + rng.below(5000) as usize,
                _ => usize::MAX,
            },
            Chunk::Buf8k => 8190 + rng.below(5) as usize,
        }
    }
}

pub const ERR_KINDS: &[(&str, ErrorKind)] = &[
    ("Other", ErrorKind::Other),
    ("UnexpectedEof", ErrorKind::UnexpectedEof),
    ("EIO", ErrorKind::Other),
    ("ConnectionReset", ErrorKind::ConnectionReset),
    ("WouldBlock", ErrorKind::WouldBlock),
    ("TimedOut", ErrorKind::TimedOut),
    ("BrokenPipe", ErrorKind::BrokenPipe),
    ("InvalidData", ErrorKind::InvalidData),
    ("PermissionDenied", ErrorKind::PermissionDenied),
    ("NotFound", ErrorKind::NotFound),
    ("ENOSPC", ErrorKind::StorageFull),
    ("ConnectionAborted", ErrorKind::ConnectionAborted),
    ("NotConnected", ErrorKind::NotConnected),
    ("WriteZero", ErrorKind::WriteZero),
    ("InvalidInput", ErrorKind::InvalidInput),
    ("Unsupported", ErrorKind::Unsupported),
    ("OutOfMemory", ErrorKind::OutOfMemory),
    ("AlreadyExists", ErrorKind::AlreadyExists),
    ("NetworkDown", ErrorKind::NetworkDown),
    ("StaleNetworkFileHandle", ErrorKind::StaleNetworkFileHandle),
    ("QuotaExceeded", ErrorKind::QuotaExceeded),
    ("FileTooLarge", ErrorKind::FileTooLarge),
    ("ReadOnlyFilesystem", ErrorKind::ReadOnlyFilesystem),
];

pub fn make_err(idx: usize) -> io::Error {
    match ERR_KINDS[idx].0 {
        "EIO" => io::Error::from_raw_os_error(libc::EIO),
        "ENOSPC" => io::Error::from_raw_os_error(libc::ENOSPC),
        "ConnectionReset" => io::Error::from_raw_os_error(libc::ECONNRESET),
        n => io::Error::new(ERR_KINDS[idx].1, format!("injected {n}")),
    }
}

#[derive(Clone, Debug)]
pub struct ReadFault {
    pub at: usize,
    pub kind: usize,
    pub sticky: bool,
}

pub struct RState {
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    pub chunk: Chunk,
    pub rng: Rng,
    /// one interruption in this many reads, 0: none
    pub eintr: u64,
    burst: u64,
    pub fault: Option<ReadFault>,
    pub fault_fired: u64,
    /// the source ends here (cut file)
    pub end: usize,
    /// no byte beyond this has arrived yet
    pub avail: usize,
    eof_reads: u64,
    reads: u64,
    pub max_reads: u64,
}

#[derive(Clone)]
pub struct SimReader {
    pub st: Arc<Mutex<RState>>,
    pub ctx: Ctx,
    pub sched: Option<crate::sched::Task>,
}

impl SimReader {
    pub fn plain(ctx: &Ctx, data: Arc<Vec<u8>>) -> SimReader {
        let end = data.len();
        SimReader {
            ctx: ctx.clone(),
            sched: None,
            st: Arc::new(Mutex::new(RState {
                max_reads: 200_000 + 60 * end as u64,
                data,
                pos: 0,
                chunk: Chunk::Full,
                rng: Rng(0),
                eintr: 0,
                burst: 0,
                fault: None,
                fault_fired: 0,
                end,
                avail: usize::MAX,
                eof_reads: 0,
                reads: 0,
            })),
        }
    }
    /// a source which segments and interrupts, as the tape says
    pub fn planned(ctx: &Ctx, data: Arc<Vec<u8>>) -> SimReader {
        let r = SimReader::plain(ctx, data);
        {
            let chunk = Chunk::draw(ctx);
            let eintr = *ctx.pick(&[0u64, 0, 2, 5, 30]);
            let mut st = r.lock();
            let needs_rng = eintr > 0 || !matches!(chunk, Chunk::Full | Chunk::One | Chunk::Fixed(_));
            if needs_rng {
                st.rng = ctx.subrng();
            }
            st.chunk = chunk.clone();
            st.eintr = eintr;
            ctx.summary(|| format!("reads {:?}{}", chunk, if eintr > 0 { format!(" EINTR 1/{eintr}") } else { String::new() }));
        }
        r
    }
    pub fn lock(&self) -> MutexGuard<'_, RState> {
        match self.st.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    pub fn pos(&self) -> usize {
        self.lock().pos
    }
    pub fn set_avail(&self, n: usize) {
        self.lock().avail = n;
    }
    pub fn set_fault(&self, at: usize, kind: usize, sticky: bool) {
        self.ctx.summary(|| format!("read error {} at byte {at}{}", ERR_KINDS[kind].0, if sticky { "" } else { " (once)" }));
        self.lock().fault = Some(ReadFault { at, kind, sticky });
    }
    pub fn set_end(&self, at: usize) {
        self.ctx.summary(|| format!("source ends at byte {at}"));
        self.lock().end = at;
    }

    fn answer(&self, buf: &mut [u8]) -> (io::Result<usize>, &'static str) {
        let mut st = self.lock();
        let st = &mut *st;
        st.reads += 1;
        if st.reads > st.max_reads {
            sim_stop(SimStop::Spin);
        }
        if buf.is_empty() {
            return (Ok(0), "");
        }
        if st.eintr > 0 {
            if st.burst > 0 {
                st.burst -= 1;
                return (Err(io::Error::from(ErrorKind::Interrupted)), "interrupted_read");
            }
            if st.rng.below(st.eintr) == 0 && st.rng.below(4) != 0 {
                st.burst = if st.rng.below(8) == 0 { 4 } else { 0 };
                return (Err(io::Error::from(ErrorKind::Interrupted)), "interrupted_read");
            }
        }
        let mut limit = st.end.min(st.data.len());
        if let Some(f) = &st.fault {
            if st.pos >= f.at {
                let e = make_err(f.kind);
                st.fault_fired += 1;
                if st.fault_fired > 2000 {
                    sim_stop(SimStop::Spin);
                }
                if !f.sticky {
                    st.fault = None;
                }
                return (Err(e), "read_error");
            }
            limit = limit.min(f.at);
        }
        if st.pos >= limit {
            st.eof_reads += 1;
            if st.eof_reads > 2000 {
                sim_stop(SimStop::Spin);
            }
            let cut = st.end < st.data.len();
            return (Ok(0), if cut { "source_cut" } else { "" });
        }
        if st.pos >= st.avail {
            sim_stop(SimStop::Stall);
        }
        limit = limit.min(st.avail);
        let full = buf.len().min(limit - st.pos);
        let n = full.min(st.chunk.size(&mut st.rng)).max(1);
        buf[..n].copy_from_slice(&st.data[st.pos..st.pos + n]);
        st.pos += n;
        (Ok(n), if n < full { "short_read" } else { "" })
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(t) = &self.sched {
            t.yield_point();
        }
        let pos = self.pos();
        let (res, fault) = self.answer(buf);
        note(&self.ctx, "read", pos, buf.len(), &res, fault);
        res
    }
}

fn note(ctx: &Ctx, op: &str, pos: usize, len: usize, res: &io::Result<usize>, fault: &str) {
    let code = match res {
        Ok(n) => *n as u64,
        Err(e) => u64::MAX - e.kind() as u64,
    };
    {
        let mut g = ctx.lock();
        g.io_steps += 1;
        if let Ok(n) = res {
            g.io_bytes += *n as u64;
        }
        if !fault.is_empty() {
            if fault == "short_read" || fault == "short_write" {
                g.short_ops += 1;
            }
            match g.faults.get_mut(fault) {
                Some(v) => *v += 1,
                None => {
                    g.faults.insert(fault.to_string(), 1);
                }
            }
        }
    }
    ctx.event(op.len() as u64 + ((len as u64) << 8), pos as u64, code);
    ctx.log(|| match res {
        Ok(n) => format!("{op} @{pos} len {len} -> {n}"),
        Err(e) => format!("{op} @{pos} len {len} -> error {e}"),
    });
}

#[derive(Clone, Debug, PartialEq)]
pub enum WFaultKind {
    Err(usize),
    Zero,
}

#[derive(Clone, Debug)]
pub struct WFault {
    pub at: usize,
    pub kind: WFaultKind,
    pub sticky: bool,
}

pub struct WState {
    pub buf: Vec<u8>,
    pub flushed: usize,
    pub flushes: u64,
    pub chunk: Chunk,
    pub rng: Rng,
    pub eintr: u64,
    burst: u64,
    pub faults: Vec<WFault>,
    /// the n-th flush (from 0) fails; sticky: also every later one
    pub flush_fault: Option<(u64, usize, bool)>,
    pub fired: u64,
    /// crash: bytes beyond this never arrive although the sink accepts them
    ops: u64,
}

#[derive(Clone)]
pub struct SimWriter {
    pub st: Arc<Mutex<WState>>,
    pub ctx: Ctx,
    pub sched: Option<crate::sched::Task>,
}

impl SimWriter {
    pub fn plain(ctx: &Ctx) -> SimWriter {
        SimWriter {
            ctx: ctx.clone(),
            sched: None,
            st: Arc::new(Mutex::new(WState {
                buf: Vec::new(),
                flushed: 0,
                flushes: 0,
                chunk: Chunk::Full,
                rng: Rng(0),
                eintr: 0,
                burst: 0,
                faults: Vec::new(),
                flush_fault: None,
                fired: 0,
                ops: 0,
            })),
        }
    }
    pub fn planned(ctx: &Ctx) -> SimWriter {
        let w = SimWriter::plain(ctx);
        {
            let chunk = Chunk::draw(ctx);
            let eintr = *ctx.pick(&[0u64, 0, 2, 5, 30]);
            let mut st = w.lock();
            if eintr > 0 || !matches!(chunk, Chunk::Full | Chunk::One | Chunk::Fixed(_)) {
                st.rng = ctx.subrng();
            }
            st.chunk = chunk.clone();
            st.eintr = eintr;
            ctx.summary(|| format!("writes {:?}{}", chunk, if eintr > 0 { format!(" EINTR 1/{eintr}") } else { String::new() }));
        }
        w
    }
    pub fn lock(&self) -> MutexGuard<'_, WState> {
        match self.st.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.lock().buf.clone()
    }
    pub fn len(&self) -> usize {
        self.lock().buf.len()
    }
    pub fn fired(&self) -> u64 {
        self.lock().fired
    }

    fn answer(&self, data: &[u8]) -> (io::Result<usize>, &'static str) {
        let mut st = self.lock();
        let st = &mut *st;
        st.ops += 1;
        if st.ops > 60_000_000 {
            sim_stop(SimStop::Spin);
        }
        if data.is_empty() {
            return (Ok(0), "");
        }
        if st.eintr > 0 {
            if st.burst > 0 {
                st.burst -= 1;
                return (Err(io::Error::from(ErrorKind::Interrupted)), "interrupted_write");
            }
            if st.rng.below(st.eintr) == 0 && st.rng.below(4) != 0 {
                st.burst = if st.rng.below(8) == 0 { 4 } else { 0 };
                return (Err(io::Error::from(ErrorKind::Interrupted)), "interrupted_write");
            }
        }
        let pos = st.buf.len();
        let mut room = usize::MAX;
        let mut hit = None;
        for (i, f) in st.faults.iter().enumerate() {
            if pos >= f.at {
                hit = Some(i);
                break;
            }
            room = room.min(f.at - pos);
        }
        if let Some(i) = hit {
            st.fired += 1;
            if st.fired > 100_000 {
                sim_stop(SimStop::Spin);
            }
            let f = st.faults[i].clone();
            if !f.sticky {
                st.faults.remove(i);
            }
            return match f.kind {
                WFaultKind::Err(k) => (Err(make_err(k)), if ERR_KINDS[k].0 == "ENOSPC" { "disk_full" } else { "write_error" }),
                WFaultKind::Zero => (Ok(0), "write_zero"),
            };
        }
        let full = data.len().min(room);
        let n = full.min(st.chunk.size(&mut st.rng)).max(1);
        st.buf.extend_from_slice(&data[..n]);
        (Ok(n), if n < data.len() { "short_write" } else { "" })
    }
}

impl Write for SimWriter {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        if let Some(t) = &self.sched {
            t.yield_point();
        }
        let pos = self.len();
        let (res, fault) = self.answer(data);
        note(&self.ctx, "write", pos, data.len(), &res, fault);
        res
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(t) = &self.sched {
            t.yield_point();
        }
        let (pos, res) = {
            let mut st = self.lock();
            let n = st.flushes;
            st.flushes += 1;
            let pos = st.buf.len();
            match st.flush_fault {
                Some((at, kind, sticky)) if n == at || (sticky && n > at) => {
                    st.fired += 1;
                    (pos, Err(make_err(kind)))
                }
                _ => {
                    st.flushed = pos;
                    (pos, Ok(0))
                }
            }
        };
        let fault = if res.is_err() { "flush_error" } else { "" };
        note(&self.ctx, "flush", pos, 0, &res, fault);
        res.map(|_| ())
    }
}
