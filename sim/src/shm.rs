//! Memory shared between the driver, a zygote and its run children.

pub const TAPE_MAX: usize = 1 << 17;
pub const MSG_MAX: usize = 16 << 10;
pub const TRACE_MAX: usize = 512 << 10;
pub const COV_MAX: usize = 1 << 16;
pub const NFAULT: usize = 64;
pub const NPROBE: usize = 128;

pub const ST_NONE: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;

#[repr(C)]
pub struct Shared {
    // ---- request ----
    pub prop: u32,
    pub verbose: u32,
    pub tier: u32,
    pub replay: u32, // 1: use tape_in
    pub seed: u64,
    pub tape_in_len: u64,
    pub tape_in: [u64; TAPE_MAX],
    // ---- answer ----
    pub status: u32,
    pub in_sut: u32,
    pub overflow: u32,
    pub max_depth: u32,
    pub tape_out_len: u64,
    pub tape_out: [u64; TAPE_MAX],
    pub kind_len: u64,
    pub kind: [u8; 512],
    pub msg_len: u64,
    pub msg: [u8; MSG_MAX],
    pub panic_len: u64,
    pub panic: [u8; 4096],
    pub faults: [u64; NFAULT],
    pub probes: [u64; NPROBE],
    pub sim_us: u64,
    pub steps: u64,
    pub sut_ops: u64,
    pub events: u64,
    pub switches: u64,
    pub trace_hash: u64,
    pub nontrivial: u64,
    /// Worst observed cost per unit of input, in 1/100: steps, live bytes, copied bytes.
    pub ratio: [u64; 3],
    pub trace_len: u64,
    pub trace: [u8; TRACE_MAX],
    pub cov: [u8; COV_MAX],
}

pub static mut SH: *mut Shared = std::ptr::null_mut();

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}

pub fn map() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        p as *mut Shared
    }
}

pub fn put(dst: &mut [u8], len: &mut u64, s: &str) {
    let n = s.len().min(dst.len());
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n as u64;
}

pub fn get(src: &[u8], len: u64) -> String {
    String::from_utf8_lossy(&src[..len as usize]).into_owned()
}

/// Ends this run at once with a verdict. Does not allocate.
pub fn fail_now(kind: &str, msg: &str) -> ! {
    let s = sh();
    put(&mut s.kind, &mut s.kind_len, kind);
    put(&mut s.msg, &mut s.msg_len, msg);
    s.status = ST_VIOLATION;
    crate::seam::flush_counts();
    unsafe { libc::_exit(0) }
}

/// Ends this run at once: whatever it did was judged and held.
pub fn end_now() -> ! {
    sh().status = ST_OK;
    crate::seam::flush_counts();
    unsafe { libc::_exit(0) }
}

// ---- fault kinds and probes: what really happened in a run ----
macro_rules! names {
    ($table:ident, $f:ident, $slot:ident; $($id:ident = $name:expr),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum $f { $($id),* }
        pub const $table: &[&str] = &[$($name),*];
        impl $f { pub fn hit(self) { sh().$slot[self as usize] += 1; } }
    };
}
names! { FAULTS, F, faults;
    Cut = "transport: stream cut",
    Flip = "transport: bit flipped",
    SetByte = "transport: byte overwritten",
    Insert = "transport: bytes inserted",
    Delete = "transport: bytes deleted",
    DupRange = "transport: byte range duplicated",
    SwapRange = "transport: byte ranges swapped",
    ZeroRange = "transport: byte range zeroed",
    Splice = "transport: spliced with another frame",
    ContRun = "transport: continuation-bit run",
    Hostile = "transport: hostile frame",
    Overlong = "peer: overlong varint",
    Drop = "network: message lost",
    Dup = "network: message duplicated",
    Delay = "network: message delayed/reordered",
    Chunk = "network: partial arrival",
    Restart = "node: crash and restart",
    Upgrade = "node: schema upgraded or downgraded",
    SchemaSkew = "node: schema differs from sender's",
    Preempt = "scheduler: preemption",
    FutexWait = "scheduler: thread blocked on a lock",
    DTrunc = "disk: file truncated",
    DTorn = "disk: torn write",
    DZero = "disk: block zeroed",
    DFlip = "disk: bit flipped",
    DSwap = "disk: blocks swapped",
    DStale = "disk: stale block from another file",
    DDup = "disk: block duplicated",
    DDelete = "disk: bytes lost",
    DInsert = "disk: stray bytes",
    DLost = "disk: file lost",
    DDouble = "disk: file delivered twice",
    DReadErr = "disk: read failed mid-listing",
    DOrder = "disk: listing order permuted",
    DLiteral = "disk: digits damaged into extreme literal",
    Conflict = "history: conflicting operation",
    PanicOp = "history: operation with a foreign reference",
    ContentDamage = "transport: field content replaced",
    HashSeed = "randomness: other hash seed",
    StackShift = "caller: deep inside its own stack",
    HeapShift = "allocator: other heap layout",
    ClockJump = "clock: jumped",
    BufReuse = "buffer: receive buffer reused",
    Stall = "scheduler: thread stalled for long",
    DKeyword = "disk: token replaced by a token from elsewhere",
    LenSkew = "transport: length prefix damaged",
    TagSkew = "transport: tag damaged",
    SlowNode = "clock: time passes whenever the code looks at it (slow or stalled node)",
    Burst = "history: the same damaged input hundreds of times",
}
names! { PROBES, P, probes;
    Incomplete = "value reported incomplete",
    Invalid = "value reported invalid",
    Garbage = "message with garbage",
    UnknownVarint = "unknown varint",
    UnknownLen = "unknown length-delimited",
    UnknownFixed = "unknown fixed",
    Packed = "packed array decoded",
    Nested = "nested message decoded",
    NonCanonical = "non-canonical encoding received",
    Canonical = "fully canonical damaged stream",
    DeepNest = "nesting of 30 or more",
    BigPayload = "payload over 16 KiB",
    CutTag = "cut inside a tag",
    CutValue = "cut inside a value",
    CutBoundary = "cut on a field boundary",
    CutUnknown = "cut inside an unknown field",
    CutPacked = "cut inside a packed array",
    CutMessage = "cut inside a nested message",
    ParseOk = "schema load succeeded",
    ParseErr = "schema load failed",
    DamagedOk = "damaged schema set loaded",
    SyntaxErr = "syntax error",
    TypeNotFound = "type not found",
    Duplicate = "duplicate type",
    InvalidKind = "invalid type kind",
    OpOk = "modification accepted",
    OpRej = "modification rejected",
    OpPanic = "modification panicked",
    ContextSwitch = "threads interleaved inside an operation",
    MultiHop = "message crossed 3 or more hops",
    SkewUnknown = "relay did not know a field",
    Negative = "negative integer sent",
    Extreme = "extreme integer sent",
    HandBuilt = "hand-built schema",
    CrossFile = "cross-file reference",
    Shadow = "shadowed name resolved to inner scope",
    BadPacked2 = "several damaged fields in one message",
    CutShort = "run ended early because it had become long",
    TooDeep = "message nested more than 100 levels deep",
    BlockedThread = "a thread waited for a lock",
    ThreadStarted = "the code under test started a thread",
    ReloadAfterFail = "reload after failed load",
    GrowDecode = "decode after growth",
    MapField = "map field",
    PlainDamage = "damaged set whose meaning is beyond doubt",
    Reader = "clean file read by the independent reader",
    DeepTypes = "type definitions nested 6 or more deep",
    ManyLoads = "many contexts loaded in one process",
    ManyUses = "one operation repeated 66 000 times in one process",
    EmptyFile = "files without definitions in a set",
    DamagedLevels = "messages nested with damage at every level",
    ManySiblings = "many values of one field, some of them equal",
    ManyDamaged = "more than 15 fields of one message damaged at once",
    Bulky = "messages of several kilobytes in repeated rounds",
    Many = "hundreds of files, types, fields, oneofs, values or rpcs",
    ManyTypes = "context grown by hundreds of types",
    EarlyLookup = "name looked up before it was inserted",
    Shuffled = "same definitions in another order in one process",
    Held = "decoded value kept while its buffer was reused",
    Varied = "every round with names and values of its own",
    Grew = "memory held after a round grew for a while",
    HugeField = "field over 64 KiB",
    ReaderSure = "clean file with a meaning beyond doubt",
}

// ---- event log ----
pub fn ev(code: u64, a: u64, b: u64) {
    let s = sh();
    s.events += 1;
    let mut h = s.trace_hash;
    for x in [code, a, b] {
        h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    s.trace_hash = h;
}

pub fn verbose() -> bool {
    sh().verbose != 0
}

pub fn trace_line(line: &str) {
    let s = sh();
    let l = s.trace_len as usize;
    let n = line.len().min(TRACE_MAX - l.min(TRACE_MAX));
    if n + 1 >= TRACE_MAX - l.min(TRACE_MAX) {
        return;
    }
    s.trace[l..l + n].copy_from_slice(&line.as_bytes()[..n]);
    s.trace[l + n] = b'\n';
    s.trace_len = (l + n + 1) as u64;
}

#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => { if $crate::shm::verbose() { $crate::shm::trace_line(&format!($($a)*)); } };
}
