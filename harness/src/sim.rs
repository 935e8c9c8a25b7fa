//! A simulated I2C bus with simulated MLX90640/MLX90641 cameras on it.
//!
//! The bus implements the embedded-hal traits, so the real driver runs against it unmodified. It
//! is also the monitor's sensor: it records every transaction, judges whether the transaction is
//! one the device's memory map allows, injects faults at chosen operation indices, lets the camera
//! finish measurements at chosen points between operations, and enforces a logical operation
//! budget so that "did not return" becomes observable without a clock.
use std::cell::RefCell;
use std::rc::Rc;

use embedded_hal::blocking::i2c;

pub const BUDGET_PANIC: &str = "MLXMON-BUDGET: too many bus operations for one call";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Model {
    M40,
    M41,
}

impl Model {
    pub const BOTH: [Model; 2] = [Model::M40, Model::M41];
    pub fn name(self) -> &'static str {
        match self {
            Model::M40 => "mlx90640",
            Model::M41 => "mlx90641",
        }
    }
    pub fn width(self) -> usize {
        match self {
            Model::M40 => 32,
            Model::M41 => 16,
        }
    }
    pub fn height(self) -> usize {
        match self {
            Model::M40 => 24,
            Model::M41 => 12,
        }
    }
    pub fn pixels(self) -> usize {
        self.width() * self.height()
    }
    pub fn ram_end(self) -> u16 {
        match self {
            Model::M40 => 0x073F,
            Model::M41 => 0x05BF,
        }
    }
    pub fn ram_len(self) -> usize {
        usize::from(self.ram_end() - RAM_BASE) + 1
    }
    /// (V_BE, CP0, GAIN, PTAT, CP1, VDD)
    pub fn aux(self) -> [u16; 6] {
        match self {
            Model::M40 => [0x0700, 0x0708, 0x070A, 0x0720, 0x0728, 0x072A],
            Model::M41 => [0x0580, 0x0588, 0x058A, 0x05A0, 0x05A8, 0x05AA],
        }
    }
    pub fn cp(self, subpage: usize) -> u16 {
        self.aux()[if subpage == 0 { 1 } else { 4 }]
    }
    /// The RAM address which holds pixel `i` of `subpage` (datasheet memory maps).
    pub fn pixel_addr(self, i: usize, subpage: usize) -> u16 {
        match self {
            Model::M40 => RAM_BASE + i as u16,
            Model::M41 => RAM_BASE + ((i / 32) * 64 + subpage * 32 + i % 32) as u16,
        }
    }
    /// Does pixel `i` belong to `subpage` when measured in chess (true) or interleaved mode?
    pub fn in_subpage(self, i: usize, subpage: usize, chess: bool) -> bool {
        match self {
            Model::M41 => true,
            Model::M40 => {
                let (r, c) = (i / 32, i % 32);
                let n = if chess { (r + c) % 2 } else { r % 2 };
                n == subpage
            }
        }
    }
    pub fn self_heating(self) -> f64 {
        match self {
            Model::M40 => 8.0,
            Model::M41 => 5.0,
        }
    }
    pub fn basic_range(self) -> usize {
        match self {
            Model::M40 => 1,
            Model::M41 => 2,
        }
    }
}

pub const RAM_BASE: u16 = 0x0400;
pub const EEPROM_BASE: u16 = 0x2400;
pub const EEPROM_WORDS: usize = 832;
pub const STATUS: u16 = 0x8000;
pub const CONTROL: u16 = 0x800D;
pub const I2CREG: u16 = 0x800F;

pub const ST_NEW: u16 = 0x0008;
pub const ST_OVERWRITE: u16 = 0x0010;
pub const ST_START: u16 = 0x0020;

#[derive(Clone, Debug)]
pub struct Cam {
    pub model: Model,
    pub addr: u8,
    pub eeprom: Vec<u16>,
    pub ram: Vec<u16>,
    pub status: u16,
    pub control: u16,
    pub i2creg: u16,
    /// After a start-measurement command, complete it after this many further status reads.
    pub measure_delay: Option<u32>,
    pub pending: Option<u32>,
    /// The start bit is cleared when the measurement begins rather than when it is complete.
    pub drops_start: bool,
    /// RAM images delivered by successive measurements.
    pub frames: Vec<Vec<u16>>,
    pub completed: usize,
}

impl Cam {
    pub fn new(model: Model, addr: u8, eeprom: Vec<u16>, ram: Vec<u16>) -> Self {
        Self {
            model,
            addr,
            eeprom,
            ram,
            status: 0,
            control: match model {
                Model::M40 => 0x1901,
                Model::M41 => 0x0901,
            },
            i2creg: 0,
            measure_delay: None,
            pending: None,
            drops_start: false,
            frames: Vec::new(),
            completed: 0,
        }
    }
    pub fn chess(&self) -> bool {
        self.control & 0x1000 != 0
    }
    pub fn resolution(&self) -> u16 {
        (self.control >> 10) & 3
    }
    fn word(&self, a: u16) -> Option<u16> {
        if (RAM_BASE..=self.model.ram_end()).contains(&a) {
            return Some(self.ram[usize::from(a - RAM_BASE)]);
        }
        if (EEPROM_BASE..EEPROM_BASE + EEPROM_WORDS as u16).contains(&a) {
            return Some(self.eeprom[usize::from(a - EEPROM_BASE)]);
        }
        match a {
            STATUS => Some(self.status),
            CONTROL => Some(self.control),
            I2CREG => Some(self.i2creg),
            _ => None,
        }
    }
    /// The region of the memory map an address is in; reads must stay within one region.
    fn region(&self, a: u16) -> u8 {
        if (RAM_BASE..=self.model.ram_end()).contains(&a) {
            1
        } else if (EEPROM_BASE..EEPROM_BASE + EEPROM_WORDS as u16).contains(&a) {
            2
        } else {
            match a {
                STATUS => 3,
                CONTROL => 4,
                I2CREG => 5,
                _ => 0,
            }
        }
    }
    pub fn ram_word(&self, a: u16) -> i16 {
        self.ram[usize::from(a - RAM_BASE)] as i16
    }
    pub fn set_ram(&mut self, a: u16, v: i16) {
        self.ram[usize::from(a - RAM_BASE)] = v as u16;
    }
    /// The camera finishes a measurement: new RAM content, the other subpage, flag set.
    pub fn complete(&mut self) {
        if !self.frames.is_empty() {
            let n = self.completed % self.frames.len();
            let (ram, frames) = (&mut self.ram, &self.frames);
            ram.copy_from_slice(&frames[n]);
        }
        self.completed += 1;
        self.status = (self.status ^ 1) | ST_NEW;
        self.status &= !ST_START;
        self.pending = None;
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Read,
    Write,
    /// A measurement was completed by the camera before the next operation.
    Frame,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub kind: Kind,
    pub i2c: u8,
    /// Register/memory address of the transaction.
    pub start: u16,
    /// Bytes read, or bytes written (including the address).
    pub len: usize,
    /// Writes of 4 bytes: the value written; successful reads of one word: the word read.
    pub value: u16,
    /// For accepted writes: the register content before.
    pub before: u16,
    pub ok: bool,
    /// Is this a transaction the memory map of the addressed device allows?
    pub legal: bool,
}

impl Op {
    pub fn show(&self) -> String {
        match self.kind {
            Kind::Read => format!(
                "R@{:02x}[{:04x}+{}]{}{}",
                self.i2c,
                self.start,
                self.len,
                if self.ok { "" } else { "!" },
                if self.legal { "" } else { "?" }
            ),
            Kind::Write => format!(
                "W@{:02x}[{:04x}={:04x}/{}]{}{}",
                self.i2c,
                self.start,
                self.value,
                self.len,
                if self.ok { "" } else { "!" },
                if self.legal { "" } else { "?" }
            ),
            Kind::Frame => "FRAME".into(),
        }
    }
}

pub fn show_ops(ops: &[Op]) -> String {
    let mut s = String::new();
    for o in ops.iter().take(24) {
        s.push_str(&o.show());
        s.push(' ');
    }
    if ops.len() > 24 {
        s.push_str(&format!("... ({} ops)", ops.len()));
    }
    s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// The transaction fails before anything is transferred.
    Clean,
    /// The transaction fails after part of the read buffer was filled with garbage.
    Partial,
    /// A write takes effect and is reported as failed all the same (a read fails like `Clean`).
    Applied,
}

/// Error of the write-then-read direction.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RdErr(pub u64);
/// Error of the write direction.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WrErr(pub u64);

impl std::fmt::Display for RdErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "read fault {}", self.0)
    }
}
impl std::fmt::Display for WrErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "write fault {}", self.0)
    }
}
impl std::error::Error for RdErr {}
impl std::error::Error for WrErr {}

pub const NACK: u64 = 0xACAC;

#[derive(Clone, Debug)]
pub struct Sim {
    pub cams: Vec<Cam>,
    pub log: Vec<Op>,
    /// Operations since the last `arm`.
    pub count: u64,
    pub budget: u64,
    /// Fail these operations (index since `arm`).
    pub faults: Vec<(u64, Fault, u64)>,
    /// Fail every operation from this index on.
    pub dead_from: Option<(u64, u64)>,
    /// The camera completes a measurement right before these operations (camera index, op index).
    pub frame_at: Vec<(usize, u64)>,
    pub logging: bool,
    pub total_ops: u64,
    pub total_faults: u64,
}

impl Sim {
    pub fn new(cams: Vec<Cam>) -> Self {
        Self {
            cams,
            log: Vec::with_capacity(4096),
            count: 0,
            budget: 4000,
            faults: Vec::with_capacity(16),
            dead_from: None,
            frame_at: Vec::with_capacity(16),
            logging: true,
            total_ops: 0,
            total_faults: 0,
        }
    }
    /// Start observing one API call: clears the log and the fault plan.
    pub fn arm(&mut self) {
        self.log.clear();
        self.log.reserve(4096);
        self.count = 0;
        self.budget = 4000;
        self.faults.clear();
        self.dead_from = None;
        self.frame_at.clear();
    }
    fn begin(&mut self) -> Option<(Fault, u64)> {
        if self.budget == 0 {
            panic!("{}", BUDGET_PANIC);
        }
        self.budget -= 1;
        let n = self.count;
        self.count += 1;
        self.total_ops += 1;
        let mut i = 0;
        while i < self.frame_at.len() {
            let (c, at) = self.frame_at[i];
            if at == n {
                self.cams[c].complete();
                self.push(Op {
                    kind: Kind::Frame,
                    i2c: 0,
                    start: 0,
                    len: 0,
                    value: 0,
                    before: 0,
                    ok: true,
                    legal: true,
                });
            }
            i += 1;
        }
        let hit = self
            .faults
            .iter()
            .find(|f| f.0 == n)
            .map(|f| (f.1, f.2))
            .or_else(|| match self.dead_from {
                Some((from, id)) if n >= from => Some((Fault::Clean, id)),
                _ => None,
            });
        if hit.is_some() {
            self.total_faults += 1;
        }
        hit
    }
    fn push(&mut self, op: Op) {
        if self.logging {
            if self.log.len() == self.log.capacity() {
                panic!("{}", BUDGET_PANIC);
            }
            self.log.push(op);
        }
    }
    fn find(&mut self, addr: u8) -> Option<usize> {
        self.cams.iter().position(|c| c.addr == addr)
    }
    fn write_read(&mut self, address: u8, bytes: &[u8], buffer: &mut [u8]) -> Result<(), RdErr> {
        let fault = self.begin();
        let start = match bytes {
            [a, b, ..] => u16::from_be_bytes([*a, *b]),
            _ => 0,
        };
        let mut op = Op {
            kind: Kind::Read,
            i2c: address,
            start,
            len: buffer.len(),
            value: 0,
            before: 0,
            ok: false,
            legal: bytes.len() == 2 && buffer.len() >= 2 && buffer.len() % 2 == 0,
        };
        let cam = match self.find(address) {
            Some(c) => c,
            None => {
                op.legal = false;
                self.push(op);
                return Err(RdErr(NACK));
            }
        };
        {
            let c = &self.cams[cam];
            let words = (buffer.len() / 2) as u32;
            if words > 0 {
                let last = u32::from(start) + words - 1;
                let r = c.region(start);
                if r == 0 || last > 0xFFFF || c.region(last as u16) != r {
                    op.legal = false;
                }
            }
        }
        if let Some((kind, id)) = fault {
            if kind == Fault::Partial {
                let n = buffer.len() / 2;
                for (i, b) in buffer[..n].iter_mut().enumerate() {
                    *b = 0xA5 ^ (i as u8);
                }
            }
            self.push(op);
            return Err(RdErr(id));
        }
        let mut done = false;
        let c = &mut self.cams[cam];
        if start == STATUS {
            if let Some(p) = c.pending {
                if p == 0 {
                    c.complete();
                    done = true;
                } else {
                    c.pending = Some(p - 1);
                    if c.drops_start {
                        c.status &= !ST_START;
                    }
                }
            }
        }
        if done {
            self.push(Op {
                kind: Kind::Frame,
                i2c: address,
                start: 0,
                len: 0,
                value: 0,
                before: 0,
                ok: true,
                legal: true,
            });
        }
        let c = &mut self.cams[cam];
        for (i, chunk) in buffer.chunks_mut(2).enumerate() {
            let w = c
                .word(start.wrapping_add(i as u16))
                .unwrap_or(0xDEAD)
                .to_be_bytes();
            let n = chunk.len();
            chunk.copy_from_slice(&w[..n]);
        }
        if let [a, b] = buffer {
            op.value = u16::from_be_bytes([*a, *b]);
        }
        op.ok = true;
        self.push(op);
        Ok(())
    }
    fn write(&mut self, address: u8, bytes: &[u8]) -> Result<(), WrErr> {
        let fault = self.begin();
        let start = match bytes {
            [a, b, ..] => u16::from_be_bytes([*a, *b]),
            _ => 0,
        };
        let value = match bytes {
            [_, _, a, b] => u16::from_be_bytes([*a, *b]),
            _ => 0,
        };
        let mut op = Op {
            kind: Kind::Write,
            i2c: address,
            start,
            len: bytes.len(),
            value,
            before: 0,
            ok: false,
            legal: bytes.len() == 4 && matches!(start, STATUS | CONTROL | I2CREG),
        };
        let cam = match self.find(address) {
            Some(c) => c,
            None => {
                op.legal = false;
                self.push(op);
                return Err(WrErr(NACK));
            }
        };
        op.before = self.cams[cam].word(start).unwrap_or(0);
        if let Some((f, id)) = fault {
            if f != Fault::Applied {
                self.push(op);
                return Err(WrErr(id));
            }
        }
        if bytes.len() == 4 {
            let c = &mut self.cams[cam];
            match start {
                STATUS => {
                    // The subpage bits are read-only, the flag can only be cleared, the rest is
                    // stored as written so that a corrupted reserved bit stays visible.
                    let keep = c.status & 0x0001;
                    let flag = c.status & value & ST_NEW;
                    c.status = (value & !0x0009) | keep | flag;
                    if value & ST_START != 0 {
                        if let Some(d) = c.measure_delay {
                            c.pending = Some(d);
                        }
                    }
                }
                CONTROL => c.control = value,
                I2CREG => c.i2creg = value,
                a => {
                    if let Some(i) = a
                        .checked_sub(RAM_BASE)
                        .map(usize::from)
                        .filter(|i| *i < c.ram.len())
                    {
                        c.ram[i] = value;
                    } else if let Some(i) = a
                        .checked_sub(EEPROM_BASE)
                        .map(usize::from)
                        .filter(|i| *i < c.eeprom.len())
                    {
                        c.eeprom[i] = value;
                    }
                }
            }
        }
        if let Some((_, id)) = fault {
            self.push(op);
            return Err(WrErr(id));
        }
        op.ok = true;
        self.push(op);
        Ok(())
    }
}

/// A handle to the shared bus; this is what is given to the driver.
#[derive(Clone, Debug)]
pub struct Bus(pub Rc<RefCell<Sim>>);

impl Bus {
    pub fn new(sim: Sim) -> Self {
        Bus(Rc::new(RefCell::new(sim)))
    }
    pub fn one(cam: Cam) -> Self {
        Self::new(Sim::new(vec![cam]))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Sim) -> R) -> R {
        f(&mut self.0.borrow_mut())
    }
    pub fn cam<R>(&self, f: impl FnOnce(&mut Cam) -> R) -> R {
        f(&mut self.0.borrow_mut().cams[0])
    }
    pub fn arm(&self) {
        self.with(|s| s.arm())
    }
    /// An independent copy of the bus and everything on it.
    pub fn fork(&self) -> Bus {
        let mut s = self.0.borrow().clone();
        s.arm();
        Bus::new(s)
    }
    pub fn log(&self) -> Vec<Op> {
        self.0.borrow().log.clone()
    }
}

impl i2c::WriteRead for Bus {
    type Error = RdErr;
    fn write_read(&mut self, address: u8, bytes: &[u8], buffer: &mut [u8]) -> Result<(), RdErr> {
        self.0.borrow_mut().write_read(address, bytes, buffer)
    }
}

impl i2c::Write for Bus {
    type Error = WrErr;
    fn write(&mut self, address: u8, bytes: &[u8]) -> Result<(), WrErr> {
        self.0.borrow_mut().write(address, bytes)
    }
}
