//! The real processor with a data page, a code page and debug handlers that report registers.
use crate::fx::*;
use crate::isa::*;
use parasol_cpu::assembly::IsaOp;
use parasol_cpu::tomasulo::registers::RegisterName;
use parasol_cpu::*;
use std::sync::{Arc, Mutex};

pub type Reg = RegisterName<Register>;
pub const fn x(n: usize) -> Reg {
    RegisterName::new(n)
}

/// Raw bytes as an argument type.
pub struct Blob(pub Vec<Byte>);
impl DynamicToArg for Blob {
    fn alignment(&self) -> usize {
        1
    }
    fn size(&self) -> usize {
        self.0.len()
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.0.clone()
    }
    fn try_from_bytes(d: Vec<Byte>) -> Result<Self> {
        Ok(Blob(d))
    }
}

pub fn byte(b: B) -> Byte {
    match b {
        B::P(v) => Byte::Plaintext(v),
        B::C(v) => Byte::Ciphertext(Fx::get().bits(v as u128, 8)),
    }
}
pub fn unbyte(b: &Byte) -> B {
    match b {
        Byte::Plaintext(v) => B::P(*v),
        Byte::Ciphertext(c) => B::C(Fx::get().open(c) as u8),
    }
}
pub fn bytes_of(v: Val) -> Vec<B> {
    (0..v.w.div_ceil(8)).map(|i| (v.v >> (8 * i)) as u8).map(|b| if v.enc { B::C(b) } else { B::P(b) }).collect()
}

pub const HANDLERS: u32 = 8;

pub struct Rig {
    pub comp: FheComputer,
    pub mem: Arc<Memory>,
    pub data: u32,
    pub code: u32,
    code_len: u32,
    seen: Arc<Mutex<Vec<(u32, Val)>>>,
}

impl Rig {
    pub fn new() -> Rig {
        rayon::mc::reset();
        rayon::mc::set_picker(None);
        let fx = Fx::get();
        let mem = Arc::new(Memory::new_default_stack());
        let data = mem.try_allocate(PAGE_SIZE).unwrap().into();
        let code = mem.try_allocate(PAGE_SIZE).unwrap().into();
        Rig { comp: FheComputer::new(&fx.enc, &fx.eval), mem, data, code, code_len: 0, seen: Default::default() }
    }
    pub fn poke(&self, a: u32, b: &[B]) {
        self.mem.try_write_type_dyn(a.into(), &Blob(b.iter().map(|b| byte(*b)).collect())).unwrap();
    }
    pub fn peek(&self, a: u32, n: usize) -> Vec<B> {
        self.mem.try_load_type_dyn::<Blob>(a.into(), 1, n).unwrap().0.iter().map(unbyte).collect()
    }
    pub fn load(&mut self, prog: &[IsaOp]) {
        assert!(prog.len() * 8 <= PAGE_SIZE as usize);
        for (i, op) in prog.iter().enumerate() {
            self.mem.try_write_type(Ptr32::from(self.code + 8 * i as u32), &u64::from(*op)).unwrap();
        }
        // never fall through into an older, longer program
        for i in prog.len() as u32..self.code_len {
            self.mem.try_write_type(Ptr32::from(self.code + 8 * i), &0u64).unwrap();
        }
        self.code_len = prog.len() as u32;
    }
    pub fn options(&self, gas: Option<u32>) -> RunProgramOptions {
        self.options_with(gas, |_| {})
    }
    pub fn options_with(&self, gas: Option<u32>, hook: fn(u32)) -> RunProgramOptions {
        let mut o = RunProgramOptionsBuilder::new().gas_limit(gas);
        for h in 0..HANDLERS {
            let s = self.seen.clone();
            o = o.debug_handler(move |_, _, r: &Register| {
                hook(h);
                let v = match r {
                    Register::Plaintext { val, width } => Val { enc: false, v: *val, w: *width },
                    Register::Ciphertext(c) => {
                        let c = c.unwrap_l1glwe();
                        Val { enc: true, v: Fx::get().open(c), w: c.len() as u32 }
                    }
                };
                s.lock().unwrap().push((h, v));
            });
        }
        o.build()
    }
    /// What the debug handlers saw since the last time this was asked.
    pub fn seen(&self) -> Vec<(u32, Val)> {
        std::mem::take(&mut *self.seen.lock().unwrap())
    }
    /// Run the loaded program without arguments: gas used and what the debug handlers saw.
    pub fn run(&mut self, o: &RunProgramOptions) -> (std::result::Result<u32, Error>, Vec<(u32, Val)>) {
        self.seen.lock().unwrap().clear();
        let r = self.comp.run_program_with_options(self.code.into(), &self.mem, ArgsBuilder::new().no_return_value(), o);
        (r.map(|x| x.0), std::mem::take(&mut *self.seen.lock().unwrap()))
    }
}
