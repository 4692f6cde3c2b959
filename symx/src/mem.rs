//! Byte-addressed objects: address = object id << 32 | offset.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub d: Vec<u8>,
    pub s: Option<Vec<E>>, // 0 = concrete byte
}
#[derive(Clone)]
pub struct Mem {
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
}
/// A run of bytes copied out of memory.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SB {
    pub d: Vec<u8>,
    pub s: Option<Vec<E>>,
}
impl SB {
    pub fn concrete(d: Vec<u8>) -> SB {
        SB { d, s: None }
    }
    pub fn len(&self) -> usize {
        self.d.len()
    }
    pub fn is_concrete(&self) -> bool {
        self.s.is_none()
    }
    #[inline]
    pub fn sym(&self, i: usize) -> E {
        match &self.s {
            None => 0,
            Some(s) => s[i],
        }
    }
    pub fn push(&mut self, o: &SB) {
        if o.s.is_some() && self.s.is_none() {
            self.s = Some(vec![0; self.d.len()]);
        }
        self.d.extend_from_slice(&o.d);
        if let Some(s) = &mut self.s {
            match &o.s {
                Some(os) => s.extend_from_slice(os),
                None => s.resize(self.d.len(), 0),
            }
        }
    }
}
pub type MR<T> = Result<T, String>;

impl Mem {
    pub fn new() -> Mem {
        Mem { objs: vec![None; 16], free: vec![] }
    }
    pub fn alloc(&mut self, size: usize) -> u64 {
        let o = Some(Rc::new(Obj { d: vec![0; size], s: None }));
        let id = match self.free.pop() {
            Some(i) => {
                self.objs[i as usize] = o;
                i
            }
            None => {
                self.objs.push(o);
                self.objs.len() as u32 - 1
            }
        };
        (id as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> MR<()> {
        let id = (addr >> 32) as usize;
        if id < 16 || id >= self.objs.len() || self.objs[id].is_none() {
            return Err(format!("free of {:#x}", addr));
        }
        self.objs[id] = None;
        self.free.push(id as u32);
        Ok(())
    }
    #[inline]
    pub fn obj(&self, addr: u64, len: usize) -> MR<(&Obj, usize)> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match self.objs.get(id) {
            Some(Some(o)) if off + len <= o.d.len() => Ok((o, off)),
            Some(Some(o)) => Err(format!("out of bounds: {:#x}+{} in {}", addr, len, o.d.len())),
            _ => Err(format!("bad address {:#x}", addr)),
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, addr: u64, len: usize) -> MR<(&mut Obj, usize)> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        if id < 2 || id == 3 {
            return Err(format!("write to constant {:#x}", addr));
        }
        match self.objs.get_mut(id) {
            Some(Some(o)) if off + len <= o.d.len() => Ok((Rc::make_mut(o), off)),
            Some(Some(_)) => Err(format!("out of bounds write: {:#x}+{}", addr, len)),
            _ => Err(format!("bad address {:#x}", addr)),
        }
    }
    pub fn read(&self, addr: u64, len: usize) -> MR<SB> {
        if len == 0 {
            return Ok(SB::concrete(vec![]));
        }
        let (o, off) = self.obj(addr, len)?;
        let d = o.d[off..off + len].to_vec();
        let s = match &o.s {
            Some(s) if s[off..off + len].iter().any(|e| *e != 0) => Some(s[off..off + len].to_vec()),
            _ => None,
        };
        Ok(SB { d, s })
    }
    pub fn write(&mut self, addr: u64, b: &SB) -> MR<()> {
        let len = b.len();
        if len == 0 {
            return Ok(());
        }
        let (o, off) = self.obj_mut(addr, len)?;
        o.d[off..off + len].copy_from_slice(&b.d);
        match (&mut o.s, &b.s) {
            (None, None) => {}
            (Some(s), None) => s[off..off + len].fill(0),
            (Some(s), Some(t)) => s[off..off + len].copy_from_slice(t),
            (x @ None, Some(t)) => {
                let mut s = vec![0; o.d.len()];
                s[off..off + len].copy_from_slice(t);
                *x = Some(s);
            }
        }
        Ok(())
    }
    pub fn realloc(&mut self, addr: u64, size: usize) -> MR<()> {
        let id = (addr >> 32) as usize;
        if addr & 0xffff_ffff != 0 || id < 16 {
            return Err(format!("realloc of {:#x}", addr));
        }
        match self.objs.get_mut(id) {
            Some(Some(o)) => {
                let o = Rc::make_mut(o);
                o.d.resize(size, 0);
                if let Some(s) = &mut o.s {
                    s.resize(size, 0);
                }
                Ok(())
            }
            _ => Err(format!("realloc of {:#x}", addr)),
        }
    }
}
