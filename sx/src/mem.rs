//! Byte-addressed memory: every object has its own 16 MiB address slot, objects are copy-on-write.
use crate::expr::E;
use std::rc::Rc;

pub const SLOT: u32 = 24;
const CH: usize = 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Heap,
    Stack,
    Func(u32),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete byte
    pub kind: Kind,
    pub ro: bool,
}

#[derive(Clone)]
struct Chunk {
    o: [Option<Rc<Obj>>; CH],
    live: u32,
}

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>, // None: all objects of the chunk are dead
    next: u64,
}

fn empty_chunk() -> Chunk {
    Chunk { o: [const { None }; CH], live: 0 }
}

impl Mem {
    pub fn new() -> Mem {
        // id 0 is never used: null and small dangling addresses
        Mem { chunks: vec![Some(Rc::new(empty_chunk()))], next: 1 }
    }
    pub fn alloc(&mut self, data: Vec<u8>, kind: Kind, ro: bool) -> u64 {
        let id = self.next;
        self.next += 1;
        let ci = (id as usize) / CH;
        if ci >= self.chunks.len() {
            // retire the previous chunk if everything in it is dead
            self.chunks.push(Some(Rc::new(empty_chunk())));
        }
        let c = Rc::make_mut(self.chunks[ci].as_mut().unwrap());
        c.o[id as usize % CH] = Some(Rc::new(Obj { data, sym: None, kind, ro }));
        c.live += 1;
        id << SLOT
    }
    pub fn free(&mut self, id: u64) {
        let ci = (id as usize) / CH;
        if let Some(cr) = self.chunks[ci].as_mut() {
            let c = Rc::make_mut(cr);
            c.o[id as usize % CH] = None;
            c.live -= 1;
            if c.live == 0 && ci + 1 < self.chunks.len() {
                self.chunks[ci] = None;
            }
        }
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Obj> {
        let ci = (id as usize) / CH;
        match self.chunks.get(ci) {
            Some(Some(c)) => c.o[id as usize % CH].as_deref(),
            _ => None,
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let ci = (id as usize) / CH;
        match self.chunks.get_mut(ci) {
            Some(Some(c)) => {
                let c = Rc::make_mut(c);
                c.o[id as usize % CH].as_mut().map(Rc::make_mut)
            }
            _ => None,
        }
    }
    pub fn existed(&self, id: u64) -> bool {
        id > 0 && id < self.next
    }
}
