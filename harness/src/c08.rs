//! C08: the seeded generator.
use crate::enc::*;
use fawkes_crypto::core::seedbox::SeedboxBlake2;
use rand::Rng;

struct Hist {
    gens: Vec<Value>,
    boxes: Vec<SeedboxBlake2>,
    ops: Vec<Value>,
}
impl Hist {
    fn new() -> Hist {
        Hist { gens: vec![], boxes: vec![], ops: vec![] }
    }
    fn gen(&mut self, salt: Option<&[u8]>) -> usize {
        self.gens.push(match salt {
            Some(s) => json!({"salted":true,"salt":s}),
            None => json!({"salted":false,"salt":[]}),
        });
        self.boxes.push(match salt {
            Some(s) => SeedboxBlake2::new_with_salt(s),
            None => SeedboxBlake2::new(),
        });
        self.boxes.len() - 1
    }
    fn u32(&mut self, g: usize) {
        let v = self.boxes[g].next_u32().to_le_bytes();
        self.ops.push(json!({"g":g+1,"o":"u32","n":1,"r":v}));
    }
    fn u64(&mut self, g: usize, via_gen: bool) {
        let v: u64 = if via_gen { self.boxes[g].gen() } else { self.boxes[g].next_u64() };
        self.ops.push(json!({"g":g+1,"o":"u64","n":1,"r":v.to_le_bytes()}));
    }
    fn fill(&mut self, g: usize, n: usize) {
        let mut b = vec![0u8; n];
        self.boxes[g].fill_bytes(&mut b);
        self.ops.push(json!({"g":g+1,"o":"fill","n":n,"r":b}));
    }
    /// draw and discard n blocks
    fn skip(&mut self, g: usize, n: usize) {
        for _ in 0..8 * n {
            self.boxes[g].next_u32();
        }
        self.ops.push(json!({"g":g+1,"o":"skip","n":n,"r":[]}));
    }
    fn done(self, o: &mut Out) {
        o.ev(json!({"t":"history","gens":self.gens,"ops":self.ops}));
    }
}

pub fn run(c: &Ctx) {
    let mut o = c.out("small.ndjson");
    let mut r = c.rng(8);
    // single generators: a long prefix of the stream, many salt lengths
    for salt in [None, Some(&b""[..]), Some(&b"x"[..]), Some(&b"fawkes_poseidon(t=3,f=8,p=53)"[..])].iter() {
        let mut h = Hist::new();
        let g = h.gen(*salt);
        for _ in 0..8 * 40 {
            h.u32(g);
        }
        h.done(&mut o);
    }
    for n in [0usize, 1, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300, 1000].iter() {
        let salt = r.bytes(*n);
        let mut h = Hist::new();
        let g = h.gen(Some(&salt));
        for _ in 0..17 {
            h.u32(g);
        }
        h.done(&mut o);
    }
    // deep in the stream: counters that need a second and third byte
    for salt in [None, Some(&b"deep"[..])].iter() {
        let mut h = Hist::new();
        let g = h.gen(*salt);
        let mut at = 0usize;
        let mut points = vec![100usize, 127, 255, 256, 511, 1023, 4095, 32767, 65535, 131071, 262143, 1048575];
        if c.thorough {
            points.extend_from_slice(&[2097151, 8388607, 16777215, 33554431, 67108863, 134217727]);
        } else if salt.is_some() {
            points.extend_from_slice(&[2097151, 16777215]);
        }
        for p in points {
            if p > at {
                h.skip(g, p - at);
                at = p;
            }
            for _ in 0..20 {
                h.u32(g);
            }
            // align
            for _ in 0..4 {
                h.u32(g);
            }
            at += 3;
        }
        h.done(&mut o);
    }
    // interleavings of several generators, equal and different salts
    for _ in 0..c.n(30, 300) {
        let mut h = Hist::new();
        let s1 = r.below(70) as usize;
        let s1 = r.bytes(s1);
        h.gen(Some(&s1));
        h.gen(Some(&s1));
        h.gen(None);
        h.gen(Some(&r.bytes(5)));
        for k in 0..60 {
            let g = if k < 20 { r.below(2) } else { r.below(4) } as usize;
            match r.below(6) {
                0 => h.u64(g, false),
                1 => h.u64(g, true),
                2 => {
                    let n = r.below(40) as usize;
                    h.fill(g, n)
                }
                _ => h.u32(g),
            }
        }
        h.done(&mut o);
    }
}
