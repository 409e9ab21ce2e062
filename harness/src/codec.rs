//! Hand-written MultiversX serialisation: arguments sent to the contracts and values read
//! back from their storage, independent of the contracts' own (de)serialisation code.
use num_bigint::{BigInt, BigUint, Sign};

pub fn big(x: &BigInt) -> BigUint {
    x.to_biguint().unwrap_or_default()
}
pub fn top_big(x: &BigInt) -> Vec<u8> {
    if x.sign() != Sign::Plus {
        return vec![];
    }
    x.to_bytes_be().1
}
pub fn top_u64(x: u64) -> Vec<u8> {
    top_big(&BigInt::from(x))
}
pub fn top_bool(b: bool) -> Vec<u8> {
    if b {
        vec![1]
    } else {
        vec![]
    }
}
pub fn nest_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}
pub fn nest_big(x: &BigInt) -> Vec<u8> {
    nest_bytes(&top_big(x))
}
/// fixed-point value with its scale
pub fn nest_dec(x: &BigInt, scale: u32) -> Vec<u8> {
    let mut v = nest_big(x);
    v.extend_from_slice(&scale.to_be_bytes());
    v
}

/// Sequential reader over a serialised value.
pub struct Rd<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, i: 0 }
    }
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        if self.i + n > self.b.len() {
            self.i = self.b.len();
            return &[];
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        r
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1).first().copied().unwrap_or(0)
    }
    pub fn bool(&mut self) -> bool {
        self.u8() != 0
    }
    pub fn u32(&mut self) -> u32 {
        self.take(4).iter().fold(0, |k, b| k << 8 | *b as u32)
    }
    pub fn u64(&mut self) -> u64 {
        self.take(8).iter().fold(0, |k, b| k << 8 | *b as u64)
    }
    pub fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.take(n)
    }
    pub fn big(&mut self) -> BigUint {
        BigUint::from_bytes_be(self.bytes())
    }
    /// fixed-point value brought to `scale`
    pub fn dec(&mut self, scale: u32) -> String {
        let x = self.big();
        let s = self.u32();
        let p = |k: u32| BigUint::from(10u32).pow(k.min(60));
        if s <= scale {
            (x * p(scale - s)).to_string()
        } else if (&x % p(s - scale)) == BigUint::default() {
            (x / p(s - scale)).to_string()
        } else {
            format!("{x}e-{s}")
        }
    }
    pub fn opt_big(&mut self) -> Option<BigUint> {
        if self.bool() {
            Some(self.big())
        } else {
            None
        }
    }
    pub fn end(&self) -> bool {
        self.i >= self.b.len()
    }
}

/// Top-encoded fixed-point storage value.  Scales known to the contract's type are kept with the
/// value as well, so the layout is that of the nested form.
pub fn top_dec(b: &[u8], scale: u32) -> String {
    if b.is_empty() {
        return "0".into();
    }
    let mut r = Rd::new(b);
    r.dec(scale)
}
