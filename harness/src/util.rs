//! Conversions between the crate's containers and plain vectors, and shared enumeration helpers.

use crate::refm::{self, Sp, T};
use iota_mam::spongos::Spongos;
pub use iota_mam::trits::{TritSlice, TritSliceMut, Trits};

/// Container with the given trits.
pub fn tr(x: &[u8]) -> Trits {
    let mut t = Trits::zero(x.len());
    t.slice_mut().put_trits(x);
    t
}
/// Trits of a view.
pub fn sv(x: TritSlice) -> T {
    let mut v = vec![9u8; x.size()];
    x.get_trits(&mut v);
    v
}
pub fn tv(x: &Trits) -> T {
    sv(x.slice())
}
/// Whether a view holds the trits `t`.
pub fn tv_eq(x: TritSlice, t: &[u8]) -> bool {
    sv(x) == t
}
/// View of a plain array.
pub fn sl(x: &[u8]) -> TritSlice<'_> {
    TritSlice::from_slice(x.len(), x)
}
pub fn slm(x: &mut [u8]) -> TritSliceMut<'_> {
    TritSliceMut::from_slice_mut(x.len(), x)
}

/// A fixed, irregular filling number `k` of `n` trits.
pub fn pat(k: u64, n: usize) -> T {
    let mut v = Vec::with_capacity(n);
    let mut z = k.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x243F6A8885A308D3;
    while v.len() < n {
        z = z.wrapping_add(0x9E3779B97F4A7C15);
        let mut x = z;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
        x ^= x >> 31;
        for _ in 0..20 {
            if v.len() < n {
                v.push((x % 3) as u8);
                x /= 3;
            }
        }
    }
    v
}
/// Filling `k`: constant 0, 1, 2, the cycle 0 1 2, then irregular ones.
pub fn fill(k: u64, n: usize) -> T {
    match k {
        0..=2 => vec![k as u8; n],
        3 => (0..n).map(|i| (i % 3) as u8).collect(),
        _ => pat(k, n),
    }
}

pub fn s(t: &[u8]) -> String {
    t.iter().map(|t| (b'0' + t) as char).collect()
}

/// What a sponge will still do: its next outputs and the inner part after a commit.
pub fn probe(x: &Spongos) -> T {
    let mut c = x.clone();
    let mut v = vec![0u8; 600];
    c.squeeze(slm(&mut v));
    let mut c = x.clone();
    c.commit();
    v.extend(tv(&c.to_inner_trits()));
    v
}
pub fn probe_ref(x: &Sp) -> T {
    let mut v = x.clone().squeeze(600);
    let mut c = x.clone();
    c.commit();
    v.extend(c.inner());
    v
}
/// A shorter fingerprint: 120 trits after a commit (all of the state reaches them) and 3 before.
pub fn tag(x: &Spongos) -> T {
    let mut c = x.clone();
    let mut v = vec![0u8; 160];
    c.squeeze(slm(&mut v[..40]));
    c.commit();
    c.squeeze(slm(&mut v[40..]));
    v
}
pub fn tag_ref(x: &Sp) -> T {
    let mut c = x.clone();
    let mut v = c.squeeze(40);
    c.commit();
    v.extend(c.squeeze(120));
    v
}

pub fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() {
        return Err(format!("{}: {} trits instead of {}", what, got.len(), want.len()));
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
    Err(format!("{}: first difference at trit {} of {} (got {}, expected {})", what, i, got.len(), got[i], want[i]))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// Impl sponge and reference sponge in equal states, having absorbed `n` trits of filling `k`.
pub fn pair(k: u64, n: usize) -> (Spongos, Sp) {
    let mut a = Spongos::init();
    let mut b = Sp::new();
    let x = pat(k, n);
    a.absorb(sl(&x));
    b.absorb(&x);
    (a, b)
}

/// `i` split into digits of the given bases, first varies fastest.
pub fn mixed(mut i: u64, bases: &[u64]) -> Vec<usize> {
    bases
        .iter()
        .map(|b| {
            let r = i % b;
            i /= b;
            r as usize
        })
        .collect()
}
pub fn prod(bases: &[u64]) -> u64 {
    bases.iter().product()
}
pub fn str_trits(x: &str) -> T {
    refm::from_str(x)
}

/// Trits somewhere inside a longer container, with other trits around them.
pub struct Placed {
    v: T,
    off: usize,
    n: usize,
    around: u64,
}
/// Number of arrangements `Placed` knows.
pub const PLACES: u64 = 24;
impl Placed {
    pub fn new(t: &[u8], k: u64) -> Placed {
        let off = [0, 1, 17, 162, 243, 486, 1001, 65537][(k % 8) as usize];
        let tail = [0, 1, 500][(k / 8 % 3) as usize];
        let mut v = pat(k, off + t.len() + tail);
        v[off..off + t.len()].copy_from_slice(t);
        Placed { v, off, n: t.len(), around: k }
    }
    pub fn sl(&self) -> TritSlice<'_> {
        sl(&self.v).drop(self.off).take(self.n)
    }
    pub fn slm(&mut self) -> TritSliceMut<'_> {
        let (off, n) = (self.off, self.n);
        slm(&mut self.v).drop(off).take(n)
    }
    /// The view holds `want` and nothing around it has changed.
    pub fn check(&self, what: &str, want: &[u8]) -> Result<(), String> {
        let what = format!("{} at {} of {}", what, self.off, self.v.len());
        same(&what, &sv(self.sl()), want)?;
        same(&format!("around {}", what), &self.v, &Placed::new(want, self.around).v)
    }
}
