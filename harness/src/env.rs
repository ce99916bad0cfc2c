//! Keys shared by the checks of fields and messages, each with its reference twin.

use crate::refm::{Mss, Sp, T};
use crate::util::*;
use iota_mam::app::core::{AppInst, MsgId};
use iota_mam::mss;
use iota_mam::pb3::Absorb;
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;

/// Signing key of height `h` after `skn` signatures.
pub struct Sk {
    pub sk: mss::PrivateKey,
    pub pk: mss::PublicKey,
    pub r: Mss,
}
pub fn sk(k: u64, h: usize, skn: usize) -> Sk {
    let (key, nonce) = (pat(9000 + k, 243), pat(9500 + k, (k as usize * 13) % 100));
    let mut sk = mss::PrivateKey::gen(&PRNG::init(sl(&key)), sl(&nonce), h);
    let mut r = Mss::new(&key, &nonce, h);
    for _ in 0..skn {
        sk.next();
    }
    r.skn = skn;
    let pk = mss_pk(r.pk());
    Sk { sk, pk, r }
}
pub fn mss_pk(t: &[u8]) -> mss::PublicKey {
    mss::PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut sl(t)).expect("a public key of the right size is refused")
}
pub fn mss_pk_trits(pk: &mss::PublicKey) -> T {
    let mut v = vec![9u8; 243];
    pk.wrap_absorb(&mut Spongos::init(), &mut slm(&mut v));
    v
}
pub fn msgid(t: &[u8]) -> MsgId {
    MsgId::unwrap_absorb_sized(&mut Spongos::init(), &mut sl(t)).expect("a message id of the right size is refused")
}
pub fn appinst(t: &[u8]) -> AppInst {
    AppInst::verif_from_trits(tr(t))
}

/// Equal sponges of both kinds.
pub fn in_sync(what: &str, a: &Spongos, b: &Sp) -> Result<(), String> {
    same(what, &tag(a), &tag_ref(b))
}

/// Write `n` trits with `f` in the middle of a longer buffer; nothing around may change.
pub fn written(n: usize, f: impl FnOnce(&mut TritSliceMut)) -> Result<T, String> {
    const G: usize = 40;
    let before = pat(n as u64 ^ 77, n + 2 * G);
    let mut buf = before.clone();
    let left = {
        let whole = slm(&mut buf);
        let mut b = whole.drop(G).take(n);
        f(&mut b);
        b.size()
    };
    if left != 0 {
        return Err(format!("{} trits written where {} are announced", n as i64 - left as i64, n));
    }
    if buf[..G] != before[..G] || buf[G + n..] != before[G + n..] {
        return Err(format!("writing {} trits changes trits around them", n));
    }
    Ok(buf[G..G + n].to_vec())
}
