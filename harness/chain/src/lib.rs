#[macro_use]
#[path = "../../rt.rs"]
pub mod rt;
use blockchain_source::cardano::{time::{epoch_slot_to_absolute_byron, Era}, Point};
use cardano_sdk::protocol::Point as NodePoint;
use dcspark_core::{AssetName, BlockId, PolicyId, SlotNumber};
use rt::*;
use std::convert::TryFrom;

fn era(n: u64) -> (Era, u64, u64, u64, u64) {
    match n {
        0 => (Era::SHELLEY_MAINNET, 4492800, 208, 1596059091, 432000),
        1 => (Era::SHELLEY_TESTNET, 1598400, 74, 1595967616, 432000),
        2 => (Era::SHELLEY_PREPROD, 86400, 4, 1655769600, 432000),
        3 => (Era::SHELLEY_PREVIEW, 0, 0, 1666656000, 86400),
        _ => (Era::SHELLEY_SANCHO, 0, 0, 1686789000, 86400),
    }
}
/// slots of the first 2^40 seconds after the era began
const FAR: u64 = 1 << 40;

/// text of `n` hexadecimal digits, of which those at the `free` positions picked are any characters
fn digits(n: usize, free: u64) -> (String, bool) {
    let mut v = Vec::with_capacity(n);
    for i in 0..n { v.push(b"0123456789abcdef"[i % 16]); }
    let mut valid = true;
    for _ in 0..free {
        if n == 0 { break; }
        let at = match pick("position", 4) { 0 => 0, 1 => n - 1, 2 => n / 2, _ => (n / 2).saturating_sub(1) };
        let c = range("character", 0x20, 0x7e) as u8;
        v[at] = c;
    }
    for c in &v { valid &= (*c >= b'0' && *c <= b'9') | (*c >= b'a' && *c <= b'f') | (*c >= b'A' && *c <= b'F'); }
    (String::from_utf8(v).unwrap_or_default(), valid)
}
fn nibble(c: u8) -> u8 { if c <= b'9' { c - b'0' } else if c <= b'F' { c - b'A' + 10 } else { c - b'a' + 10 } }
fn bytes(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len() / 2);
    for i in 0..b.len() / 2 { v.push(nibble(b[2 * i]) << 4 | nibble(b[2 * i + 1])); }
    v
}
fn lower(s: &str) -> Vec<u8> { let mut v = s.as_bytes().to_vec(); for c in v.iter_mut() { if *c >= b'A' && *c <= b'F' { *c += 32; } } v }

entries! {
    fn t01_time() {
        let (e, first, _, known, _) = era(pick("network", 5));
        let n = range("slots", 0, FAR);
        check(e.compute_timestamp(first + n) == known + n, "a slot's time is that of the era's first slot plus one second per slot");
        cover("time");
    }
    fn t01_custom() {
        let (first, known, len) = (range("first", 0, FAR), range("known", 0, FAR), match pick("length", 4) { 0 => 1, 1 => 2, 2 => 20, _ => 21600 });
        let e = Era { first_slot: first, start_epoch: 0, known_time: known, slot_length: len, epoch_length_seconds: 432000 };
        let n = range("slots", 0, FAR);
        let t = e.compute_timestamp(first + n);
        check(t == known + n * len, "a slot's time is that of the era's first slot plus the length of the slots since");
        check(e.compute_timestamp(first + n + 1) == t + len, "the next slot is one slot length later");
        cover("time");
    }
    fn t02_epochs() {
        let (e, first, start, _, len) = era(pick("network", 5));
        let slot = u64_("slot");
        match (e.absolute_slot_to_epoch(slot), e.absolute_slot_to_relative(slot)) {
            (Some(epoch), Some(rel)) => {
                check(slot >= first, "a slot before the era has no epoch");
                check(rel < len, "the slot within its epoch is below the epoch's length");
                check(epoch >= start, "epochs count from the era's first");
                check((epoch - start) as u128 * len as u128 + rel as u128 + first as u128 == slot as u128, "epoch and slot within it give the slot back");
                cover("in the era");
            }
            (None, None) => { check(slot < first, "every slot of the era has an epoch"); cover("before the era"); }
            _ => check(false, "a slot has both an epoch and a place in it, or neither"),
        }
    }
    fn t02_byron() {
        let (a, b) = (range("epoch", 0, 1 << 32), range("slot", 0, 21599));
        let s = epoch_slot_to_absolute_byron(a, b);
        check(s == a * 21600 + b, "Byron epochs have 21600 slots");
        check(s + 1 == if b == 21599 { epoch_slot_to_absolute_byron(a + 1, 0) } else { epoch_slot_to_absolute_byron(a, b + 1) }, "slots are numbered without gaps");
        cover("byron");
    }
    fn p01_to_node() {
        let slot = u64_("slot");
        let n = match pick("length", 6) { 0 => 0, 1 => 62, 2 => 63, 3 => 64, 4 => 65, _ => 66 };
        let (text, valid) = digits(n, 2);
        let p = Point::BlockHeader { slot_nb: SlotNumber::new(slot), hash: BlockId::new(text.clone()) };
        match NodePoint::try_from(p) {
            Ok(NodePoint::BlockHeader { slot_nb, hash }) => {
                check(valid && n == 64, "only a block id of 64 hexadecimal digits names a block");
                check(slot_nb == slot, "the slot is kept");
                check(hash.0[..] == bytes(&text)[..], "the hash is the one the block id spells");
                match Point::from(NodePoint::BlockHeader { slot_nb, hash }) {
                    Point::BlockHeader { slot_nb, hash } => {
                        check(slot_nb == SlotNumber::new(slot), "the slot comes back");
                        let h: &str = hash.as_ref();
                        check(h.as_bytes() == &lower(&text)[..], "the block id comes back");
                    }
                    Point::Origin => check(false, "a block stays a block"),
                }
                cover("accepted");
            }
            Ok(NodePoint::Origin) => check(false, "a block stays a block"),
            Err(_) => { check(!(valid && n == 64), "a block id of 64 hexadecimal digits is accepted"); cover("refused"); }
        }
    }
    fn p01_from_node() {
        let mut h = [0u8; 32];
        let slot = u64_("slot");
        let zero = pick("zero", 2) == 1;
        if !zero { for i in 0..32 { h[i] = (i as u8).wrapping_mul(37); } for i in [0, 13, 31] { h[i] = u8_("byte"); } }
        let p = NodePoint::BlockHeader { slot_nb: slot, hash: cardano_sdk::chain::HeaderHash(h) };
        let ours = Point::from(p.clone());
        check(matches!(&ours, Point::BlockHeader { slot_nb, .. } if *slot_nb == SlotNumber::new(slot)), "the slot is kept");
        match NodePoint::try_from(ours) {
            Ok(NodePoint::BlockHeader { slot_nb, hash }) => { check(slot_nb == slot, "the slot comes back"); check(hash.0 == h, "the hash comes back"); }
            _ => check(false, "a point from the node goes back to the node"),
        }
        cover("there and back");
    }
    fn p01_origin() {
        check(matches!(NodePoint::try_from(Point::Origin), Ok(NodePoint::Origin)), "the origin stays the origin");
        check(matches!(Point::from(NodePoint::Origin), Point::Origin), "the origin stays the origin");
        cover("origin");
    }
    fn a01_fingerprint() {
        let pn = match pick("policy length", 6) { 0 => 56, 1 => 55, 2 => 57, 3 => 54, 4 => 58, _ => 0 };
        let nn = if pn == 56 { match pick("name length", 6) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 4, _ => 64 } } else { 2 };
        let (policy, pv) = digits(pn, if pn == 56 { param(0, 1) } else { 0 });
        let (name, nv) = digits(nn, if pn == 56 { param(1, 1) } else { 0 });
        let ok = pv && nv && pn == 56 && nn % 2 == 0;
        match cardano_utils::fingerprint(&PolicyId::new(policy.clone()), &AssetName::new(name.clone())) {
            Ok(t) => {
                check(ok, "only hexadecimal ids of the right length have a fingerprint");
                let mut all = bytes(&policy);
                all.extend(bytes(&name));
                let mut h = [0u8; 20];
                cryptoxide::hashing::blake2b::Blake2b::<160>::new().update(&all).finalize_at(&mut h);
                let s: &str = t.as_ref();
                let s = s.as_bytes();
                check(s.len() == 64, "a fingerprint has 64 digits");
                let want = hex::encode(h);
                check(&s[..40] == want.as_bytes(), "the fingerprint is the hash of policy and name");
                for i in 40..64 { check(s[i] == b'0', "the fingerprint is filled up with zeros"); }
                cover("fingerprint");
            }
            Err(_) => { check(!ok, "hexadecimal ids of the right length have a fingerprint"); cover("refused"); }
        }
    }
    fn p01_json() {
        let x = if bool_("origin") { Point::Origin } else {
            let n = pick("length", 3) as usize;
            let mut v = Vec::with_capacity(8);
            for _ in 0..n { v.push(range("char", 0, 127) as u8); }
            Point::BlockHeader { slot_nb: SlotNumber::new(if bool_("late") { u64::MAX } else { range("slot", 0, 99) }), hash: BlockId::new(String::from_utf8(v).unwrap_or_default()) }
        };
        let y: Option<Point> = match deps::serde_json::to_string(&x) { Ok(j) => deps::serde_json::from_str(&j).ok(), Err(_) => None };
        check(y == Some(x), "a point written as JSON is read back as it was");
        cover("reread");
    }
}
