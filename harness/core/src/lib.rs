#[macro_use]
#[path = "../../rt.rs"]
pub mod rt;
use dcspark_core::*;
use rt::*;

macro_rules! counter {
    ($t:ty) => {{
        let (a, b) = (u64_("a"), u64_("b"));
        let x = <$t>::new(a);
        let n = a.wrapping_add(b);
        let over = n < a;
        match x.checked_add(b) {
            Some(v) => { cover("sum fits"); check(!over, "checked_add returns a value only when the sum fits"); check(u64::from(v) == n, "checked_add is the sum"); }
            None => { cover("sum overflows"); check(over, "checked_add returns nothing only when the sum does not fit"); }
        }
        check(u64::from(x.saturating_add(b)) == if over { u64::MAX } else { n }, "saturating_add is the sum or the maximum");

        match x.checked_next() {
            Some(v) => check(a != u64::MAX && u64::from(v) == a + 1, "checked_next is the successor"),
            None => check(a == u64::MAX, "checked_next returns nothing only at the maximum"),
        }
        check(u64::from(x.saturating_next()) == if a == u64::MAX { a } else { a + 1 }, "saturating_next is the successor or the maximum");
        check((x < <$t>::new(b)) == (a < b) && (x == <$t>::new(b)) == (a == b), "ordering is that of the numbers");
        observe("sum", u64::from(x.saturating_add(b)));
    }};
}


use deps::bigdecimal::{num_bigint::{BigInt, BigUint, Sign}, BigDecimal, ToPrimitive};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use dcspark_core::tx::*;
use deps::serde_json;

/// sign and magnitude kept apart, so that the magnitude stays one symbolic word
struct N { neg: bool, mag: u64 }
impl N {
    fn any(name: &'static str) -> N { N::upto(name, (1u64 << 63) - 1) }
    fn upto(name: &'static str, hi: u64) -> N {
        let mag = range(name, 0, hi);
        let neg = pick("negative", 2) == 1;
        N { neg, mag }
    }
    fn nat(name: &'static str, hi: u64) -> N { N { neg: false, mag: range(name, 0, hi) } }
    fn i(&self) -> i128 { if self.neg { -(self.mag as i128) } else { self.mag as i128 } }
    fn dec(&self, exp: i64) -> BigDecimal {
        let u = BigUint::from(self.mag);
        BigDecimal::new(BigInt::from_biguint(if self.neg { Sign::Minus } else { Sign::Plus }, u), exp)
    }
    fn val<R>(&self, exp: i64) -> Value<R> { Value::new(self.dec(exp)) }
}
/// the same up to 2^67, and in multiples of 10^-d: what fits one word and what does not
struct W { neg: bool, mag: u128, d: i64 }
impl W {
    fn any(name: &'static str) -> W {
        let d = match pick("decimals", 5) { 0 => 0, 1 => 1, 2 => 3, 3 => 7, _ => -2 };
        let lo = u64_(name);
        let neg = pick("negative", 2) == 1;
        let mag = match pick("words", 2) { 0 => lo as u128, _ => (range("high word", 1, 7) as u128) << 64 | lo as u128 };
        W { neg, mag, d }
    }
    fn i(&self) -> i128 { if self.neg { -(self.mag as i128) } else { self.mag as i128 } }
    fn val<R>(&self) -> Value<R> {
        let m = BigInt::from_biguint(if self.neg { Sign::Minus } else { Sign::Plus }, BigUint::from(self.mag));
        Value::new(BigDecimal::new(m, self.d))
    }
    /// whether `v` is this amount divided by 10^k
    fn by<R>(&self, v: &Value<R>, k: i64) -> bool { is(v, k + self.d, self.i()) }
}
/// whether the value is n times 10^-k; without dividing, and past 128 bits it is not
fn is<R>(v: &Value<R>, k: i64, n: i128) -> bool {
    let (m, e) = v.raw().as_bigint_and_exponent();
    let Some(m) = m.to_i128() else { return false };
    let up = |x: i128, d: i64| { let mut x = x; for _ in 0..d.min(40) { x = x.checked_mul(10)?; } Some(x) };
    if m == 0 || n == 0 { return m == n; }
    if k >= e { up(m, k - e) == Some(n) } else { up(n, e - k) == Some(m) }
}
fn hash_of<R>(v: &Value<R>) -> u64 { let mut h = DefaultHasher::new(); v.hash(&mut h); h.finish() }

/// a text of `len` symbolic ASCII characters
fn text(name: &'static str, len: usize, lo: u64, hi: u64) -> String {
    let mut v = Vec::with_capacity(len + 8);
    for _ in 0..len { v.push(range(name, lo, hi) as u8); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// what a decimal text without sign means
fn decimal(b: &[u8]) -> Option<u128> {
    if b.is_empty() { return None; }
    let mut n = 0u128;
    for c in b { if *c < b'0' || *c > b'9' { return None; } n = n * 10 + (*c - b'0') as u128; }
    Some(n)
}
macro_rules! number_text {
    ($t:ty, $quoted:expr) => {{
        let s = if pick("long", 2) == 0 {
            let len = pick("length", param(0, 4)) as usize;
            text("char", len, 0, 127)
        } else {
            // around the largest 64-bit number
            let mut s = String::from("1844674407370955");
            s.push_str(&text("digit", 4 + pick("more", 2) as usize, 48, 57));
            s
        };
        let b = s.as_bytes();
        let want = decimal(if b.first() == Some(&b'+') { &b[1..] } else { b }).filter(|n| *n <= u64::MAX as u128);
        match s.parse::<$t>() {
            Ok(v) => { cover("accepted"); check(want == Some(u64::from(v) as u128), "a text is read as the decimal number it spells"); }
            Err(_) => { cover("rejected"); check(want.is_none(), "every decimal number of 64 bits is accepted"); }
        }
        if want.is_some() && b[0] != b'+' {
            let mut q = String::from("\"");
            q.push_str(&s);
            q.push('"');
            if $quoted { match serde_json::from_str::<$t>(&q) {
                Ok(v) => { cover("string"); check(want == Some(u64::from(v) as u128), "a quoted number is read as the number it spells"); }
                Err(_) => check(false, "every quoted number of 64 bits is accepted"),
            } }
            if b.len() == 1 || b[0] != b'0' {
                match serde_json::from_str::<$t>(&s) {
                    Ok(v) => { cover("number"); check(want == Some(u64::from(v) as u128), "a bare number is read as the number it spells"); }
                    Err(_) => check(false, "every bare number of 64 bits is accepted"),
                }
            }
        }
    }};
}
macro_rules! number_show {
    ($t:ty) => {{
        let n = if pick("end", 2) == 0 { range("n", 0, 99_999) } else { u64::MAX - range("below", 0, 9_999) };
        let x = <$t>::new(n);
        let s = x.to_string();
        check(decimal(s.as_bytes()) == Some(n as u128), "the text of a number spells it in decimal");
        check(s.len() == 1 || s.as_bytes()[0] != b'0', "no leading zeros");
        check(s.parse::<$t>().ok() == Some(x), "reading the text back gives the number");
        let j = serde_json::to_string(&x).unwrap();
        check(j == s, "it is serialised as a bare number");
        check(serde_json::from_str::<$t>(&j).ok() == Some(x), "reading the serialised form back gives the number");
        cover("shown");
    }};
}
fn spells<R>(v: &Value<R>, digits: &[u8], decimals: usize) -> bool {
    let mut n = 0i128;
    for c in digits { n = n * 10 + (*c - b'0') as i128; }
    is(v, decimals as i64, n)
}
macro_rules! value_text {
    ($t:ty, $max:expr) => {{
        let whole = 1 + pick("whole digits", param(0, 2)) as usize;
        let decs = match pick("decimals", 5) { 0 => 0usize, 1 => 1, 2 => 2, 3 => $max, _ => $max + 1 };
        let sign = pick("sign", 2) == 1;
        let d = text("digit", whole, 48, 57);
        let sym = decs.min(2);
        let f = text("digit", sym, 48, 57);
        let mut digits = d.clone();
        let mut s = String::from(if sign { "-" } else { "" });
        s.push_str(&d);
        if decs > 0 {
            s.push('.');
            for _ in 0..decs - sym { s.push('0'); digits.push('0'); }
            s.push_str(&f);
            digits.push_str(&f);
        }
        let zero = digits.bytes().all(|c| c == b'0');
        match s.parse::<Value<$t>>() {
            Ok(v) => {
                cover("accepted");
                check(decs <= $max && (!sign || zero), "too many decimals and negative amounts are refused");
                check(spells(&v, digits.as_bytes(), decs), "a decimal text is read exactly");
                let back = v.to_string();
                match back.parse::<Value<$t>>() {
                    Ok(w) => check(w == v, "reading the text of a value gives the value"),
                    Err(_) => check(false, "the text of a value is readable"),
                }
                let j = serde_json::to_string(&v).unwrap();
                match serde_json::from_str::<Value<$t>>(&j) {
                    Ok(w) => check(w == v, "reading the serialised form of a value gives the value"),
                    Err(_) => check(false, "the serialised form of a value is readable"),
                }
            }
            Err(_) => { cover("refused"); check(decs > $max || (sign && !zero), "a non-negative amount of few enough decimals is accepted"); }
        }
    }};
}

const TOK: [&str; 2] = ["asset1aaaa", "asset1bbbb"];
fn pointer(i: u64) -> UtxoPointer { UtxoPointer { transaction_id: TransactionId::new_static("tx"), output_index: OutputIndex::new(i) } }
#[derive(Clone)]
struct Row { value: u64, qty: [Option<u64>; 2] }
fn details(i: u64, r: &Row) -> UTxODetails {
    let mut assets = Vec::new();
    for t in 0..2 {
        if let Some(q) = r.qty[t] {
            assets.push(TransactionAsset { policy_id: PolicyId::new_static("policy"), asset_name: AssetName::new_static(TOK[t]), fingerprint: TokenId::new_static(TOK[t]), quantity: N { neg: false, mag: q }.val(0) });
        }
    }
    UTxODetails { pointer: pointer(i), address: Address::new_static("addr"), value: N { neg: false, mag: r.value }.val(0), assets, metadata: Arc::new(serde_json::Value::Null), extra: None }
}
type Rows = [Option<Row>; 3];
/// balances and counts against the rows
fn store_balances(s: &UTxOStore, rows: &Rows) {
    let n = rows.iter().filter(|r| r.is_some()).count();
    check(s.len() == n && s.is_empty() == (n == 0), "as many entries as were inserted and not removed");
    let mut main = 0u64;
    for r in rows.iter().flatten() { main += r.value; }
    let m = s.get_balance_of(&TokenId::MAIN);
    check(if n == 0 { m.is_none() } else { m.map_or(false, |v| is(&v, 0, main as i128)) }, "the main balance is the sum over the entries");
    for t in 0..2 {
        let id = TokenId::new_static(TOK[t]);
        let k = rows.iter().flatten().filter(|r| r.qty[t].is_some()).count();
        let mut sum = 0u64;
        for r in rows.iter().flatten() { sum += r.qty[t].unwrap_or(0); }
        let b = s.get_balance_of(&id);
        check(if k == 0 { b.is_none() } else { b.map_or(false, |v| is(&v, 0, sum as i128)) }, "the balance of an asset is the sum over the entries holding it");
        check(s.number_utxos_for_token(&id) == k, "an asset counts the entries holding it");
        check(s.contains_token(&id) == (k > 0), "an asset is known exactly while an entry holds it");
        if k > 0 { check(s.get_asset_ids(&id).map_or(false, |(_, a)| *a == AssetName::new_static(TOK[t])), "a held asset can be identified"); }
    }
    let t = s.thaw();
    check(is(&t.balance(), 0, main as i128), "the working copy has the same main balance");
}
fn same(d: &UTxODetails, i: u64, r: &Row) -> bool {
    d.pointer == pointer(i) && is(&d.value, 0, r.value as i128)
        && d.assets.len() == r.qty.iter().flatten().count()
        && (0..2).all(|t| match (r.qty[t], d.assets.iter().find(|a| a.fingerprint.as_ref() == TOK[t])) { (None, None) => true, (Some(q), Some(a)) => is(&a.quantity, 0, q as i128), _ => false })
}
fn idx(d: &UTxODetails) -> usize { u64::from(d.pointer.output_index) as usize }
/// the entries themselves
fn store_entries(s: &UTxOStore, rows: &Rows) {
    for i in 0..3 {
        let p = pointer(i);
        check(s.contains(&p) == rows[i as usize].is_some(), "an entry is contained exactly between its insertion and its removal");
        match (s.get(&p), &rows[i as usize]) {
            (None, None) => {}
            (Some(d), Some(r)) => check(same(d, i, r), "an entry is returned as it was inserted"),
            _ => check(false, "an entry is returned exactly between its insertion and its removal"),
        }
    }
}
fn ordered<'a>(it: impl Iterator<Item = &'a UTxODetails>, rows: &Rows, amount: impl Fn(&Row) -> Option<u64>, down: bool) {
    let mut seen = [false; 3];
    let mut last: Option<u64> = None;
    for d in it {
        let i = idx(d);
        let r = match rows.get(i) { Some(Some(r)) => r, _ => { check(false, "only present entries are listed"); return } };
        let a = match amount(r) { Some(a) => a, None => { check(false, "only entries holding the asset are listed"); return } };
        check(!seen[i], "no entry is listed twice");
        seen[i] = true;
        check(same(d, i as u64, r), "a listed entry is the one inserted");
        if let Some(l) = last { check(if down { l >= a } else { l <= a }, "entries are listed in the order of their amounts"); }
        last = Some(a);
    }
    for i in 0..3 { if let Some(r) = &rows[i] { if amount(r).is_some() { check(seen[i], "every entry holding the asset is listed"); } } }
}
fn store_lists(s: &UTxOStore, rows: &Rows) {
    ordered(s.iter_ordered_by_wmain(), rows, |r| Some(r.value), false);
    ordered(s.iter_token_ordered_by_value(&TokenId::MAIN), rows, |r| Some(r.value), false);
    ordered(s.iter_token_ordered_by_value_rev(&TokenId::MAIN), rows, |r| Some(r.value), true);
    check(s.iter().count() == rows.iter().flatten().count(), "the plain listing is complete");
    for t in 0..2 {
        let id = TokenId::new_static(TOK[t]);
        ordered(s.iter_token_ordered_by_value(&id), rows, |r| r.qty[t], false);
        ordered(s.iter_token_ordered_by_value_rev(&id), rows, |r| r.qty[t], true);
        check(s.iter_token(&id).count() == rows.iter().flatten().filter(|r| r.qty[t].is_some()).count(), "the listing of an asset is complete");
    }
}
/// a history of insertions and removals; `each` looks at the store after every operation
fn history(each: fn(&UTxOStore, &Rows), hold: bool) {
    let ops = param(0, 3);
    let pointers = param(1, 3);
    let low = param(2, 1);
    let mut rows: Rows = [None, None, None];
    let mut s = UTxOStore::new();
    let mut old: Option<(UTxOStore, Rows)> = None;
    let mut used = 1;
    let keep = if hold { pick("snapshot after", ops) } else { ops };
    for k in 0..ops {
        let mut m = s.thaw();
        // pointers come into use in order: the others are renamings of these
        let i = pick("pointer", used.min(pointers));
        if i + 1 == used { used += 1; }
        let op = pick("operation", 4);
        if op == 0 {
            let r = m.remove(&pointer(i));
            check(r.is_ok() == rows[i as usize].is_some(), "removing succeeds exactly when the entry is there");
            rows[i as usize] = None;
            if r.is_ok() { cover("removed"); } else { cover("absent"); }
        } else {
            let mut qty = [None, None];
            if op >= 2 { qty[0] = Some(range("quantity", 1, 1 << 40)); }
            if op == 3 { qty[1] = Some(range("quantity", 1, 1 << 40)); }
            let r = Row { value: range("value", low, 1 << 40), qty };
            let x = m.insert(details(i, &r));
            check(x.is_ok() == rows[i as usize].is_none(), "inserting succeeds exactly when the entry is not there yet");
            if rows[i as usize].is_none() { rows[i as usize] = Some(r); cover("inserted"); } else { cover("duplicate"); }
        }
        if hold && k > keep { if let Some((o, r)) = &old { store_balances(o, r); store_entries(o, r); cover("snapshot"); } }
        s = m.freeze();
        if hold && k == keep { old = Some((s.clone(), rows.clone())); }
        if !hold { each(&s, &rows); }
    }
    if hold { each(&s, &rows); if let Some((o, r)) = &old { store_balances(o, r); store_entries(o, r); store_lists(o, r); } }
}

/// up to `n` characters, any of ASCII: quotes, backslashes, control characters
fn chars(n: u64) -> String {
    let k = pick("length", n + 1) as usize;
    text("char", k, 0, 127)
}
macro_rules! reread {
    ($x:expr) => {{
        let mut y = Some(($x).clone());
        y = match serde_json::to_string($x) { Ok(j) if y.is_some() => serde_json::from_str(&j).ok(), _ => None };
        y
    }};
}
/// an identifier is its text
macro_rules! id_text {
    ($t:ident, $a:expr, $b:expr) => {{
        let (a, b): (String, String) = ($a, $b);
        let (x, y) = ($t::new(a.clone()), $t::new(b.clone()));
        check(<$t as AsRef<str>>::as_ref(&x) == a.as_str(), "an identifier gives the text it was made of");
        check(x.to_string() == a, "an identifier prints as its text");
        check((x == y) == (a == b) && x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "identifiers compare as their texts");
        check(reread!(&x) == Some(x.clone()), "an identifier written as JSON is read back as it was");
        if a == b { cover("equal") } else { cover("different") }
    }};
}
fn a_json(c: String) -> serde_json::Value {
    match pick("metadata", 4) {
        0 => serde_json::Value::Null,
        1 => serde_json::Value::Bool(true),
        2 => serde_json::Value::String(c),
        _ => { let mut m = serde_json::Map::new(); m.insert(c, serde_json::Value::Array(vec![serde_json::Value::from(7u64)])); serde_json::Value::Object(m) }
    }
}
fn an_amount() -> Value<Regulated> {
    let d = pick("decimals", 3) as i64;
    N::nat("amount", 99).val(d)
}
fn an_asset(c: &str, quantity: Value<Regulated>) -> TransactionAsset {
    TransactionAsset { policy_id: PolicyId::new(c.to_string()), asset_name: AssetName::new(followed_by(c, 'n')), fingerprint: TokenId::new(followed_by(c, 'f')), quantity }
}
fn followed_by(c: &str, e: char) -> String { let mut s = String::from(c); s.push(e); s }
fn a_pointer(c: &str) -> UtxoPointer {
    UtxoPointer { transaction_id: TransactionId::new(c.to_string()), output_index: OutputIndex::new(range("index", 0, 99)) }
}
fn an_extra(c: &str) -> Option<String> { if bool_("extra") { Some(c.to_string()) } else { None } }

entries! {
    fn n01_block() {
        counter!(BlockNumber);
        let (c, d) = (u64_("c"), u64_("d"));
        check(u64::from(BlockNumber::new(c).saturating_sub(d)) == if d > c { 0 } else { c - d }, "saturating_sub is the difference or zero");
    }
    fn n01_slot() { counter!(SlotNumber) }
    fn n01_index() { counter!(OutputIndex) }

    fn v01_ada() {
        let n = W::any("lovelace");
        let v: Value<cardano::Lovelace> = n.val();
        let a = v.to_ada();
        check(n.by(&a, 6), "lovelace to ADA divides by a million exactly");
        check(n.by(&a.to_lovelace(), 0), "ADA to lovelace multiplies by a million exactly");
        let z = v.normalize();
        check(n.by(&z, 6), "the normalised form of lovelace is ADA");
        check(n.by(&a.normalize(), 6), "the normalised form of ADA is itself");
        check(n.by(&Value::<cardano::Lovelace>::from_normalized(&z), 0), "lovelace from the normalised form is exact");
        check(n.by(&Value::<cardano::Ada>::from_normalized(&z), 6), "ADA from the normalised form is exact");
        check(n.by(&Value::<cardano::Lovelace>::from_regulated(&v.to_regulated()), 0), "a regulated lovelace amount is the same number");
        let z2: Value<Normalized> = v.clone().into();
        let l2: Value<cardano::Lovelace> = z2.clone().into();
        let a2: Value<cardano::Ada> = z2.clone().into();
        let l3: Value<cardano::Lovelace> = a2.clone().into();
        let z3: Value<Normalized> = a2.clone().into();
        check(n.by(&z2, 6) && n.by(&l2, 0) && n.by(&a2, 6) && n.by(&l3, 0) && n.by(&z3, 6), "the From conversions agree with the named ones");
        if n.mag > 1 { cover("converted"); }
        observe("exp", a.raw().as_bigint_and_exponent().1 as u64);
    }
    fn v01_eth() {
        let n = W::any("wei");
        let v: Value<evm::Wei> = n.val();
        let a = v.to_ether();
        check(n.by(&a, 18), "wei to ether divides by 10^18 exactly");
        check(n.by(&a.to_wei(), 0), "ether to wei multiplies by 10^18 exactly");
        let z = v.normalize();
        check(n.by(&z, 18), "the normalised form of wei is ether");
        check(n.by(&a.normalize(), 18), "the normalised form of ether is itself");
        check(n.by(&Value::<evm::Wei>::from_normalized(&z), 0), "wei from the normalised form is exact");
        check(n.by(&Value::<evm::Ether>::from_normalized(&z), 18), "ether from the normalised form is exact");
        let z2: Value<Normalized> = v.clone().into();
        let l2: Value<evm::Wei> = z2.clone().into();
        let a2: Value<evm::Ether> = z2.clone().into();
        let z3: Value<Normalized> = a2.clone().into();
        check(n.by(&z2, 18) && n.by(&l2, 0) && n.by(&a2, 18) && n.by(&z3, 18), "the From conversions agree with the named ones");
        if n.mag > 1 { cover("converted"); }
    }
    fn v01_algo() {
        let n = W::any("microalgo");
        let v: Value<algo::MicroAlgo> = n.val();
        check(n.by(&v.to_algo(), 6), "microalgo to algo divides by a million exactly");
        let z = v.normalize();
        check(n.by(&z, 6), "the normalised form of microalgo is algo");
        let a = Value::<algo::Algo>::from_normalized(&z);
        check(n.by(&a, 6), "algo from the normalised form is exact");
        check(n.by(&a.normalize(), 6), "the normalised form of algo is itself");
        check(n.by(&a.to_microalgo(), 0), "algo to microalgo multiplies by a million exactly");
        check(n.by(&Value::<algo::MicroAlgo>::from_normalized(&z), 0), "microalgo from the normalised form is exact");
        let z2: Value<Normalized> = v.clone().into();
        let l2: Value<algo::MicroAlgo> = z2.clone().into();
        let z3: Value<Normalized> = a.clone().into();
        check(n.by(&z2, 6) && n.by(&l2, 0) && n.by(&z3, 6), "the From conversions agree with the named ones");
        if n.mag > 1 { cover("converted"); }
    }
    /// mainchain and sidechain precisions of a regulated value
    fn v01_regulated() {
        let n = W::any("amount");
        let mp = pick("mainchain precision", 19) as i64;
        let sp = pick("sidechain precision", 4) as i64 * 6;
        let rule = Rule { asset: TokenId::new_static("t"), mainchain_decimal_precision: mp, sidechain_decimal_precision: sp };
        let v: Value<Regulated> = n.val();
        let a = v.normalize_from_mainchain(&rule);
        let b = v.normalize_from_sidechain(&rule);
        check(n.by(&a, mp), "normalising a mainchain amount divides by its precision exactly");
        check(n.by(&b, sp), "normalising a sidechain amount divides by its precision exactly");
        check(n.by(&Value::<Regulated>::from_normalized_to_mainchain(&a, &rule), 0), "back to the mainchain is exact");
        check(n.by(&Value::<Regulated>::from_normalized_to_sidechain(&b, &rule), 0), "back to the sidechain is exact");
        if sp >= mp {
            let mut m = n.i();
            for _ in mp..sp { m = m.wrapping_mul(10); }
            if n.mag < 1 << 30 { check(is(&Value::<Regulated>::from_normalized_to_sidechain(&a, &rule), n.d, m), "mainchain to sidechain rescales exactly"); }
        }
        if n.mag > 1 { cover("converted"); }
    }

    /// every form of + and -, operands at different scales
    fn v02_addsub() {
        let lim = (1u64 << param(0, 63)) - 1;
        let (x, y) = (N::upto("x", lim), N::upto("y", lim));
        let d = pick("scale", 3) as i64 * 3;
        let mut f = 1i128;
        for _ in 0..d { f *= 10; }
        let a: Value<Normalized> = x.val(0);
        let b: Value<Normalized> = y.val(d);
        let s = x.i() * f + y.i();
        let m = x.i() * f - y.i();
        check(is(&(&a + &b), d, s) && is(&(a.clone() + &b), d, s) && is(&(&a + b.clone()), d, s) && is(&(a.clone() + b.clone()), d, s), "every form of addition is exact");
        check(is(&(&a - &b), d, m) && is(&(a.clone() - &b), d, m) && is(&(a.clone() - b.clone()), d, m), "every form of subtraction is exact");
        let mut t = a.clone(); t += &b; check(is(&t, d, s), "adding in place is exact");
        let mut t = a.clone(); t += b.clone(); check(is(&t, d, s), "adding in place is exact");
        let mut t = a.clone(); t -= &b; check(is(&t, d, m), "subtracting in place is exact");
        let mut t = a.clone(); t -= b.clone(); check(is(&t, d, m), "subtracting in place is exact");
        let v = [a.clone(), b.clone()];
        check(is(&v.iter().sum::<Value<Normalized>>(), d, s), "the sum of a list is exact");
        check(is(&v.into_iter().sum::<Value<Normalized>>(), d, s), "the sum of a list is exact");
        check(is(&((&a + &b) - &b), d, x.i() * f), "subtracting undoes adding");
        cover("done");
    }
    fn v02_mul() {
        let x = N::upto("x", (1u64 << param(0, 63)) - 1);
        let k = range("factor", 0, u32::MAX as u64) as u32;
        let k = if pick("big", 2) == 1 { k } else { assume(k < 4); concretize(k as u64) as u32 };
        let a: Value<cardano::Lovelace> = x.val(0);
        let r = x.i() * k as i128;
        check(is(&(&a * k), 0, r) && is(&(a.clone() * k), 0, r), "multiplying by a u32 is exact");
        check(is(&(&a * k as usize), 0, r) && is(&(a.clone() * k as usize), 0, r), "multiplying by a usize is exact");
        cover("done");
    }
    fn v02_ord() {
        let lim = (1u64 << param(0, 63)) - 1;
        let (x, y) = (N::upto("x", lim), N::upto("y", lim));
        let d = pick("scale", 3) as i64 * 3;
        let mut f = 1i128;
        for _ in 0..d { f *= 10; }
        let a: Value<Normalized> = x.val(0);
        let b: Value<Normalized> = y.val(d);
        let (p, q) = (x.i() * f, y.i());
        check((a == b) == (p == q) && (b == a) == (p == q), "equality is equality of the numbers, whatever the scales");
        check(a.cmp(&b) == p.cmp(&q) && b.cmp(&a) == q.cmp(&p), "ordering is that of the numbers, whatever the scales");
        check(a.partial_cmp(&b) == Some(p.cmp(&q)), "partial ordering is the total one");
        cover("done");
    }
    fn v02_hash() {
        let n = N::upto("n", 999);
        let d = pick("scale", 3) as i64;
        let mut f = 1u64;
        for _ in 0..d { f *= 10; }
        let a: Value<Normalized> = n.val(0);
        let b: Value<Normalized> = N { neg: n.neg, mag: n.mag * f }.val(d);
        check(a == b, "equality is equality of the numbers, whatever the scales");
        check(hash_of(&a) == hash_of(&b), "equal values hash alike");
        cover("done");
    }
    fn v02_div() {
        let n = N::upto("n", 99);
        let k = 1 + pick("divisor", 4) as usize;
        let a: Value<Normalized> = N { neg: n.neg, mag: n.mag * k as u64 }.val(0);
        check(is(&(&a / k), 0, n.i()) && is(&(a.clone() / k), 0, n.i()), "dividing a multiple is exact");
        cover("done");
    }
    fn v04_truncate() {
        let n = N::upto("n", 99999);
        let e = pick("scale", 4) as i64;
        let mut f = 1i128;
        for _ in 0..e { f *= 10; }
        let a: Value<Normalized> = n.val(e);
        check(is(&a.truncate(), 0, n.i() / f), "truncation keeps the integer part");
        cover("done");
    }
    fn v04_units() {
        let n = N::nat("n", 99999);
        let a: Value<evm::Ether> = n.val(pick("scale", 3) as i64);
        let w = a.to_wei();
        let t = w.truncate();
        check(t == w, "a whole number of units is its own integer part");
        cover("done");
    }
    fn b01_balance() {
        fn any(name: &'static str) -> (Balance<Regulated>, i128) {
            let k = pick("kind", 3);
            let m = N { neg: false, mag: range(name, 1, (1u64 << 62) - 1) };
            match k { 0 => (Balance::Debt(m.val(0)), -m.i()), 1 => (Balance::Balanced, 0), _ => (Balance::Excess(m.val(0)), m.i()) }
        }
        fn ok(b: &Balance<Regulated>, net: i128) -> bool {
            match b {
                Balance::Debt(v) => net < 0 && is(v, 0, -net) && b.in_debt() && !b.balanced() && !b.in_excess(),
                Balance::Balanced => net == 0 && b.balanced() && !b.in_debt() && !b.in_excess(),
                Balance::Excess(v) => net > 0 && is(v, 0, net) && b.in_excess() && !b.balanced() && !b.in_debt(),
            }
        }
        let (a, na) = any("a");
        if pick("other", 2) == 0 {
            let v = N::nat("v", (1u64 << 62) - 1);
            let x: Value<Regulated> = v.val(0);
            check(ok(&(&a + &x), na + v.i()) && ok(&(a.clone() + x.clone()), na + v.i()), "adding a value moves the net balance up by it");
            check(ok(&(&a - &x), na - v.i()) && ok(&(a.clone() - x.clone()), na - v.i()), "subtracting a value moves the net balance down by it");
            let mut t = a.clone(); t += &x; check(ok(&t, na + v.i()), "adding in place is adding");
            let mut t = a.clone(); t += x.clone(); check(ok(&t, na + v.i()), "adding in place is adding");
            let mut t = a.clone(); t -= &x; check(ok(&t, na - v.i()), "subtracting in place is subtracting");
            let mut t = a.clone(); t -= x.clone(); check(ok(&t, na - v.i()), "subtracting in place is subtracting");
            cover("value");
        } else {
            let (b, nb) = any("b");
            check((a == b) == (na == nb), "two balances are equal exactly when their nets are");
            check(ok(&(a + b), na + nb), "adding balances adds their nets");
            cover("balance");
        }
    }

    fn n02_read_block() { number_text!(BlockNumber, true) }
    fn n02_read_slot() { number_text!(SlotNumber, true) }
    fn n02_read_index() { number_text!(OutputIndex, false) }
    fn n02_show_block() { number_show!(BlockNumber) }
    fn n02_show_slot() { number_show!(SlotNumber) }
    fn n02_show_index() { number_show!(OutputIndex) }
    fn n02_show_time() { number_show!(Timestamp) }

    fn v03_ada() { value_text!(cardano::Ada, 6) }
    fn v03_lovelace() { value_text!(cardano::Lovelace, 0) }
    fn v03_ether() { value_text!(evm::Ether, 18) }
    fn v03_wei() { value_text!(evm::Wei, 0) }
    fn v03_algo() { value_text!(algo::Algo, 6) }
    fn v03_microalgo() { value_text!(algo::MicroAlgo, 0) }
    fn v03_regulated() { value_text!(Regulated, 18) }
    fn v03_normalized() { value_text!(Normalized, 18) }

    fn u01_balances() { history(store_balances, false) }
    fn u02_lists() { history(store_lists, false) }
    fn u03_entries() { history(store_entries, false) }
    fn u03_snapshots() { history(store_entries, true) }

    fn j01_ids() {
        let a = chars(param(0, 2));
        let b = if bool_("another") { chars(1) } else { a.clone() };
        match pick("identifier", 6) {
            0 => id_text!(BlockId, a, b),
            1 => id_text!(Address, a, b),
            2 => id_text!(TransactionId, a, b),
            3 => id_text!(TokenId, a, b),
            4 => id_text!(PolicyId, a, b),
            _ => id_text!(AssetName, a, b),
        }
    }
    fn j01_prefix() {
        let (a, p) = (chars(2), chars(2));
        let want = a.as_bytes().starts_with(p.as_bytes());
        check(BlockId::new(a.clone()).starts_with(&p) == want && Address::new(a.clone()).starts_with(&p) == want && TransactionId::new(a.clone()).starts_with(&p) == want, "an identifier starts with what its text starts with");
        cover(if want { "prefix" } else { "no prefix" });
    }
    fn j01_pointer() {
        let c = chars(param(0, 2));
        let x = a_pointer(&c);
        check(reread!(&x) == Some(x.clone()), "what is written as JSON is read back as it was");
        let mut s = c.clone();
        s.push('@');
        s.push_str(&x.output_index.to_string());
        check(x.to_string() == s, "a pointer prints as its transaction and index");
        cover("reread");
    }
    fn j01_output() {
        let c = chars(1);
        let x = UTxODetails {
            pointer: UtxoPointer { transaction_id: TransactionId::new_static("tx"), output_index: OutputIndex::new(7) }, address: Address::new(c.clone()), value: an_amount(),
            assets: if bool_("asset") { vec![an_asset("p", an_amount())] } else { vec![] }, metadata: Arc::new(a_json(c.clone())), extra: an_extra(&c),
        };
        match reread!(&x) {
            Some(y) => check(y == x && y.pointer == x.pointer && y.address == x.address && y.value == x.value && y.assets == x.assets && y.metadata == x.metadata && y.extra == x.extra, "what is written as JSON is read back as it was"),
            None => check(false, "what is written as JSON can be read"),
        }
        cover("reread");
    }
    fn j01_builder() {
        let c = chars(1);
        let mut x = UTxOBuilder::new(Address::new(c.clone()), an_amount(), if bool_("asset") { vec![an_asset(&c, an_amount())] } else { vec![] });
        x.extra = an_extra(&c);
        check(reread!(&x) == Some(x.clone()), "what is written as JSON is read back as it was");
        cover("reread");
    }
    fn j01_transaction() {
        let c = chars(1);
        let x = Transaction {
            transaction_id: TransactionId::new(c.clone()),
            inputs: if bool_("input") { vec![a_pointer("t"), UtxoPointer { transaction_id: TransactionId::new(c.clone()), output_index: OutputIndex::MAX }] } else { vec![] },
            outputs: if bool_("output") {
                vec![UTxODetails { pointer: a_pointer("o"), address: Address::new_static("a"), value: N { neg: false, mag: 12 }.val(1), assets: vec![an_asset("p", N { neg: false, mag: 0 }.val(0)), an_asset("q", N { neg: false, mag: 7 }.val(2))], metadata: Arc::new(serde_json::Value::Null), extra: None }]
            } else { vec![] },
            metadata: Arc::new(a_json(c)),
        };
        check(reread!(&x) == Some(x.clone()), "what is written as JSON is read back as it was");
        cover("reread");
    }
    fn j01_rule() {
        let c = chars(1);
        let (m, d) = (range("mainchain", 0, 99) as i64, range("sidechain", 0, 99) as i64);
        let x = Rule { asset: TokenId::new(c.clone()), mainchain_decimal_precision: m, sidechain_decimal_precision: d };
        let y = reread!(&x);
        check(y.map_or(false, |y| y.asset == x.asset && y.mainchain_decimal_precision == m && y.sidechain_decimal_precision == d), "what is written as JSON is read back as it was");
        cover("reread");
    }
}
