#[macro_use]
#[path = "../../rt.rs"]
pub mod rt;
use dcspark_core::tx::*;
use dcspark_core::*;
use rt::*;
use std::collections::HashMap;
use std::sync::Arc;
use utxo_selection::algorithms::*;
use utxo_selection::*;

/// where `rand` gets its numbers from: any of them
#[no_mangle]
pub extern "C" fn sv_random(n: u64) -> u64 { if n == 0 { 0 } else { concretize(range("random", 0, n)) } }

const TOK: [&str; 2] = ["token", "other"];
const POLICY: [&str; 2] = ["policy", "another"];
type V = Value<Regulated>;
fn val(n: u64) -> V { Value::from(n) }
/// whether the value is the integer n
fn is(v: &V, n: i128) -> bool { *v.raw() == deps::bigdecimal::BigDecimal::from(n) }
fn asset(t: usize, q: u64) -> TransactionAsset {
    TransactionAsset { policy_id: PolicyId::new_static(POLICY[t]), asset_name: AssetName::new_static("name"), fingerprint: TokenId::new_static(TOK[t]), quantity: val(q) }
}
fn token(t: usize) -> TokenId { TokenId::new_static(TOK[t]) }

/// what is held: an amount of the main token and of the tokens
#[derive(Clone, Copy, Default)]
struct Row { value: u64, qty: [Option<u64>; 2] }
const MAX: u64 = (1 << 40) - 1;
impl Row {
    fn any(tokens: usize) -> Row {
        let value = range("value", 1, MAX);
        let mut qty = [None; 2];
        for t in 0..tokens { if pick("has token", 2) == 1 { qty[t] = Some(range("quantity", 1, MAX)); } }
        Row { value, qty }
    }
    fn assets(&self) -> Vec<TransactionAsset> { let mut v = Vec::new(); for t in 0..2 { if let Some(q) = self.qty[t] { v.push(asset(t, q)); } } v }
    fn input(&self, i: usize) -> UTxODetails {
        UTxODetails {
            pointer: UtxoPointer { transaction_id: TransactionId::new_static("tx"), output_index: OutputIndex::new(i as u64) },
            address: Address::new_static("addr"), value: val(self.value), assets: self.assets(), metadata: Arc::new(deps::serde_json::Value::Null), extra: None,
        }
    }
    fn output(&self) -> UTxOBuilder { UTxOBuilder::new(Address::new_static("to"), val(self.value), self.assets()) }
}
#[derive(Clone, Copy, Default, PartialEq)]
struct Sum { main: i128, qty: [i128; 2] }
impl Sum {
    fn of(rows: &[Row]) -> Sum { let mut s = Sum::default(); for r in rows { s.add(r); } s }
    fn add(&mut self, r: &Row) { self.main += r.value as i128; for t in 0..2 { self.qty[t] += r.qty[t].unwrap_or(0) as i128; } }
}
fn index(u: &UTxODetails) -> usize { u64::from(u.pointer.output_index) as usize }
fn quantity(m: &HashMap<TokenId, TransactionAsset>, t: usize) -> V { m.get(&token(t)).map(|a| a.quantity.clone()).unwrap_or_default() }
fn holds(main: &V, tokens: &HashMap<TokenId, TransactionAsset>, s: &Sum) -> bool {
    is(main, s.main) && is(&quantity(tokens, 0), s.qty[0]) && is(&quantity(tokens, 1), s.qty[1])
        && tokens.iter().all(|(k, a)| *k == a.fingerprint && (*k == token(0) || *k == token(1)))
}

/// fees per transaction, input and output
struct Fees { base: u64, input: u64, output: u64, min: u64, inputs: u64, outputs: u64, size: usize, max: usize }
impl Fees {
    fn any() -> Fees { Fees { base: range("base fee", 1, MAX), input: range("fee per input", 0, MAX), output: range("fee per output", 1, MAX), min: 0, inputs: 0, outputs: 0, size: 0, max: usize::MAX } }
    fn required(&self) -> i128 { self.base as i128 + self.input as i128 * self.inputs as i128 + self.output as i128 * self.outputs as i128 }
}
impl TransactionFeeEstimator for Fees {
    type InputUtxo = UTxODetails;
    type OutputUtxo = UTxOBuilder;
    fn min_required_fee(&self) -> anyhow::Result<V> {
        let mut f = self.base;
        for _ in 0..self.inputs { f += self.input; }
        for _ in 0..self.outputs { f += self.output; }
        Ok(val(f))
    }
    fn fee_for_input(&self, _: &UTxODetails) -> anyhow::Result<V> { Ok(val(self.input)) }
    fn add_input(&mut self, _: UTxODetails) -> anyhow::Result<()> { self.inputs += 1; Ok(()) }
    fn fee_for_output(&self, _: &UTxOBuilder) -> anyhow::Result<V> { Ok(val(self.output)) }
    fn add_output(&mut self, _: UTxOBuilder) -> anyhow::Result<()> { self.outputs += 1; Ok(()) }
    fn min_value_for_output(&mut self, _: UTxOBuilder) -> anyhow::Result<V> { Ok(val(self.min)) }
    fn current_size(&self) -> anyhow::Result<usize> { Ok(self.size + self.inputs as usize + self.outputs as usize) }
    fn max_size(&self) -> anyhow::Result<usize> { Ok(self.max) }
}
type Setup = InputOutputSetup<UTxODetails, UTxOBuilder>;
type Selection = InputSelectionResult<UTxODetails, UTxOBuilder>;

/// the fixed inputs are numbered from 10
fn setup(fixed: &[Row], outputs: &[Row], change: bool) -> Setup {
    let ins = fixed.iter().enumerate().map(|(i, r)| r.input(10 + i)).collect();
    let outs = outputs.iter().map(|r| r.output()).collect();
    InputOutputSetup::from_fixed_inputs_and_outputs(ins, outs, if change { Some(Address::new_static("change")) } else { None })
}
fn rows(n: u64, tokens: usize) -> Vec<Row> { let mut v = Vec::with_capacity(4); for _ in 0..n { v.push(Row::any(tokens)); } v }
/// every one with all of the tokens, or with none
fn full(n: u64, tokens: usize) -> Vec<Row> {
    let mut v = Vec::with_capacity(4);
    for _ in 0..n {
        let mut r = Row { value: range("value", 1, MAX), qty: [None; 2] };
        for t in 0..tokens { r.qty[t] = Some(range("quantity", 1, MAX)); }
        v.push(r);
    }
    v
}
fn details(v: &[Row]) -> Vec<UTxODetails> { v.iter().enumerate().map(|(i, r)| r.input(i)).collect() }

/// which of the first n are in the list, each at most once and as they were
fn members(v: &[UTxODetails], rows: &[Row]) -> Option<u64> {
    let mut m = 0u64;
    for u in v {
        let i = index(u);
        if i >= rows.len() || m >> i & 1 == 1 { return None; }
        m |= 1 << i;
        if !is(&u.value, rows[i].value as i128) || u.assets.len() != rows[i].qty.iter().flatten().count() { return None; }
        for a in &u.assets { for t in 0..2 { if a.fingerprint == token(t) && !is(&a.quantity, rows[i].qty[t].unwrap_or(0) as i128) { return None; } } }
    }
    Some(m)
}
/// the sums of those in the set
fn chosen(rows: &[Row], m: u64) -> Sum { let mut s = Sum::default(); for (i, r) in rows.iter().enumerate() { if m >> i & 1 == 1 { s.add(r); } } s }
fn plus(a: Sum, b: Sum) -> Sum { Sum { main: a.main + b.main, qty: [a.qty[0] + b.qty[0], a.qty[1] + b.qty[1]] } }

/// the parts of a selection that choose inputs and create no change
fn accounted(r: &Selection, left: &[UTxODetails], avail: &[Row], fixed: &[Row], outputs: &[Row], fees: &Fees) {
    let Some(m) = members(&r.chosen_inputs, avail) else { check(false, "every chosen input is an available one, chosen once"); return };
    let Some(l) = members(left, avail) else { check(false, "every input left is one of those there were, once"); return };
    check(l == !m & ((1 << avail.len()) - 1), "the inputs left are those that were not chosen");
    check(holds(&r.input_balance, &r.input_asset_balance, &plus(Sum::of(fixed), chosen(avail, m))), "the input totals are those of the fixed and the chosen inputs");
    check(holds(&r.output_balance, &r.output_asset_balance, &Sum::of(outputs)), "the output totals are those of the outputs");
    check(r.fixed_inputs.len() == fixed.len() && r.fixed_outputs.len() == outputs.len() && r.changes.is_empty(), "fixed inputs and outputs are kept");
    check(is(&r.fee, fees.required()), "the fee is what the estimator requires for what was chosen");
    check(fees.inputs == r.chosen_inputs.len() as u64, "the estimator is told of every chosen input");
}
fn covered(r: &Selection) {
    check(r.input_balance >= &r.output_balance + &r.fee, "the inputs cover the outputs and the fee");
    for t in 0..2 { check(quantity(&r.input_asset_balance, t) >= quantity(&r.output_asset_balance, t), "the inputs cover every token of the outputs"); }
}

entries! {
    fn s01_largest() {
        let avail = rows(param(0, 2), param(1, 1) as usize);
        let fixed = rows(pick("fixed inputs", 2), param(1, 1) as usize);
        let outputs = rows(1, param(1, 1) as usize);
        let mut fees = Fees::any();
        let Ok(mut a) = LargestFirst::try_from(details(&avail)) else { check(false, "any inputs can be offered"); return };
        let (base, per) = (fees.base, fees.input);
        match a.select_inputs(&mut fees, setup(&fixed, &outputs, false)) {
            Ok(r) => {
                accounted(&r, &a.available_inputs(), &avail, &fixed, &outputs, &fees);
                covered(&r);
                cover(if r.chosen_inputs.is_empty() { "none needed" } else { "chosen" });
            }
            Err(_) => {
                let (all, out) = (plus(Sum::of(&avail), Sum::of(&fixed)), Sum::of(&outputs));
                let short = all.main < out.main + base as i128 + per as i128 * avail.len() as i128;
                check(short | (all.qty[0] < out.qty[0]) | (all.qty[1] < out.qty[1]), "selection fails only when all inputs together do not suffice");
                check(members(&a.available_inputs(), &avail) == Some((1 << avail.len()) - 1), "a failed selection leaves the available inputs");
                cover("insufficient");
            }
        }
    }
    fn s02_random() {
        let tokens = param(1, 1) as usize;
        let avail = rows(param(0, 2), tokens);
        let outputs = rows(param(2, 1), tokens);
        let fixed = rows(param(3, 0), tokens);
        let mut fees = Fees::any();
        let (base, per) = (fees.base, fees.input);
        let Ok(mut a) = RandomImprove::try_from(details(&avail)) else { check(false, "any inputs can be offered"); return };
        match a.select_inputs(&mut fees, setup(&fixed, &outputs, false)) {
            Ok(r) => {
                accounted(&r, &a.available_inputs(), &avail, &fixed, &outputs, &fees);
                covered(&r);
                cover("chosen");
            }
            Err(_) => {
                let short = Sum::of(&avail).main < Sum::of(&outputs).main + base as i128 + per as i128 * avail.len() as i128;
                check(short | (tokens > 0) | (outputs.len() > 1) | !fixed.is_empty(), "with one output and no token selection fails only when all inputs together do not suffice");
                check(members(&a.available_inputs(), &avail) == Some((1 << avail.len()) - 1), "a failed selection leaves the available inputs");
                cover("insufficient");
            }
        }
    }
    /// one selector used twice, with other inputs offered in between or not
    fn s03_again() {
        let avail = rows(2, 0);
        let outputs = rows(1, 0);
        let more = rows(3, 0);
        let again = pick("offered again", 2) == 1;
        let kind = pick("algorithm", 2);
        let mut fees = Fees { base: 0, input: 0, output: 0, min: 0, inputs: 0, outputs: 0, size: 0, max: usize::MAX };
        macro_rules! twice { ($a:expr) => {{
            let mut a = $a;
            let first = a.select_inputs(&mut fees, setup(&[], &outputs, false));
            if again {
                if a.set_available_inputs(details(&more)).is_err() { check(false, "any inputs can be offered"); return; }
                check(members(&a.available_inputs(), &more) == Some(7), "the inputs offered are the available ones");
            }
            fees.inputs = 0;
            let before = if again { 7 } else { match &first { Ok(r) => members(&r.chosen_inputs, &avail).map_or(0, |m| 3 & !m), Err(_) => 3 } };
            let pool = if again { &more } else { &avail };
            check(members(&a.available_inputs(), pool) == Some(before), "what was chosen is no longer available");
            match a.select_inputs(&mut fees, setup(&[], &outputs, false)) {
                Ok(r) => {
                    let m = members(&r.chosen_inputs, pool);
                    check(matches!(m, Some(m) if m & !before == 0), "no input is chosen twice");
                    check(matches!(m, Some(m) if members(&a.available_inputs(), pool) == Some(before & !m)), "what was chosen is no longer available");
                    covered(&r);
                    cover("chosen again");
                }
                Err(_) => cover("insufficient"),
            }
        }} }
        if kind == 0 { if let Ok(a) = LargestFirst::try_from(details(&avail)) { twice!(a) } }
        else if let Ok(a) = RandomImprove::try_from(details(&avail)) { twice!(a) }
    }
    /// the same for the thermostat
    fn s03_thermostat() {
        let avail = rows(param(0, 2), 0);
        let outputs = rows(1, 0);
        let more = rows(2, 0);
        let again = pick("offered again", 3);
        let new = || Fees { base: 1, input: 0, output: 0, min: 0, inputs: 0, outputs: 0, size: 0, max: 1000 };
        let mut a = Thermostat::new(ThermostatAlgoConfig::default());
        let store = |v: &[Row]| { let mut s = UTxOStore::new().thaw(); for u in details(v) { if s.insert(u).is_err() { check(false, "any inputs can be stored"); } } s.freeze() };
        if a.set_available_inputs(details(&avail)).is_err() { check(false, "any inputs can be offered"); return; }
        let first = a.select_inputs(&mut new(), setup(&[], &outputs, true));
        if again == 1 && a.set_available_inputs(details(&more)).is_err() { check(false, "any inputs can be offered"); return; }
        if again == 2 && a.set_available_utxos(store(&more)).is_err() { check(false, "any inputs can be offered"); return; }
        let pool = if again > 0 { &more } else { &avail };
        let all = (1u64 << pool.len()) - 1;
        let before = if again > 0 { all } else { match &first { Ok(r) => members(&r.chosen_inputs, &avail).map_or(0, |m| all & !m), Err(_) => all } };
        check(members(&a.available_inputs(), pool) == Some(before), "what was chosen is no longer available");
        check(matches!(a.get_available_utxos(), Ok(s) if s.iter().count() == before.count_ones() as usize), "what was chosen is no longer available");
        let mut fees = new();
        match a.select_inputs(&mut fees, setup(&[], &outputs, true)) {
            Ok(r) => {
                let m = members(&r.chosen_inputs, pool);
                check(matches!(m, Some(m) if m & !before == 0), "no input is chosen twice");
                check(matches!(m, Some(m) if members(&a.available_inputs(), pool) == Some(before & !m)), "what was chosen is no longer available");
                check(r.are_utxos_balanced(), "the result is balanced");
                check(r.fee >= val(1), "the fee is at least what the estimator requires");
                check(fees.inputs == r.chosen_inputs.len() as u64 && fees.outputs == r.changes.len() as u64, "the estimator is told of every input and change");
                cover("chosen again");
            }
            Err(_) => cover("insufficient"),
        }
    }
    /// the balance tests of a selection against its actual contents
    fn s05_balanced() {
        let tokens = param(1, 2) as usize;
        let (fixed, picked) = (rows(1, tokens), rows(1, tokens));
        let (outputs, changes) = (rows(1, tokens), rows(param(0, 1), tokens));
        let fee = range("fee", 0, MAX);
        let s = setup(&fixed, &outputs, false);
        check(holds(&s.input_balance, &s.input_asset_balance, &Sum::of(&fixed)), "the input totals are those of the inputs");
        check(holds(&s.output_balance, &s.output_asset_balance, &Sum::of(&outputs)), "the output totals are those of the outputs");
        let (all_in, all_out) = (setup(&[fixed[0], picked[0]], &[], false), { let mut v = outputs.clone(); v.extend(changes.iter().copied()); setup(&[], &v, false) });
        let r = Selection {
            input_balance: all_in.input_balance, input_asset_balance: all_in.input_asset_balance,
            output_balance: all_out.output_balance, output_asset_balance: all_out.output_asset_balance,
            fixed_inputs: s.fixed_inputs, fixed_outputs: s.fixed_outputs, chosen_inputs: vec![picked[0].input(0)], changes: changes.iter().map(|c| c.output()).collect(), fee: val(fee),
        };
        let (i, o) = (plus(Sum::of(&fixed), Sum::of(&picked)), plus(Sum::of(&outputs), Sum::of(&changes)));
        let want = (i.main == o.main + fee as i128) & (i.qty[0] == o.qty[0]) & (i.qty[1] == o.qty[1]);
        check(r.is_balanced() == want, "totals are balanced exactly when every token's net is zero");
        check(r.are_utxos_balanced() == want, "the outputs are balanced exactly when every token's net is zero");
        cover(if want { "balanced" } else { "not balanced" });
    }
    /// totals that do not belong to the outputs
    fn s05_totals() {
        let (a, b) = (rows(2, 1), rows(2, 1));
        let fee = range("fee", 0, MAX);
        let (t, u) = (setup(&a[..1], &b[..1], false), setup(&a[1..], &b[1..], false));
        let r = Selection {
            input_balance: t.input_balance, input_asset_balance: t.input_asset_balance, output_balance: t.output_balance, output_asset_balance: t.output_asset_balance,
            fixed_inputs: vec![], fixed_outputs: u.fixed_outputs, chosen_inputs: u.fixed_inputs, changes: vec![], fee: val(fee),
        };
        let zero = |i: &Row, o: &Row| { let (i, o) = (Sum::of(&[*i]), Sum::of(&[*o])); (i.main == o.main + fee as i128) & (i.qty[0] == o.qty[0]) };
        let (x, y) = (zero(&a[0], &b[0]), zero(&a[1], &b[1]));
        check(r.is_balanced() == x, "totals are balanced exactly when every token's net is zero");
        check(r.are_utxos_balanced() == (x & y), "a selection is balanced when its totals and its outputs are");
        cover(match (x, y) { (true, true) => "both balanced", (true, false) => "totals balanced", _ => "not balanced" });
    }
    fn x01_fee() {
        let tokens = param(0, 1) as usize;
        let (fixed, outputs) = (rows(pick("inputs", 3), tokens), rows(1, tokens));
        let mut fees = Fees::any();
        let need = fees.required();
        let (i, o) = (Sum::of(&fixed), Sum::of(&outputs));
        let possible = (i.qty == o.qty) & (i.main >= o.main + need);
        match FeeChangeBalancer::default().select_inputs(&mut fees, setup(&fixed, &outputs, true)) {
            Ok(r) => {
                check(possible, "what is left can only become the fee when no token is left and the fee is covered");
                check(is(&r.fee, i.main - o.main), "everything left becomes the fee");
                check(r.is_balanced() && r.are_utxos_balanced(), "the result is balanced");
                check(r.changes.is_empty() && r.chosen_inputs.is_empty() && r.fixed_inputs.len() == fixed.len() && r.fixed_outputs.len() == 1, "nothing is added");
                check(holds(&r.input_balance, &r.input_asset_balance, &i) && holds(&r.output_balance, &r.output_asset_balance, &o), "the totals are kept");
                cover("balanced");
            }
            Err(_) => { check(!possible, "it is refused only when that is impossible"); cover("refused"); }
        }
    }
    fn x02_change() {
        let tokens = param(0, 2) as usize;
        let (fixed, outputs) = (rows(pick("inputs", 3), tokens), rows(1, tokens));
        let address = pick("change address", 2) == 1;
        let mut fees = Fees::any();
        let need = fees.required() + fees.output as i128;
        let (i, o) = (Sum::of(&fixed), Sum::of(&outputs));
        let possible = address & (i.qty[0] >= o.qty[0]) & (i.qty[1] >= o.qty[1]) & (i.main >= o.main + need);
        match SingleOutputChangeBalancer::default().select_inputs(&mut fees, setup(&fixed, &outputs, address)) {
            Ok(r) => {
                check(possible, "change is given only when the inputs cover the outputs and the fee including the change's");
                check(r.changes.len() == 1 && r.chosen_inputs.is_empty() && r.fixed_inputs.len() == fixed.len() && r.fixed_outputs.len() == 1, "one output is added");
                let c = &r.changes[0];
                check(c.address == Address::new_static("change"), "the change goes to the change address");
                check(is(&c.value, i.main - o.main - need), "the change is all that the outputs and the fee leave");
                check(is(&r.fee, need), "the fee is what the estimator requires");
                for t in 0..2 {
                    let mut q = Value::zero();
                    let mut n = 0;
                    for a in &c.assets { if a.fingerprint == token(t) { q += &a.quantity; n += 1; check(a.policy_id == PolicyId::new_static(POLICY[t]), "a token keeps its policy"); } }
                    check(is(&q, i.qty[t] - o.qty[t]) && n <= 1, "the change has every token the outputs leave");
                }
                check(r.is_balanced() && r.are_utxos_balanced(), "the result is balanced");
                cover("balanced");
            }
            Err(_) => { check(!possible, "it is refused only when that is impossible"); cover("refused"); }
        }
    }
    fn s04_thermostat() {
        let (n, tokens, accumulators) = (param(0, 2), param(1, 1) as usize, param(2, 20));
        let given = param(5, 0);
        let avail = if given == 0 { rows(n, tokens) } else if given == 3 { let mut v = full(1, tokens); v.extend(full(n - 1, 0)); v } else { full(n, tokens) };
        let outputs = if given == 0 { rows(1, tokens) } else { full(1, if given == 2 { tokens } else { 0 }) };
        let fixed = if given == 0 { rows(param(3, 0), tokens) } else { full(param(3, 0), tokens) };
        // with three of them the fees are given
        let fee = |name: &str, v: u64| if given == 3 { v } else { range(name, 0, MAX) };
        let mut fees = Fees { base: fee("base fee", 170_000), input: fee("fee per input", 1_600), output: fee("fee per output", 2_900), min: fee("least value of an output", 1_000_000), inputs: 0, outputs: 0, size: 0, max: param(4, 1000) as usize };
        let mut c = String::from("{\"num_accumulators\":");
        c.push((b'0' + accumulators as u8 % 10) as char);
        c.push_str(",\"num_accumulators_assets\":");
        c.push((b'0' + accumulators as u8 % 10) as char);
        c.push_str(",\"native_utxo_thermostat_min\":\"50\",\"native_utxo_thermostat_max\":\"200\",\"main_token\":\"0000000000000000000000000000000000000000000000000000000000000000\"}");
        let config = if accumulators == 20 { ThermostatAlgoConfig::default() } else { match deps::serde_json::from_str(&c) { Ok(c) => c, Err(_) => { check(false, "the configuration is read"); return } } };
        let mut a = Thermostat::new(config);
        if a.set_available_inputs(details(&avail)).is_err() { check(false, "any inputs can be offered"); return; }
        let address = n > 1 || pick("change address", 2) == 1;
        match a.select_inputs(&mut fees, setup(&fixed, &outputs, address)) {
            Ok(r) => {
                check(address || r.changes.is_empty(), "change needs an address");
                let m = members(&r.chosen_inputs, &avail);
                check(m.is_some(), "every chosen input is an available one, chosen once");
                check(matches!(m, Some(m) if members(&a.available_inputs(), &avail) == Some(!m & ((1 << avail.len()) - 1))), "the inputs left are those that were not chosen");
                check(r.fixed_inputs.len() == fixed.len() && r.fixed_outputs.len() == outputs.len(), "fixed inputs and outputs are kept");
                check(r.are_utxos_balanced(), "the result is balanced");
                check(r.fee >= val(0) && r.fee >= fees.min_required_fee().unwrap_or_default(), "the fee is at least what the estimator requires");
                for c in &r.changes {
                    check(c.address == Address::new_static("change"), "the change goes to the change address");
                    check(c.value >= val(0), "no change is negative");
                    for q in &c.assets { check(q.quantity >= val(0), "no token of the change is negative"); }
                }
                check(fees.inputs == r.chosen_inputs.len() as u64 && fees.outputs == r.changes.len() as u64, "the estimator is told of every input and change");
                cover(if r.changes.is_empty() { "no change" } else if r.changes.len() == 1 { "one change" } else { "several changes" });
            }
            Err(_) => {
                check(members(&a.available_inputs(), &avail) == Some((1 << avail.len()) - 1), "a failed selection leaves the available inputs");
                cover("refused");
            }
        }
    }
}
