use crate::sx;
use ledger_rs_lib::journal::Journal;

#[no_mangle]
pub fn h_smoke() {
    let d = sx::digit();
    let e = sx::digit();
    let mut j = Journal::new();
    let t = format!("2023-04-21 Supermarket\n    Expenses:Food  {}{} EUR\n    Assets:Cash\n", d as char, e as char);
    ledger_rs_lib::parse_text(&t, &mut j);
    for l in ledger_rs_lib::report::balance_report(&j) {
        sx::out(&l);
    }
    sx::assert(j.xacts.len() == 1, "one transaction");
}
