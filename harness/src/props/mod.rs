pub mod curves;
pub mod endure;
pub mod fields;
pub mod maps;
pub mod memo;
pub mod misc;
pub mod proto;
pub mod refuse;
pub mod report;

use crate::mon::Plan;

pub fn plan(id: &str, thorough: bool) -> Option<Plan> {
    let mut pl = match id {
        "C01" => fields::c01(thorough),
        "C02" => fields::c02(thorough),
        "C03" => fields::c03(thorough),
        "C04" => fields::c04(thorough),
        "C05" => fields::c05(thorough),
        "C06" => fields::c06(thorough),
        "C07" => fields::c07(thorough),
        "C08" => curves::c08(thorough),
        "C09" => curves::c09(thorough),
        "C10" => curves::c10(thorough),
        "C11" => curves::c11(thorough),
        "C12" => curves::c12(thorough),
        "C13" => curves::c13(thorough),
        "C14" => curves::c14(thorough),
        "C15" => curves::c15(thorough),
        "C16" => curves::c16(thorough),
        "C17" => maps::c17(thorough),
        "C18" => maps::c18(thorough),
        "C19" => maps::c19(thorough),
        "C20" => maps::c20(thorough),
        "C21" => maps::c21(thorough),
        "C22" => misc::c22(thorough),
        "C23" => misc::c23(thorough),
        "C26" => maps::c26(thorough),
        "C27" => misc::c27(thorough),
        "C29" => report::c29(thorough),
        "C30" => report::c30(thorough),
        "C31" => proto::c31(thorough),
        "C32" => refuse::c32(thorough),
        _ => return None,
    };
    // disturbed by look-alike operands, everything must stay as it is
    const DISTURBED: [&str; 22] = [
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
        "C17", "C18", "C19", "C20", "C21", "C27",
    ];
    if let Some(id) = DISTURBED.iter().find(|d| **d == id) {
        memo::jobs(&mut pl, thorough, id);
    }
    endure::job(&mut pl, thorough, pl_id(id));
    Some(pl)
}

fn pl_id(id: &str) -> &'static str {
    crate::cut::intern(id)
}

/// quick/thorough sizes
pub fn sz(thorough: bool, q: u64, t: u64) -> u64 {
    if thorough {
        t
    } else {
        q
    }
}

/// sizes of the jobs whose cases are drawn at random
pub fn many(thorough: bool, q: u64, t: u64) -> u64 {
    if thorough {
        t
    } else {
        (q * 5).min(t)
    }
}
