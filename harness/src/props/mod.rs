pub mod anystore;
pub mod build;
pub mod cli;
pub mod decode;
pub mod errors;
pub mod store;
pub mod feat;
pub mod lab;
pub mod serde_rt;
pub mod stream;
use crate::driver::Ctx;

pub fn run(p: &str, c: &mut Ctx) -> bool {
    match p {
        "C01" => stream::c01(c),
        "C02" => stream::c02(c),
        "C03" => stream::c03(c),
        "C04" => stream::c04(c),
        "C05" => stream::c05(c),
        "C06" => decode::c06(c),
        "C07" => decode::c07(c),
        "C08" => decode::c08(c),
        "C09" => build::c09(c),
        "C10" => build::c10(c),
        "C11" => build::c11(c),
        "C12" => build::c12(c),
        "C13" => build::c13(c),
        "C14" => build::c14(c),
        "C22" => build::c22(c),
        "C27" => anystore::c27(c),
        "C26" => errors::c26(c),
        "C25" => cli::c25(c),
        "C24" => serde_rt::c24(c),
        "C21" => feat::c21(c),
        "C19" => lab::c19(c),
        "C20" => lab::c20(c),
        "C23" => lab::c23(c),
        "C18" => store::c18(c),
        "C15" => decode::c15(c),
        "C16" => decode::c16(c),
        "C17" => decode::c17(c),
        _ => return false,
    }
    true
}
