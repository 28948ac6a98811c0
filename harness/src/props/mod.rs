use crate::engine::Prop;
pub mod descp;
pub mod faults;
pub mod convp;
pub mod crashp;
pub mod globalp;
pub mod histp;
pub mod optp;
pub mod jsonp;
pub mod reflectp;
pub mod stdp;
pub mod valp;
pub mod textp;
pub mod wirep;

pub static ALL: &[Prop] = &[
    wirep::C01, wirep::C02, wirep::C03, wirep::C05, reflectp::C06, reflectp::C07, jsonp::C08, jsonp::C09, jsonp::C10,
    jsonp::C11, jsonp::C12, textp::C13, textp::C14, textp::C15, textp::C16, descp::C17, descp::C18, descp::C19, histp::C20, histp::C21, optp::C22, crashp::C23, convp::C24, globalp::C25, stdp::C26, valp::C27,
];
