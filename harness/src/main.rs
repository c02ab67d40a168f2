mod drv;
mod enc;
#[cfg(feature = "fields")]
mod hand;
mod long;
mod net;
mod nonce;
mod pure;
mod rec;
mod replay;
mod req;
mod rsp;
mod sizes;
mod source;
mod world;
use drv::D;
use std::panic::{catch_unwind, AssertUnwindSafe};
use world::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let group = args[1].clone();
    let cfg = Cfg::load(&opt("--cfg").expect("--cfg"));
    let certs = Certs::load(&opt("--certs").expect("--certs"));
    let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
    let thorough = opt("--tier").map_or(false, |t| t == "thorough");
    let out = opt("--out").expect("--out");
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SHOW_PANICS").is_ok() { eprintln!("{}", i) }
    }));
    watchdog();
    let salt = group.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    if ["rsp_restart", "rsp_slots", "rsp_rand", "req_auth", "req_rand", "req_id", "req_hand", "net_hand", "net_honest", "net_mitm"].contains(&&group[..]) { bystanders(&certs, &cfg) }
    let mut d = D::new(cfg, certs, seed.wrapping_mul(0x1000193) ^ salt, thorough);
    if &group[..] == "nonce_child" { return d.nonce_child() }
    let r = catch_unwind(AssertUnwindSafe(|| match &group[..] {
        "rsp_phase" => d.rsp_phase(), "rsp_wire" => d.rsp_wire(), "rsp_slots" => d.rsp_slots(),
        "rsp_offers" => d.rsp_offers(), "rsp_caps" => d.rsp_caps(), "rsp_buf" => d.rsp_buf(),
        "rsp_restart" => d.rsp_restart(), "rsp_room" => d.rsp_room(), "rsp_rand" => d.rsp_rand(),
        "req_phase" => d.req_phase(), "req_wire" => d.req_wire(), "req_version" => d.req_version(),
        "req_caps" => d.req_caps(), "req_algs" => d.req_algs(), "req_id" => d.req_id(), "req_auth" => d.req_auth(),
        "req_buf" => d.req_buf(), "req_room" => d.req_room(), "req_rand" => d.req_rand(),
        "net_honest" => d.net_honest(), "net_sig" => d.net_sig(), "net_mitm" => d.net_mitm(),
        "rsp_sizes" => d.rsp_sizes(), "req_sizes" => d.req_sizes(), "rsp_long" => d.rsp_long(), "req_long" => d.req_long(), "net_long" => d.net_long(),
        "p_bigstore" => d.p_bigstore(), "p_bigchain" => d.p_bigchain(), "p_bigmeas" => d.p_bigmeas(), "p_bigdig" => d.p_bigdig(), "p_names" => d.p_names(), "p_codec" => d.p_codec(), "p_meas" => d.p_meas(), "p_store" => d.p_store(), "p_chain" => d.p_chain(),
        "p_cursor" => d.p_cursor(), "p_der" => d.p_der(), "p_digest" => d.p_digest(), "p_const" => d.p_const(),
        "b_rsp" => d.b_rsp(&behaviours(opt("--behav"))), "b_req" => d.b_req(&behaviours(opt("--behav"))),
        "b_net" | "b_far" => d.b_net(&behaviours(opt("--behav"))),
        "p_nonce" => d.p_nonce(),
        #[cfg(feature = "fields")]
        "req_hand" => d.req_hand(),
        #[cfg(feature = "fields")]
        "net_hand" => d.net_hand(),
        #[cfg(feature = "fields")]
        "b_hand" => d.b_hand(&behaviours(opt("--behav"))),
        "req_hand" | "net_hand" | "b_hand" if cfg!(not(feature = "fields")) => {} // not without access to the states
        g => { println!("no group {}", g); std::process::exit(2) }
    }));
    // a call that a driver needs panicked: that is an observation as well
    if r.is_err() { d.rec.abort(&group) }
    std::fs::write(&out, d.rec.json()).unwrap();
    println!("sessions {} events {}", d.rec.sessions(), d.rec.events);
}
fn behaviours(path: Option<String>) -> serde_json::Value {
    serde_json::from_str(&std::fs::read_to_string(path.expect("--behav")).unwrap()).unwrap()
}
