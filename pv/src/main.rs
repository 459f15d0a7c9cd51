#[macro_use]
mod harness;
mod core;
mod p_arith;
mod p_curve;
mod p_data;
mod p_bad;
mod p_v1;
mod p_doc;
mod p_exec;
mod p_ipm;
mod p_iso;
mod p_mem;
mod p_net;
mod p_nodes;
mod p_out;
mod p_param;
mod p_time;
mod p_ts;
mod p_var;
mod p_vs;
mod rat;
mod schema;

use harness::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let mut replay = None;
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).expect("replay file")).expect("replay file");
        replay = Some((v["section"].as_str().unwrap().to_string(), v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u16).collect()));
    }
    install_panic_hook();
    // anything the solvers write to the working directory stays out of /verif
    let scratch = format!("{}/target/scratch", verif_dir());
    let _ = std::fs::create_dir_all(&scratch);
    let _ = std::env::set_current_dir(&scratch);
    if args.iter().any(|a| a == "--thorough") {
        unsafe { std::env::set_var("VERIF_TIER", "thorough") };
    } else {
        unsafe { std::env::set_var("VERIF_TIER", "quick") };
    }
    start_watchdog(&id);
    let cx = Cx::new(&id, replay);
    rat::self_check();
    match id.as_str() {
        "C01" => p_net::c01(&cx),
        "C02" => p_net::c02(&cx),
        "C03" => p_net::c03(&cx),
        "C04" => p_net::c04(&cx),
        "C05" => p_vs::c05(&cx),
        "C06" => p_exec::c06(&cx),
        "C07" => p_exec::c07(&cx),
        "C08" => p_time::c08(&cx),
        "C09" => p_time::c09(&cx),
        "C10" => p_param::c10(&cx),
        "C11" => p_param::c11(&cx),
        "C12" => p_curve::c12(&cx),
        "C13" => p_mem::c13(&cx),
        "C14" => p_arith::c14(&cx),
        "C15" => p_arith::c15(&cx),
        "C16" => p_out::c16(&cx),
        "C17" => p_out::c17(&cx),
        "C18" => p_exec::c18(&cx),
        "C19" => p_nodes::c19(&cx),
        "C23" => p_v1::c23(&cx),
        "C26" => p_bad::c26(&cx),
        "C20" => p_doc::c20(&cx),
        "C22" => p_data::c22(&cx),
        "C24" => p_ipm::c24(&cx),
        "C25" => p_data::c25(&cx),
        "C21" => p_ts::c21(&cx),
        "C27" => p_var::c27(&cx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    std::process::exit(cx.finish());
}
