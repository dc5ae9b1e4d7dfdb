//! Bounded exhaustive checks of progenitor-client, run on the real crate.
mod c_concurrent;
mod c_error;
mod c_form;
mod c_path;
mod c_query;
mod c_resp;
mod c_upgrade;
mod c_value;
mod shape;
mod wire;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C01" => c_path::run(),
        "C02" => c_query::run(),
        "C03" => c_resp::run_typed(),
        "C04" => c_resp::run_stream(),
        "C05" => c_upgrade::run(),
        "C06" => c_value::run(),
        "C07" => c_error::run_status(),
        "C08" => c_error::run_display(),
        "C09" => c_form::run(),
        "C10" => c_concurrent::run(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
