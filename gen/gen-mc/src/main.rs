mod api;
mod doc;
mod emit;
mod g05;
mod g08;
mod g09;
mod g10;
mod g11;
mod g12;
mod g16;
mod g17;
mod g18;
mod g19;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    // gen-mc emit <id> <dir>; gen-mc blame <id> <dir> <log>
    if id == "emit" || id == "blame" {
        let a: Vec<String> = std::env::args().collect();
        let known = model::cases::IDS.iter().find(|x| **x == a[2]).expect("no such check");
        let c = mc_core::Check::new(known);
        let dir = std::path::Path::new(&a[3]);
        if id == "emit" {
            if *known == "G08" {
                g08::accept(&c);
            }
            emit::emit(&c, known, dir);
            if *known == "G08" {
                c.export(&dir.join("before.json"));
            }
        } else {
            emit::blame(&c, dir, &std::fs::read_to_string(&a[4]).unwrap());
        }
        // Evidence is the business of the executed check.
        if c.failed() {
            c.finish_and_exit();
        }
        return;
    }
    let table: &[(&'static str, fn(&std::sync::Arc<mc_core::Check>))] = &[
        ("G05", g05::run),
        ("G09", g09::run),
        ("G10", g10::run),
        ("G11", g11::run),
        ("G12", g12::run),
        ("G16", g16::run),
        ("G17", g17::run),
        ("G18", g18::run),
        ("G19", g19::run),
    ];
    let Some((id, f)) = table.iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    let c = mc_core::Check::new(id);
    f(&c);
    c.finish_and_exit()
}
