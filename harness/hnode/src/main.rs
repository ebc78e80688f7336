mod cluster;
mod db;
mod drive;
mod log;
mod model;
mod probe;
mod repl;
mod scen;

/// HNODE_LOG=info prints what the code under test logs (for looking at one run).
fn logs() {
    use std::str::FromStr;
    if let Ok(l) = std::env::var("HNODE_LOG") {
        let level = tracing::Level::from_str(&l).unwrap_or(tracing::Level::INFO);
        let _ = tracing_subscriber::fmt().with_max_level(level).without_time().with_writer(std::io::stderr).try_init();
    }
}

fn main() {
    logs();
    let mut s = vec![];
    s.extend(probe::scenarios());
    s.extend(scen::scenarios());
    simh::main(&s)
}
