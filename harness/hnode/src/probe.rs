use crate::cluster::*;
use simh::{hlog, json, Report, Rng, Scenario, Tier, Value};
fn gen(_: &mut Rng, _: Tier) -> Value {
    json!({"nodes": 1, "ops": []})
}
fn run(p: &Value) -> Report {
    let plan = p.clone();
    simh::simulate(p, move || {
        let c = Cluster::new(&plan);
        match c.start(0) {
            Started::Up(_) => hlog!("up"),
            Started::Died => hlog!("died"),
            Started::Failed(e) => hlog!("failed {e}"),
        }
        Report { nontrivial: true, ..Default::default() }
    })
}
pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario { property: "P", name: "probe", share: 1, gen, run, rule: "", real: &[], stub: &[], assumptions: &[] }]
}
