mod buckets;
mod catalog;
mod gen;
mod limits;
mod same;
mod watch;
mod world;

fn main() {
    let mut s = vec![];
    s.extend(same::scenarios());
    s.extend(buckets::scenarios());
    s.extend(watch::scenarios());
    s.extend(catalog::scenarios());
    s.extend(limits::scenarios());
    simh::main(&s)
}
