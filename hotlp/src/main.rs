//! OTLP, Zipkin and Jaeger remote sampling: what leaves the process and what comes back.
mod coll;
mod e04;
mod e05;
mod e06;
mod enc;
mod j01;
mod stack;
mod wire;
fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = hsdk::Ctx::from_env(&prop);
    match prop.as_str() {
        "E01" => enc::e01(&ctx),
        "E02" => enc::e02(&ctx),
        "E03" => enc::e03(&ctx),
        "E04" => e04::e04(&ctx),
        "E05" => e05::e05(&ctx),
        "E06" => e06::e06(&ctx),
        "F01" => stack::f01(&ctx),
        "J01" => j01::j01(&ctx),
        _ => panic!("unknown property {prop}"),
    }
    std::process::exit(ctx.finish());
}
