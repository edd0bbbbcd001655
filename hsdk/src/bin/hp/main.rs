mod b3j;
mod bag;
mod comp;
mod kv;
mod res;
mod w3c;
fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = hsdk::Ctx::from_env(&prop);
    match prop.as_str() {
        "P01" => w3c::p01(&ctx),
        "P02" => w3c::p02(&ctx),
        "P03" => bag::p03(&ctx),
        "P04" => bag::p04(&ctx),
        "P05" => b3j::p05(&ctx),
        "P06" => b3j::p06(&ctx),
        "P07" => comp::run(&ctx),
        "R01" => res::run(&ctx),
        "K01" => kv::run(&ctx),
        _ => panic!("unknown property {prop}"),
    }
    std::process::exit(ctx.finish());
}
