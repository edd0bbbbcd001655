mod ctxm;
mod fut;
fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = hsdk::Ctx::from_env(&prop);
    match prop.as_str() {
        "C01" => ctxm::run(&ctx),
        "C03" => fut::run(&ctx),
        _ => panic!("unknown property {prop}"),
    }
    std::process::exit(ctx.finish());
}
